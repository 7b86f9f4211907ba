"""Positional number systems: integer forms of terms built from divisions with remainder by a constant (quotients and
remainders by 58, slices by 256). Remainders are eliminated by their defining equation, newest first, so that chains of
long division or multiplication telescope to the numbers they represent; z3's integer arithmetic decides what is left."""
import heapq, time
import z3
from . import term as t
from .solver import STATS

c = t.const


class NotLinear(Exception):
    pass


class Guide:
    """Decides the branches of an execution by what concrete members of a case do; each such decision is an obligation."""

    def __init__(self, envs, hard=()):
        self.envs = [dict(e) for e in envs]
        self.caches = [{} for _ in envs]
        self.done = []             # (pc, condition that holds in the case)
        self.hard = set(hard)      # functions whose values no member fixes: never decided
        self.opaque = {}
        self.forks = 0
        self.never = set()         # conditions found to depend on the member

    def is_opaque(self, x):
        r = self.opaque.get(x)
        if r is None:
            for n in t.postorder([x], set(self.opaque)):
                self.opaque[n] = (n.op == "uf" and n.args[0] in self.hard) or any(self.opaque[k] for k in t.kids(n))
            r = self.opaque[x]
        return r

    def vals(self, x):
        return [t.evaluate([x], e, None, ch)[0] for e, ch in zip(self.envs, self.caches)]

    def decide(self, pc, x):
        """True, False or None (both)"""
        if x in self.never or self.is_opaque(x):
            return None
        live = [i for i in range(len(self.envs))]
        for p in pc:
            if not self.is_opaque(p):
                live = [i for i in live if t.evaluate([p], self.envs[i], None, self.caches[i])[0]]
        vs = {t.evaluate([x], self.envs[i], None, self.caches[i])[0] for i in live}
        if len(vs) != 1:
            return None
        v = bool(vs.pop())
        self.done.append((pc, x if v else t.bnot(x)))
        return v


def guided(mach, guide):
    """makes a machine follow a guide"""
    def branch(st, x, lazy_true=False, lazy_false=False):
        if x.op == "const":
            return [(bool(x.args[0]), st)]
        if x in st.pc:
            return [(True, st)]
        n = t.bnot(x)
        if n in st.pc:
            return [(False, st)]
        v = guide.decide(st.pc, x)
        if v is not None:
            return [(v, st)]
        guide.forks += 1
        if guide.forks > 4000:
            raise NotLinear("too many undecided branches")
        s2 = st.fork()
        st.assume(x)
        s2.assume(n)
        return [(True, st), (False, s2)]
    mach.branch = branch


class Radix:
    def __init__(self):
        self.key = {}
        self.atoms = []        # (kind, what, base or None)
        self.rng = []
        self.memo = {}
        self.zero = set()      # atoms known to be zero
        self.rems = {}         # flat: forms that are remainders
        self.flat = False      # quotients of quotients are quotients by the product
        self.chars = {}        # functions giving a character of a digit: name -> alphabet

    def atom(self, key, lo, hi):
        i = self.key.get(key)
        if i is None:
            i = self.key[key] = len(self.atoms)
            self.atoms.append(key)
            self.rng.append((lo, hi))
        return i

    @staticmethod
    def freeze(f):
        return (f[0], tuple(sorted(f[1].items())))

    def range(self, f):
        if self.rems:
            b = self.rems.get(self.freeze(f))
            if b:
                return 0, b - 1
        lo = hi = f[0]
        for a, k in f[1].items():
            l, h = self.rng[a]
            lo, hi = lo + min(k * l, k * h), hi + max(k * l, k * h)
        return lo, hi

    def add(self, f, g, k=1):
        d = dict(f[1])
        for a, x in g[1].items():
            y = d.get(a, 0) + k * x
            if y:
                d[a] = y
            else:
                d.pop(a, None)
        return (f[0] + k * g[0], d)

    def scale(self, f, k):
        return (f[0] * k, {a: x * k for a, x in f[1].items()} if k else {})

    def one(self, i):
        return (0, {i: 1})

    def divide(self, f, b, hi):
        """-> (floor(f / b), f mod b) as forms; f is between 0 and hi"""
        lo, h = self.range(f)
        h = min(h, hi)
        if lo >= 0 and h < b:
            return (0, {}), f
        if all(k % b == 0 for k in f[1].values()) and f[0] % b == 0:
            return (f[0] // b, {a: k // b for a, k in f[1].items()}), (0, {})
        while self.flat and f[0] == 0 and len(f[1]) == 1:
            (a, k), = f[1].items()
            key = self.atoms[a]
            if k != 1 or not isinstance(key, tuple) or key[0] != "flo":
                break
            f = self.thaw(key[1])
            b *= key[2]
            lo, h = self.range(f)
        fk = self.freeze(f)
        lo = max(lo, 0)
        q = self.atom(("flo", fk, b), lo // b, h // b)
        return self.one(q), None if ("rem", fk, b) not in self.key else self.one(self.key[("rem", fk, b)])

    def rem(self, f, b, hi):
        if self.flat:
            # f - b * floor(f / b), without a name of its own
            q, r = self.divide(f, b, hi)
            r = self.add(f, q, -b)
            self.rems[self.freeze(r)] = b
            return r
        q, r = self.divide(f, b, hi)
        if r is None:
            r = self.one(self.atom(("rem", self.freeze(f), b), 0, b - 1))
        return r

    def form(self, x):
        r = self.memo.get(x)
        if r is None:
            for n in t.postorder([x], set(self.memo)):
                if n not in self.memo and n.w > 0:
                    try:
                        self.memo[n] = self.form1(n)
                    except NotLinear as e:
                        self.memo[n] = e
            r = self.memo[x]
        if isinstance(r, NotLinear):
            raise r
        return r

    def form1(self, x):
        op, w = x.op, x.w
        if op == "const":
            return (x.args[0], {})
        if op == "var" or op == "uf":
            return self.one(self.atom(x, x.lo, x.hi))
        if op == "concat":
            r, o = (0, {}), 0
            for k in x.args:
                if k.op != "const" or k.args[0]:
                    r = self.add(r, self.form(k), 1 << o)
                o += k.w
            return r
        if op == "extract":
            y, l = x.args[0], x.args[1]
            f = self.form(y)
            if l:
                f, _ = self.divide(f, 1 << l, y.hi)
            if l + w < y.w:
                f = self.rem(f, 1 << w, y.hi >> l)
            return f
        if op == "add":
            r = (x.args[0], {})
            for k, y in x.args[1]:
                if k >> w - 1:
                    k -= 1 << w
                r = self.add(r, self.form(y), k)
            lo, hi = self.range(r)
            if lo < 0:
                r = (x.args[0], {})
                for k, y in x.args[1]:
                    r = self.add(r, self.form(y), k)
                lo, hi = self.range(r)
            if lo < 0:
                raise NotLinear("sum may wrap around")
            return self.rem(r, 1 << w, hi) if hi >> w else r
        if op == "sext":
            y = x.args[0]
            if y.hi >> y.w - 1:
                raise NotLinear("sign")
            return self.form(y)
        if op in ("udiv", "urem") and x.args[1].op == "const" and x.args[1].args[0]:
            y, b = x.args[0], x.args[1].args[0]
            f = self.form(y)
            return self.divide(f, b, y.hi)[0] if op == "udiv" else self.rem(f, b, y.hi)
        if op == "mul":
            raise NotLinear("product")
        if op == "not" and w > 1:
            f = self.form(x.args[0])
            return self.add(((1 << w) - 1, {}), f, -1)
        raise NotLinear(op)

    def thaw(self, fk):
        return (fk[0], dict(fk[1]))

    def expand(self, f, keep=()):
        """remainders replaced by their definition, newest first; known zeros dropped"""
        d = dict(f[1])
        k0 = f[0]
        heap = [-a for a in d]
        heapq.heapify(heap)
        seen = set(d)
        while heap:
            a = -heapq.heappop(heap)
            seen.discard(a)
            k = d.get(a, 0)
            if not k:
                continue
            if a in self.zero:
                del d[a]
                continue
            key = self.atoms[a]
            if not isinstance(key, tuple) or key[0] != "rem" or a in keep:
                continue
            del d[a]
            g = self.thaw(key[1])
            q = self.atom(("flo", key[1], key[2]), *(x // key[2] for x in (max(0, self.range(g)[0]), self.range(g)[1])))
            k0 += k * g[0]
            items = list(g[1].items()) + [(q, -key[2])]
            for b, x in items:
                if b in self.zero:
                    continue
                y = d.get(b, 0) + k * x
                if y:
                    d[b] = y
                else:
                    d.pop(b, None)
                if b < a and b not in seen:
                    seen.add(b)
                    heapq.heappush(heap, -b)
        return (k0, d)

    def closed(self, a):
        """a floor atom with nested floors cleared: a = floor(E / M), with E expanded"""
        _, fk, M = self.atoms[a]
        E = self.thaw(fk)
        while True:
            n = max((b for b, k in E[1].items() if k == 1 and isinstance(self.atoms[b], tuple) and self.atoms[b][0] == "flo" and b not in self.zero), default=None)
            if n is None:
                break
            _, gk, b = self.atoms[n]
            g = self.thaw(gk)
            E = (E[0], {x: k for x, k in E[1].items() if x != n})
            E = self.add(self.scale(E, b), g)
            M *= b
        return self.expand(E), M

    # ---- z3
    def z(self, f, used):
        used.update(f[1])
        return z3.Sum([z3.IntVal(f[0])] + [z3.Int("a%d" % a) * k for a, k in f[1].items()])

    def cond(self, x, used, keep):
        op = x.op
        if op == "const":
            return z3.BoolVal(bool(x.args[0]))
        if op == "not":
            return z3.Not(self.cond(x.args[0], used, keep))
        if op in ("and", "or"):
            return (z3.And if op == "and" else z3.Or)([self.cond(k, used, keep) for k in x.args])
        if op == "xor" and x.w == 1:
            return z3.Xor(*[self.cond(k, used, keep) for k in x.args])
        if op == "ite" and x.w == 1:
            return z3.If(*[self.cond(k, used, keep) for k in x.args])
        if op in ("eq", "ult", "slt"):
            a, b = x.args
            if op == "eq":
                for y, k in ((a, b), (b, a)):
                    while y.op == "concat" and y.args[0].op == "uf" and all(e.op == "const" and not e.args[0] for e in y.args[1:]):
                        y = y.args[0]
                    if k.op == "const" and y.op == "uf" and y.args[0] in self.chars:
                        i = self.chars[y.args[0]].find(chr(k.args[0]))
                        return self.z(self.form(y.args[1]), used) == i
                    if k.op == "const" and y.op == "ite":
                        return z3.If(self.cond(y.args[0], used, keep), self.cond(t.eq(y.args[1], k), used, keep), self.cond(t.eq(y.args[2], k), used, keep))
            if op == "slt" and (a.hi >> a.w - 1 or b.hi >> b.w - 1):
                raise NotLinear("signed comparison")
            u, v = [self.z(self.expand(self.form(k), keep), used) for k in (a, b)]
            return u == v if op == "eq" else u < v
        return self.z(self.expand(self.form(x), keep), used) != 0

    def prove(self, goal, facts=(), keep=(), timeout=10, hyps=(), close=True):
        """goal: condition term. facts: (form, lo, hi). -> result, seconds"""
        t0 = time.time()
        used = set()
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(z3.Not(self.cond(goal, used, keep)))
        for h in hyps:
            try:
                s.add(self.cond(h, used, keep))
            except NotLinear:
                pass
        return self.finish(s, used, facts, t0, close)

    def finish(self, s, used, facts, t0, close=True):
        left = list(facts)
        done = set()
        while True:
            for a in sorted(used - done):
                done.add(a)
                lo, hi = self.rng[a]
                v = z3.Int("a%d" % a)
                s.add(v >= lo, v <= hi)
                key = self.atoms[a]
                if a in self.zero:
                    s.add(v == 0)
                elif close and isinstance(key, tuple) and key[0] == "flo":
                    E, M = self.closed(a)
                    u2 = set()
                    e = self.z(E, u2)
                    if all(not isinstance(self.atoms[b], tuple) for b in u2):
                        s.add(e - M * v >= 0, e - M * v < M)
                        used |= u2
            rest = []
            n = len(used)
            for f, lo, hi in left:
                if used & f[1].keys():
                    e = self.z(f, used)
                    s.add(e >= lo, e <= hi)
                else:
                    rest.append((f, lo, hi))
            if len(rest) == len(left) and used == done:
                break
            left = rest
        r = str(s.check())
        dt = time.time() - t0
        STATS["queries"] += 1
        STATS[r] += 1
        STATS["solver_s"] += dt
        return r, dt
