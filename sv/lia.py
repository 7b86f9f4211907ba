"""Integer view of bit-vector terms: every term is rewritten as an integer linear form over atoms
(products of words, floor-quotients, conditionals), exact for all values of the unknowns.
Word-splitting and carry chains telescope symbolically; what is left is decided by z3's integer arithmetic."""
import z3, time
from . import term as t
from .term import T
from .solver import STATS


class Lin:
    """c0 + sum of c_i * atom_i with exact integer semantics and an interval"""
    __slots__ = ("k", "d", "lo", "hi")

    def __init__(self, k, d, lo, hi):
        self.k, self.d, self.lo, self.hi = k, d, lo, hi


class Lia:
    def __init__(self, compose=True):
        self.compose = compose
        self.fl = {}           # atom -> (form, bits): floor(form / 2^bits)
        self.memo = {}
        self.bmemo = {}
        self.atoms = []        # (name, z3 Int)
        self.rng = []
        self.defs = []         # atom -> function giving its defining constraint
        self.sub = {}          # atom -> form replacing it in constraints
        self.used = {}
        self.facts = []
        self.keys = {}
        self.known = {}
        self.pre = {}
        self.byatom = {}       # atom -> known forms in which it has the largest coefficient
        self.rmemo = {}
        self.queries = 400

    # -- atoms
    def atom(self, key, lo, hi, zdef=None):
        i = self.keys.get(key)
        if i is None:
            i = len(self.atoms)
            self.keys[key] = i
            self.atoms.append(z3.Int("a%d" % i))
            self.rng.append((lo, hi))
            self.defs.append(zdef)
        return Lin(0, {i: 1}, *self.rng[i])

    def mk(self, k, d, lo=None, hi=None):
        d = {a: c for a, c in d.items() if c}
        l = h = k
        for a, c in d.items():
            r = self.rng[a]
            if c > 0:
                l += c * r[0]
                h += c * r[1]
            else:
                l += c * r[1]
                h += c * r[0]
        if len(d) > 1:
            key, sg = self.canon(d)
            r = self.known.get(key)
            if r is not None:
                a, b = (r[0], r[1]) if sg > 0 else (-r[1], -r[0])
                l, h = max(l, a + k), min(h, b + k)
            elif len(d) > 2 and h - l > 1:
                a, b = self.parts(key, d)
                l, h = max(l, a + k), min(h, b + k)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        return Lin(k, d, l, h)

    def canon(self, d):
        it = tuple(sorted(d.items()))
        if it[0][1] < 0:
            return tuple((a, -c) for a, c in it), -1
        return it, 1

    def parts(self, key, d0):
        """interval of a linear form from known ranges of its parts"""
        m = self.rmemo.get(key)
        sg = 1 if dict(key) == d0 else -1
        if m is None or m[2] != len(self.known):
            d = dict(key)
            lo = hi = 0
            for a in sorted(d, reverse=True):
                while a in d:
                    best = None
                    for kk in self.byatom.get(a, ()):
                        q, r = divmod(d[a], kk[a])
                        if r or any(d.get(b, 0) == 0 for b in kk):
                            continue
                        # what is left after taking q times the known part
                        rest = {b: d[b] - q * kk[b] for b in kk}
                        if any(abs(rest[b]) > abs(d[b]) for b in kk):
                            continue
                        kr = self.known[tuple(sorted(kk.items()))]
                        w = abs(q) * (kr[1] - kr[0])
                        for b, x in rest.items():
                            w += abs(x) * (self.rng[b][1] - self.rng[b][0])
                        plain = sum(abs(d[b]) * (self.rng[b][1] - self.rng[b][0]) for b in kk)
                        if w < plain and (best is None or plain - w > best[0]):
                            best = (plain - w, q, kr, rest)
                    if best is None:
                        x = d.pop(a)
                        r = self.rng[a]
                        lo += x * r[0 if x > 0 else 1]
                        hi += x * r[1 if x > 0 else 0]
                        break
                    _, q, kr, rest = best
                    lo += q * kr[0 if q > 0 else 1]
                    hi += q * kr[1 if q > 0 else 0]
                    for b, x in rest.items():
                        if x:
                            d[b] = x
                        else:
                            del d[b]
            m = self.rmemo[key] = (lo, hi, len(self.known))
        return (m[0], m[1]) if sg > 0 else (-m[1], -m[0])

    def learn(self, L):
        """remembers the range of a form"""
        if len(L.d) < 2:
            return
        nv = self.mk(L.k, L.d)
        if L.lo <= nv.lo and L.hi >= nv.hi:
            return
        key, sg = self.canon(L.d)
        a, b = max(L.lo, nv.lo) - L.k, min(L.hi, nv.hi) - L.k
        if key not in self.known:
            dk = dict(key)
            for x in dk:
                if dk[x] < 0:
                    self.byatom.setdefault(x, []).append(dk)
        self.known[key] = (a, b) if sg > 0 else (-b, -a)
        self.facts.append(L)

    def comb(self, k, items):
        """k + sum c*L with the interval from the parts' own intervals too"""
        d = {}
        l = h = k
        kk = k
        for c, L in items:
            kk += c * L.k
            for a, x in L.d.items():
                d[a] = d.get(a, 0) + c * x
            l += c * (L.lo if c > 0 else L.hi)
            h += c * (L.hi if c > 0 else L.lo)
        return self.mk(kk, d, l, h)

    def expand(self, L):
        if not any(a in self.sub for a in L.d):
            return L.k, L.d
        k, d = L.k, {}
        for a, c in L.d.items():
            if a in self.sub:
                S = self.sub[a]
                k += c * S.k
                for b, e in S.d.items():
                    d[b] = d.get(b, 0) + c * e
            else:
                d[a] = d.get(a, 0) + c
        return k, {a: c for a, c in d.items() if c}

    def z(self, L):
        k, d = self.expand(L)
        for a in d:
            self.used[a] = True
        s = [c * self.atoms[a] if c != 1 else self.atoms[a] for a, c in d.items()]
        if k or not s:
            s.append(z3.IntVal(k))
        return z3.Sum(s) if len(s) > 1 else s[0]

    def floor(self, L, n):
        """floor(L / 2^n) as a form"""
        if n == 0:
            return L
        lo, hi = L.lo >> n, L.hi >> n
        if lo == hi:
            return Lin(lo, {}, lo, lo)
        for j in (32, 64, 128, 256):       # a sign: the same for every sufficient width
            if j < n and -(1 << j) <= L.lo and L.hi < 1 << j:
                n = j
                break
        m = 1 << n
        # the range of the quotient before reduction, when this is a reduced value
        p = self.pre.get(self.lkey(L))
        if p is not None:
            self.floor(p[0], n)
        # the part divisible by 2^n is taken out exactly
        d0 = {a: c >> n for a, c in L.d.items() if c % m == 0}
        d1 = {a: c for a, c in L.d.items() if c % m}
        k0, k1 = L.k >> n, L.k & (m - 1)
        R = self.mk(k1, d1)
        if not d0 and k0 == 0:
            R.lo, R.hi = max(R.lo, L.lo), min(R.hi, L.hi)
        if R.lo >> n != R.hi >> n and len(R.d) > 1:
            self.narrow(R, n)
        if R.lo >> n == R.hi >> n:
            return self.mk(k0 + (R.lo >> n), d0, lo, hi)
        if R.d and all(x < 0 for x in R.d.values()):      # floor(-v / 2^n) = -floor((v + 2^n - 1) / 2^n)
            F = self.floor(Lin(m - 1 - R.k, {x: -y for x, y in R.d.items()}, m - 1 - R.hi, m - 1 - R.lo), n)
            r = self.comb(k0, [(1, self.mk(0, d0)), (-1, F)])
            r.lo, r.hi = max(r.lo, lo), min(r.hi, hi)
            self.learn(r)
            return r
        i = min(((x & -x).bit_length() - 1 for x in R.d.values()), default=0)
        if i:                                             # floor((2^i v + k) / 2^n) = floor((v + k >> i) / 2^(n - i))
            F = self.floor(Lin(R.k >> i, {x: y >> i for x, y in R.d.items()}, R.lo >> i, R.hi >> i), n - i)
            r = self.comb(k0, [(1, self.mk(0, d0)), (1, F)])
            r.lo, r.hi = max(r.lo, lo), min(r.hi, hi)
            self.learn(r)
            return r
        # floor((u + floor(v / 2^j)) / 2^n) = floor((2^j u + v) / 2^(n + j))
        G, gn = R, n
        while self.compose:
            js = [a for a, c in G.d.items() if c == 1 and a in self.fl]
            if not js:
                break
            a = max(js)
            inner, j = self.fl[a]
            rest = {b: c << j for b, c in G.d.items() if b != a}
            for b, c in inner.d.items():
                rest[b] = rest.get(b, 0) + c
            G = self.mk((G.k << j) + inner.k, rest)
            gn += j
        gm = 1 << gn
        key = ("fl", gn, G.k, tuple(sorted(G.d.items())))

        def zdef(v):
            e = self.z(G)
            return z3.And(e - gm * v >= 0, e - gm * v < gm)
        A = self.atom(key, max(R.lo >> n, G.lo >> gn), min(R.hi >> n, G.hi >> gn), zdef)
        for a in A.d:
            self.fl[a] = (G, gn)
        dd = dict(d0)
        for a in A.d:
            dd[a] = dd.get(a, 0) + 1
        r = self.mk(k0, dd, lo, hi)
        self.learn(r)
        return r

    def narrow(self, R, n):
        """tightens an interval that spills by a few units over a power of two, by a local solver query"""
        a, b = R.lo >> n, R.hi >> n
        key = ("narrow", n, self.lkey(R))
        if key in self.rmemo:
            a, b = self.rmemo[key]
        else:
            while a < b and (b - a <= 3 or -4 <= a < 0) and self.local(lambda z: z < (a + 1) << n, R):
                a += 1
            while a < b and (b - a <= 3 or b > 3 and 0 <= b - (1 << b.bit_length() - 1) <= 3) and self.local(lambda z: z >= b << n, R):
                b -= 1
            self.rmemo[key] = (a, b)
        if a << n > R.lo or ((b + 1) << n) - 1 < R.hi:
            R.lo, R.hi = max(R.lo, a << n), min(R.hi, ((b + 1) << n) - 1)
            self.learn(R)

    def local(self, f, R, depth=2):
        """is f(R) impossible, looking only at the definitions of nearby atoms?"""
        if not self.queries:
            return False
        self.queries -= 1
        saved, self.used = self.used, {}
        s = z3.Solver()
        s.set("timeout", 500)
        s.add(f(self.z(R)))
        done = set()
        for level in range(depth + 1):
            new = [x for x in self.used if x not in done]
            for x in new:
                done.add(x)
                lo, hi = self.rng[x]
                v = self.atoms[x]
                s.add(v >= lo, v <= hi)
                if level < depth and self.defs[x] is not None and x in self.fl:
                    s.add(self.defs[x](v))
        for fct in self.facts:
            if all(x in done for x in fct.d):
                z = self.z(fct)
                s.add(z >= fct.lo, z <= fct.hi)
        self.used = saved
        t0 = time.time()
        r = s.check()
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t0
        return r == z3.unsat

    def modw(self, L, w):
        """L mod 2^w"""
        m = 1 << w
        if L.lo >= 0 and L.hi < m:
            return L
        F = self.floor(L, w)
        r = self.clip(self.comb(0, [(1, L), (-m, F)]), 0, m - 1)
        if self.lkey(r) not in self.pre:
            self.pre[self.lkey(r)] = L, w      # equal modulo 2^w
        return r

    def clip(self, L, lo, hi):
        r = Lin(L.k, L.d, max(L.lo, lo), min(L.hi, hi))
        self.learn(r)
        return r

    # -- terms
    def form(self, root):
        for x in t.postorder([root], set(self.memo)):
            if x.w == 1:
                continue
            if x not in self.memo:
                f = self.one(x)
                self.memo[x] = self.clip(f, x.lo, x.hi)
        if root.w == 1:
            return self.bit(root)
        return self.memo[root]

    def bit(self, x):
        """width-1 term as a 0/1 form"""
        f = self.memo.get(x)
        if f is None:
            f = self.memo[x] = self.bit1(x)
        return f

    def bit1(self, x):
        if x.op == "const":
            return Lin(x.args[0], {}, x.args[0], x.args[0])
        if x.op == "extract":
            y, l = x.args
            if y.op in ("and", "or", "xor"):
                bs = [self.bit(t.extract(k, l, l)) for k in y.args]

                def zdef(v, o=y.op):
                    zs = [self.z(b) == 1 for b in bs]
                    if o == "xor":
                        e = zs[0]
                        for q in zs[1:]:
                            e = z3.Xor(e, q)
                    else:
                        e = z3.And(*zs) if o == "and" else z3.Or(*zs)
                    return v == z3.If(e, z3.IntVal(1), z3.IntVal(0))
                return self.atom(("bit", y, l), 0, 1, zdef)
            if y.op == "not":
                return self.comb(1, [(-1, self.bit(t.extract(y.args[0], l, l)))])
            L = self.form(y)
            return self.clip(self.comb(0, [(1, self.floor(L, l)), (-2, self.floor(L, l + 1))]), 0, 1)
        if x.op == "not":
            return self.clip(self.comb(1, [(-1, self.bit(x.args[0]))]), 0, 1)
        if x.op == "ult":
            a, b = self.form(x.args[0]), self.form(x.args[1])
            w = x.args[0].w
            D = self.comb(0, [(1, a), (-1, b)])
            return self.clip(self.comb(0, [(-1, self.sign(D, w))]), 0, 1)
        if x.op == "eq" and x.args[0].w > 1 and any(k.op == "const" and k.args[0] == 0 for k in x.args):
            y = x.args[0] if x.args[1].op == "const" else x.args[1]
            return self.clip(self.comb(0, [(-1, self.sign(self.comb(-1, [(1, self.form(y))]), y.w))]), 0, 1)

        def zdef(v):
            return z3.Or(z3.And(v == 1, self.cond(x)), z3.And(v == 0, z3.Not(self.cond(x))))
        return self.atom(("bool", x), 0, 1, zdef)

    def sign(self, D, w):
        """-1 iff D < 0, 0 otherwise, for -2^w <= D < 2^w"""
        return self.floor(D, w)

    def cond(self, x):
        r = self.bmemo.get(x)
        if r is not None:
            return r
        op = x.op
        if op == "const":
            r = z3.BoolVal(bool(x.args[0]))
        elif op == "and":
            r = z3.And(*[self.cond(k) for k in x.args])
        elif op == "or":
            r = z3.Or(*[self.cond(k) for k in x.args])
        elif op == "xor":
            r = self.cond(x.args[0])
            for k in x.args[1:]:
                r = z3.Xor(r, self.cond(k))
        elif op == "not":
            r = z3.Not(self.cond(x.args[0]))
        elif op == "ite":
            r = z3.If(*[self.cond(k) for k in x.args])
        elif op == "eq" and x.args[0].w > 1:
            r = self.z(self.form(x.args[0])) == self.z(self.form(x.args[1]))
        elif op == "eq":
            r = self.cond(x.args[0]) == self.cond(x.args[1])
        elif op == "ult":
            r = self.z(self.form(x.args[0])) < self.z(self.form(x.args[1]))
        elif op == "slt":
            r = self.z(self.signed(x.args[0])) < self.z(self.signed(x.args[1]))
        elif op == "extract":
            r = self.z(self.bit(x)) == 1
        else:
            r = z3.Bool("b%d" % x.id)
        self.bmemo[x] = r
        return r

    def unreduced(self, L, w):
        """a form congruent to L modulo 2^w from which L was reduced"""
        p = self.pre.get(self.lkey(L))
        return p[0] if p is not None and p[1] >= w else None

    def signed(self, y):
        """the two's complement value"""
        L = self.form(y)
        w = y.w
        V = self.unreduced(L, w)
        if V is not None and -(1 << w - 1) <= V.lo and V.hi < 1 << w - 1:
            return V
        return self.comb(0, [(1, L), (-(1 << w), self.floor(L, w - 1))])

    def one(self, x):
        op, w, a = x.op, x.w, x.args
        if op == "const":
            return Lin(a[0], {}, a[0], a[0])
        if op == "var":
            return self.atom(x, x.lo, x.hi)
        f = self.form
        if op == "concat":
            off = 0
            it = []
            for p in a:
                it.append((1 << off, self.bit(p) if p.w == 1 else f(p)))
                off += p.w
            return self.comb(0, it)
        if op == "extract":
            y, l = a
            L = f(y)
            V = self.unreduced(L, l + w)
            if l + w == y.w:
                r = self.clip(self.floor(L, l), 0, (1 << w) - 1)
            else:
                r = self.clip(self.comb(0, [(1, self.floor(L, l)), (-(1 << w), self.floor(L, l + w))]), 0, (1 << w) - 1)
            if V is not None and self.lkey(r) not in self.pre:
                self.pre[self.lkey(r)] = self.floor(V, l), w
            return r
        if op == "add":
            m = 1 << w
            items = []
            for c, y in a[1]:
                if c > m >> 1:
                    c -= m
                L = self.bit(y) if y.w == 1 else f(y)
                V = self.unreduced(L, w)
                if V is not None and V.hi - V.lo < L.hi - L.lo:
                    L = V           # congruent modulo 2^w, and smaller
                items.append((c, L))
            k = a[0] if a[0] <= m >> 1 else a[0] - m
            return self.modw(self.comb(k, items), w)
        if op == "mul":
            p, q = f(a[0]), f(a[1])
            if not p.d or not q.d:
                if p.d:
                    p, q = q, p
                return self.modw(self.comb(0, [(p.k, q)]), w)
            key = ("mul", *sorted([self.lkey(p), self.lkey(q)]))
            A = self.atom(key, p.lo * q.lo, p.hi * q.hi)
            return self.modw(A, w)
        if op == "sext":
            y = a[0]
            L = f(y) if y.w > 1 else self.bit(y)
            if y.w > 1:
                return self.modw(self.signed(y), w)
            return self.comb(0, [((1 << w) - 1, L)])
        if op == "not":
            return self.comb((1 << w) - 1, [(-1, f(a[0]))])
        if op == "ite":
            p, q = f(a[1]), f(a[2])
            c = self.bit(a[0])
            if not p.d and not q.d:
                return self.comb(q.k, [(p.k - q.k, c)])

            def zdef(v):
                return v == z3.If(self.z(c) == 1, self.z(p), self.z(q))
            return self.atom(("ite", x), min(p.lo, q.lo), max(p.hi, q.hi), zdef)
        if op == "shl" and a[1].op == "const":
            return self.modw(self.comb(0, [(1 << a[1].args[0], f(a[0]))]), w)
        if op == "lshr" and a[1].op == "const":
            return self.floor(f(a[0]), a[1].args[0])
        if op == "or":
            return self.or_(x)
        return self.atom(("opaque", x), x.lo, x.hi)

    def or_(self, x):
        return self.atom(("opaque", x), x.lo, x.hi)

    def lkey(self, L):
        return (L.k, tuple(sorted(L.d.items())))

    def modular(self, D, p):
        """D = 0 (mod p) as an equation over small numbers: returns (E, exact); D = u*E (mod p), u a unit,
        and exact says |E| < p, so that D = 0 (mod p) iff E = 0"""
        d = {a: c % p for a, c in D.d.items()}
        k = D.k % p
        best = None
        for a, c in list(d.items()) + [(None, 1)]:
            if c % p == 0:
                continue
            inv = pow(c, -1, p)
            bal = lambda x: (x * inv % p + p // 2) % p - p // 2
            e = {b: bal(x) for b, x in d.items() if x}
            E = self.mk(bal(k), e)
            if best is None or E.hi - E.lo < best.hi - best.lo:
                best = E
        return best, -p < best.lo and best.hi < p

    def describe(self, D):
        ks = list(self.keys)
        r = []
        for a, c in D.d.items():
            if ks[a][0] != "mul":
                r.append("%x*[%d %s %s]" % (c, a, str(ks[a])[:60], self.rng[a]))
        return " + ".join(r)

    # -- solving
    def check(self, extra, timeout=30, facts=True):
        """extra: function returning z3 constraints. Asserts the definitions of every atom in the cone."""
        self.used = {}
        self.bmemo = {}
        cons = list(extra())
        done = set()
        while True:
            new = [a for a in self.used if a not in done]
            if not new:
                break
            for a in new:
                done.add(a)
                lo, hi = self.rng[a]
                v = self.atoms[a]
                cons.append(z3.And(v >= lo, v <= hi))
                if self.defs[a] is not None:
                    cons.append(self.defs[a](v))
        if facts:
            for f in self.facts:
                k, d = self.expand(f)
                if all(a in done for a in d):
                    z = self.z(f)
                    cons.append(z3.And(z >= f.lo, z <= f.hi))
        self.natoms, self.ncons = len(done), len(cons)
        t0 = time.time()
        r, self.values = _forked(cons, self.atoms, timeout)
        secs = time.time() - t0
        STATS["queries"] += 1
        STATS["solver_s"] += secs
        STATS[r] += 1
        self.secs = secs
        return r


def _forked(cons, atoms, timeout):
    """z3 in a child process, so that the time limit is firm"""
    import os, pickle, select, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            s = z3.Solver()
            s.set("timeout", int(timeout * 1000))
            for c in cons:
                s.add(c)
            res = str(s.check())
            vals = None
            if res == "sat":
                m = s.model()
                vals = [m.eval(a, model_completion=True).as_long() for a in atoms]
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((res, vals)))
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + timeout + 2
    while True:
        left = end - time.time()
        rd = select.select([r], [], [], max(0, left))[0] if left > 0 else []
        if not rd:
            os.kill(pid, signal.SIGKILL)
            break
        x = os.read(r, 1 << 16)
        if not x:
            break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:       # noqa
        return "unknown", None
