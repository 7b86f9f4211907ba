"""Arithmetic modulo the group order N: a conditional subtraction of N (after an addition, doubling or plain value) is
recognised by the solver as a reduction; its result becomes a fresh value in [0, N-1] with a linear form over earlier values,
whose coefficients are integer terms (so that a bitwise multiplication loop yields x*y for an unknown y)."""
import random
from . import term as t, solver
from .solver import Q
from .ops import N, P, M256
from .contracts import _rd, _jrd, _jwr
from .fieldabs import pv, pc_, padd, pmul

c = t.const
W = 272
t.UF_EVAL["nrecip"] = lambda a: pow(a[0], -1, N) if a[0] % N else 0


def nrecip(x):
    return t.uf("nrecip", 256, (x,), 0, N - 1)


def nmod(p):
    return {m: k % N for m, k in p.items() if k % N}


class ModN:
    def __init__(self):
        self.form = {}        # value -> {atom: (coefficient term, upper bound)}
        self.defs = []        # created values, oldest first
        self.cache = {}
        self.local = {}       # canonical reduction -> candidate
        self.polys = {}
        self.secs = 0.0
        self.queries = 0
        self.missed = []

    # ---- recognition

    def formable(self, x):
        if x.w != 256:
            return False
        if x.op in ("var", "uf") or (x.op == "const" and x.args[0] == 0):
            return True
        if x.op == "ite" and x.hi < N:
            return self.formable(x.args[1]) and self.formable(x.args[2])
        return False

    def leaves(self, R):
        whole, order, seen = set(), [], set()
        stack = [R]
        while stack:
            x = stack.pop()
            if x in seen or x.op == "const":
                continue
            seen.add(x)
            if self.formable(x):
                if x not in whole:
                    whole.add(x)
                    order.append(x)
                continue
            if x.op == "extract" and x.w < 100 and self.formable(x.args[0]):
                continue
            stack += list(t.kids(x))
        order.sort(key=lambda x: -x.hi if x.hi >= N else 0)
        return order

    def reduce(self, R):
        ls = self.leaves(R)
        if not 1 <= len(ls) <= 2:
            return None
        L = [t.var("L%d" % i, 256, 0, N - 1 if x.hi < N else M256) for i, x in enumerate(ls)]
        can = t.substitute([R], dict(zip(ls, L)))[0]
        lset = set(L)
        dep = {}
        for x in t.postorder([can]):
            dep[x] = x in lset or any(dep[k] for k in t.kids(x))
        bools, seen, stack = [], set(), [can]
        while stack:
            x = stack.pop()
            if x in seen or x.op == "const":
                continue
            seen.add(x)
            if not dep[x]:
                if x.w != 1:
                    return None
                if x not in bools:
                    bools.append(x)
                continue
            stack += list(t.kids(x))
        neg = False
        if len(bools) == 2 and (bools[0] is t.bnot(bools[1])):
            bools = bools[:1]
        if len(bools) > 1:
            return None
        B = t.var("B0", 1)
        if bools:
            can = t.substitute([can], {bools[0]: B})[0]
        if can in self.local:
            cand = self.local[can]
        else:
            cand = self.local[can] = self.candidate(can, L, B if bools else None)
        if cand is None:
            self.missed.append(R)
            return None
        k, on, off = cand
        cond = bools[0] if bools else None
        lin = lambda co: self.combine(co, ls)
        f = lin(on) if cond is None else self.joinf(cond, lin(on), lin(off))
        return self.value(f)

    def candidate(self, can, L, B):
        rnd = random.Random(7)
        n = len(L)
        sp = [0, 1, 2, N - 1, N - 2, N // 2, N // 2 + 1, M256, N, N + 1, M256 - N]
        pts = []
        for i in range(40):
            e = {}
            for x in L:
                v = rnd.choice(sp) if rnd.random() < .5 else rnd.getrandbits(256)
                e[x.args[0]] = v % N if x.hi < N else v
            e["B0"] = rnd.randrange(2)
            pts.append((e, t.evaluate([can], e)[0]))
        one = [(1,), (2,), (0,)] if n == 1 else [(1, 1), (1, -1), (-1, 1), (1, 0), (0, 1), (2, 0), (0, 2)]

        def fits(co, sel):
            return all(sum(k * e[x.args[0]] for k, x in zip(co, L)) % N == r for e, r in pts if sel is None or e["B0"] == sel)
        if B is None:
            cs = [(co, None) for co in one if fits(co, None)]
        else:
            cs = [(a, b) for a in one if fits(a, 1) for b in one if fits(b, 0)]
        for on, off in cs[:2]:
            want = self.modterm(on, L)
            if B is not None:
                want = t.ite(B, want, self.modterm(off, L))
            q = Q("reduction modulo the order", [t.ne(can, want)], 60)
            solver.solve_many([q], jobs=1)
            self.queries += 1
            self.secs += q.secs
            if q.result == "unsat":
                return (0, on, off)
        return None

    def modterm(self, co, L):
        """the sum of coefficient * value modulo N, written with comparisons"""
        w = 260
        s = c(0, w)
        for k, x in zip(co, L):
            if k > 0:
                s = t.add(s, t.mul(t.zext(x, w), c(k, w)))
        for k, x in zip(co, L):
            if k < 0:
                s = t.add(s, t.sub(c(2 * N, w), t.zext(x, w)))
        for m in (4, 2, 1):
            s = t.ite(t.ult(s, c(m * N, w)), s, t.sub(s, c(m * N, w)))
        return t.trunc(s, 256)

    # ---- forms

    def complete(self, x):
        f = self.form.get(x)
        if f is None or len(f) >= 2:
            return True
        if len(f) == 1:
            co = next(iter(f.values()))[0]
            co = strip(co)
            return co.op in ("var", "uf") and co.w > 1
        return False

    def formof(self, x):
        if x.op == "const":
            return {}
        if x.op == "ite":
            return self.joinf(x.args[0], self.formof(x.args[1]), self.formof(x.args[2]))
        if self.complete(x):
            return {x: (c(1, W), 1)}
        return self.form[x]

    def combine(self, co, ls):
        r = {}
        for k, x in zip(co, ls):
            if not k:
                continue
            for a, (ct, ub) in self.formof(x).items():
                kk = k % N
                n = (mulc(ct, kk), ub * kk)
                if a in r:
                    n = (addc(r[a], n), r[a][1] + n[1])
                if n[1] >> W:
                    n = (t.uf("big", W, (n[0],)), (1 << W) - 1)
                r[a] = n
        return r

    def joinf(self, cond, f, g):
        r = {}
        z = (c(0, W), 0)
        for a in list(f) + [x for x in g if x not in f]:
            x, y = f.get(a, z), g.get(a, z)
            r[a] = (choose(cond, x[0], y[0]), max(x[1], y[1]))
        return r

    def value(self, f):
        f = {a: x for a, x in f.items() if x[0] is not c(0, W)}
        if not f:
            return c(0, 256)
        if len(f) == 1:
            a, (k, u) = next(iter(f.items()))
            if k is c(1, W) and a.hi < N:
                return a
        key = tuple(sorted(((id(a), id(x[0])) for a, x in f.items())))
        v = self.cache.get(key)
        if v is None:
            v = self.cache[key] = t.var("mod%d" % len(self.defs), 256, 0, N - 1)
            self.form[v] = f
            self.defs.append(v)
        return v

    # ---- polynomials modulo N

    def poly(self, x):
        """the polynomial modulo N that a 256-bit value stands for"""
        if x.op == "const":
            return nmod(pc_(x.args[0]))
        p = self.polys.get(x)
        if p is None:
            f = self.form.get(x)
            if f is None:
                p = pv("#%d" % self.number(x))
            else:
                p = {}
                for a, (k, _) in f.items():
                    p = padd(p, pmul(self.poly(a), self.cpoly(k)))
                p = nmod(p)
            self.polys[x] = p
        return p

    def number(self, x):
        return self.cache.setdefault(("n", x), len(self.cache))

    def cpoly(self, k):
        if k.op == "const":
            return pc_(k.args[0])
        y = strip(k)
        if y.w == 256:
            return self.poly(y)
        return pv("#%d" % self.number(k))

    def equal_values(self):
        """facts: created values that stand for the same number modulo N are the same"""
        by = {}
        for v in self.defs:
            by.setdefault(tuple(sorted(self.poly(v).items())), []).append(v)
        r = []
        for vs in by.values():
            r += [t.eq(vs[0], x) for x in vs[1:]]
            p = self.poly(vs[0])
            if len(p) == 1 and list(p.values()) == [1]:
                (m,) = p
                for a, k in list(self.cache.items()):
                    if isinstance(a, tuple) and a[0] == "n" and m == (("#%d" % k, 1),) and a[1].w == 256 and a[1].hi < N:
                        r.append(t.eq(vs[0], a[1]))
        return r

    def find(self, p):
        """the created values equal to polynomial p modulo N"""
        p = nmod(p)
        return [v for v in self.defs if self.poly(v) == p]


def strip(k):
    """the part below leading zeros"""
    while True:
        if k.op == "concat" and k.args[-1].op == "const" and k.args[-1].args[0] == 0:
            k = t.concat_lsb(k.args[:-1])
            continue
        return k


def mulc(x, k):
    if k and k & (k - 1) == 0:
        return t.shl(x, c(k.bit_length() - 1, W))
    return t.mul(x, c(k, W))


def addc(a, b):
    """sum, as a concatenation where the operands occupy different bits"""
    for x, y in ((a, b), (b, a)):
        if y[1] and tz(x[0]) >= y[1].bit_length():
            n = tz(x[0])
            return x[0] if n >= W else t.concat_lsb([t.extract(y[0], n - 1, 0), t.extract(x[0], W - 1, n)])
    return t.add(a[0], b[0])


def tz(x):
    """number of known trailing zero bits"""
    if x.op == "const":
        return x.w if not x.args[0] else (x.args[0] & -x.args[0]).bit_length() - 1
    if x.op == "concat" and x.args[0].op == "const":
        z = tz(x.args[0])
        return z if z < x.args[0].w else z + tz(t.concat_lsb(x.args[1:]))
    return 0


def cuts(x):
    if x.op == "concat":
        r, k = set(), 0
        for p in x.args:
            r |= {k + z for z in cuts(p)}
            k += p.w
        return r
    if x.op == "const":
        return {0} | {i for i in range(1, x.w) if (x.args[0] >> i & 1) != (x.args[0] >> (i - 1) & 1)}
    return {0}


def choose(cond, x, y):
    """cond ? x : y, piece by piece"""
    cs = sorted(cuts(x) | cuts(y)) + [W]
    out = []
    for l, h in zip(cs, cs[1:]):
        a, b = t.extract(x, h - 1, l), t.extract(y, h - 1, l)
        if a is b:
            out.append(a)
        elif a.op == "const" and b.op == "const":
            for i in range(h - l):
                p, q = a.args[0] >> i & 1, b.args[0] >> i & 1
                out.append(c(p, 1) if p == q else cond if p else t.bnot(cond))
        else:
            out.append(t.ite(cond, a, b))
    return t.concat_lsb(out)


def cpp_modn(M, mn):
    S = M.stubs
    base = S["Uint256::subtract(Uint256 const&, unsigned int)"]

    def sub(M, st, a):
        y = _rd(M, st, a[1])
        x = _rd(M, st, a[0])
        r = base(M, st, a)
        if r is NotImplemented or y is None or y.op != "const" or y.args[0] != N or x.op == "const":
            return r
        R = _rd(M, st, a[0])
        if R is not x:
            v = mn.reduce(R)
            if v is not None:
                M.write_term(st, a[0], v)
        return r
    S["Uint256::subtract(Uint256 const&, unsigned int)"] = sub

    def recip(M, st, a):
        x, m = _rd(M, st, a[0]), _rd(M, st, a[1])
        if x is None or m is None or m.op != "const" or m.args[0] != N:
            return NotImplemented
        M.oblige(st, t.ult(x, c(N, 256)), "precondition", "reciprocal: value below the modulus")
        M.write_term(st, a[0], nrecip(x))
        return None
    S["Uint256::reciprocal(Uint256 const&)"] = recip


def java_modn(M, mn):
    S = M.stubs
    k = "Int256Math.uintSubtract([IIIII)I"
    base = S[k]

    def sub(M, st, a):
        x, y = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[0], a[2])
        r = base(M, st, a)
        if r is NotImplemented or y is None or y.op != "const" or y.args[0] != N or x.op == "const":
            return r
        R = _jrd(M, st, a[0], a[4])
        if R is not x:
            v = mn.reduce(R)
            if v is not None:
                _jwr(M, st, a[0], a[4], v)
        return r
    S[k] = sub
    rk = "Int256Math.reciprocal([IIIII)V"
    old = S.get(rk)

    def recip(M, st, a):
        if all(o.op == "const" for o in a[1:]):
            xo, mo, zo, to = [t.cval(x) for x in a[1:]]
            x, m = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[0], a[2])
            if x is not None and m is not None and m.op == "const" and m.args[0] == N and not any(to <= u < to + 48 for u in (xo, mo, zo)):
                M.oblige(st, t.ult(x, c(N, 256)), "precondition", "reciprocal: value below the modulus")
                o = st.wobj(a[0].oid)
                if to + 48 > len(o.cells):
                    M.oblige(st, t.FALSE, "precondition", "temporary space")
                else:
                    o.cells[to:to + 48] = [t.fresh("tmp", 32) for _ in range(48)]
                _jwr(M, st, a[0], a[3], nrecip(x))
                return [(st, None)]
        return old(M, st, a) if old else NotImplemented
    S[rk] = recip
