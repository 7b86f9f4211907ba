"""Field values as elements of a ring: the field operations become uninterpreted functions on 256-bit terms in
[0, p-1] (their meaning is decided by the F01 and U04 units), comparisons of field values become polynomial atoms that are
settled case by case, and the remaining polynomial identities over GF(p) go to the solver as integer identities."""
import time
from . import term as t, solver
from .contracts import _plain, _rd, _jrd, _jwr
from .engine import Unsupported
from .ops import P

c = t.const
t.UF_EVAL["fadd"] = lambda a: (a[0] + a[1]) % P
t.UF_EVAL["fsub"] = lambda a: (a[0] - a[1]) % P
t.UF_EVAL["fmul"] = lambda a: a[0] * a[1] % P
t.UF_EVAL["frecip"] = lambda a: pow(a[0], P - 2, P)


def _f(name, *xs):
    if all(x.op == "const" for x in xs):
        return c(t.UF_EVAL[name]([x.args[0] for x in xs]), 256)
    return t.uf(name, 256, xs, 0, P - 1)


def _order(x, y):
    return (x, y) if (x.op == "const", id(x)) <= (y.op == "const", id(y)) else (y, x)


def fadd(x, y):
    return _f("fadd", *_order(x, y))


def fsub(x, y):
    return _f("fsub", x, y)


def fmul(x, y):
    return _f("fmul", *_order(x, y))


def frecip(x):
    return _f("frecip", x)


def _need(M, st, where, *xs):
    for x in xs:
        M.oblige(st, t.ult(x, c(P, 256)), "precondition", where + ": reduced operand")


def cpp_field(M):
    S = M.stubs

    def two(f, nm, alias):
        def h(M, st, a):
            x, y = _rd(M, st, a[0]), _rd(M, st, a[1])
            if x is None or y is None:
                return NotImplemented
            if not alias and a[0].oid == a[1].oid and a[0].off is a[1].off:
                M.oblige(st, t.FALSE, "precondition", nm + ": distinct operands")
            _need(M, st, nm, x, y)
            M.write_term(st, a[0], f(x, y))
            return None
        return h

    def one(f, nm):
        def h(M, st, a):
            x = _rd(M, st, a[0])
            if x is None:
                return NotImplemented
            _need(M, st, nm, x)
            M.write_term(st, a[0], f(x))
            return None
        return h
    F = "FieldInt::"
    S[F + "add(FieldInt const&)"] = two(fadd, F + "add", False)
    S[F + "subtract(FieldInt const&)"] = two(fsub, F + "subtract", False)
    S[F + "multiply(FieldInt const&)"] = two(fmul, F + "multiply", True)
    S[F + "multiply2()"] = one(lambda x: fadd(x, x), F + "multiply2")
    S[F + "square()"] = one(lambda x: fmul(x, x), F + "square")
    S[F + "reciprocal()"] = one(frecip, F + "reciprocal")


def java_field(M):
    S = M.stubs
    I = "Int256Math."

    def clobber(M, st, arr, off, words):
        o = st.wobj(arr.oid)
        k = t.cval(off)
        if k + words > len(o.cells):
            M.oblige(st, t.FALSE, "precondition", "temporary space")
            return
        o.cells[k:k + words] = [t.fresh("tmp", 32) for _ in range(words)]

    def op(f, nm, nin, temp):
        def h(M, st, a):
            offs = a[1:]
            if any(o.op != "const" for o in offs):
                return NotImplemented
            o = st.mem.get(a[0].oid)
            if o is None or o.lazy:
                return NotImplemented
            xs = [_jrd(M, st, a[0], o) for o in offs[:nin]]
            z, tmp = offs[nin], offs[nin + 1]
            if any(x is None for x in xs) or _jrd(M, st, a[0], z) is None:
                return NotImplemented
            tk = t.cval(tmp)
            used = [t.cval(x) for x in offs[:nin]] + [t.cval(z)]
            if tk % 8 or any(tk <= u < tk + temp for u in used):
                return NotImplemented
            _need(M, st, nm, *xs)
            r = f(*xs)
            clobber(M, st, a[0], tmp, temp)
            _jwr(M, st, a[0], z, r)
            return [(st, None)]
        return h
    S[I + "fieldAdd([IIIII)V"] = op(fadd, "fieldAdd", 2, 8)
    S[I + "fieldSubtract([IIIII)V"] = op(fsub, "fieldSubtract", 2, 8)
    S[I + "fieldMultiply([IIIII)V"] = op(fmul, "fieldMultiply", 2, 40)
    S[I + "fieldSquare([IIII)V"] = op(lambda x: fmul(x, x), "fieldSquare", 1, 40)
    S[I + "fieldMultiply2([IIII)V"] = op(lambda x: fadd(x, x), "fieldMultiply2", 1, 8)

    def recip(M, st, a):
        if any(o.op != "const" for o in a[1:]):
            return NotImplemented
        xo, mo, zo, to = [t.cval(x) for x in a[1:]]
        x, m = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[0], a[2])
        if x is None or m is None or _jrd(M, st, a[0], a[3]) is None:
            return NotImplemented
        if m.op != "const" or m.args[0] != P or any(to <= u < to + 48 for u in (xo, mo, zo)):
            return NotImplemented
        _need(M, st, "reciprocal", x)
        clobber(M, st, a[0], a[4], 48)
        _jwr(M, st, a[0], a[3], frecip(x))
        return [(st, None)]
    S[I + "reciprocal([IIIII)V"] = recip


# ---------------------------------------------------------------- polynomials over Z: {monomial: coefficient}

def pc_(k):
    return {(): k} if k else {}


def pv(name):
    return {((name, 1),): 1}


def padd(a, b, s=1):
    r = dict(a)
    for m, k in b.items():
        v = r.get(m, 0) + s * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def psub(a, b):
    return padd(a, b, -1)


def mmul(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            x = mmul(m, n)
            v = r.get(x, 0) + k * l
            if v:
                r[x] = v
            else:
                r.pop(x, None)
    return r


def ppow(a, n):
    r = pc_(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


def mdiv(a, b):
    d = dict(a)
    for v, e in b:
        n = d.get(v, 0) - e
        if n < 0:
            return None
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def modp(a):
    r = {}
    for m, k in a.items():
        k %= P
        if k:
            r[m] = k if k <= P // 2 else k - P
    return r


def lead(a):
    return max(a, key=lambda m: (sum(e for _, e in m), m))


def pdiv(a, b):
    """exact quotient over GF(p) or None"""
    q = {}
    a = modp(a)
    b = modp(b)
    lb = lead(b)
    inv = pow(b[lb], -1, P)
    n = 0
    while a:
        la = lead(a)
        m = mdiv(la, lb)
        if m is None or n > 4000:
            return None
        k = a[la] * inv % P
        q[m] = k
        a = modp(psub(a, {mmul(m, mm): k * kk for mm, kk in b.items()}))
        n += 1
    return q


class Undecided(Exception):
    pass


class Case:
    """inputs: term -> polynomial; nonzero: polynomials known to be non-zero modulo p; rules: monomial -> polynomial"""

    def __init__(self, name, inputs, nonzero=(), rules=(), subs=None):
        self.name, self.inputs, self.nonzero, self.rules = name, dict(inputs), [modp(x) for x in nonzero], list(rules)
        self.memo = {}
        self.known = {}
        self.ids = []
        self.path = []
        self.dead = False
        self.subs = []
        self.recips = {}

    def split(self, atom, val, note, extra_nonzero=(), subst=None):
        r = Case(self.name, self.inputs, self.nonzero + list(extra_nonzero), self.rules)
        r.known = dict(self.known)
        r.known[atom] = t.boolc(val)
        r.ids = self.ids
        r.path = self.path + [(atom, val)]
        r.subs = list(self.subs)
        if subst:
            v, q = subst
            r.subs.append(subst)
            r.inputs = {k: psubst(x, v, q) for k, x in r.inputs.items()}
            r.nonzero = [psubst(x, v, q) for x in r.nonzero]
            r.dead = any(not modp(x) for x in r.nonzero)
            r.rules = []
            for m, x in self.rules:
                if any(u == v for u, _ in m):
                    continue
                r.rules.append((m, psubst(x, v, q)))
        return r

    def poly(self, x):
        got = self.memo.get(x)
        if got is not None:
            return got
        for y in t.postorder([x], set(self.memo)):
            self.memo[y] = self._poly(y)
        r = self.memo[x]
        if r is None:
            raise Undecided("not a field value: " + t.show(x))
        return r

    def _poly(self, y):
        if y in self.inputs:
            return self.inputs[y]
        if y.op == "const" and y.w == 256:
            return modp(pc_(y.args[0]))
        if y.op == "uf" and y.args[0] in ("fadd", "fsub", "fmul", "frecip"):
            k = [self.memo[a] for a in y.args[1:]]
            if any(a is None for a in k):
                return None
            if y.args[0] == "fadd":
                return padd(*k)
            if y.args[0] == "fsub":
                return psub(*k)
            if y.args[0] == "fmul":
                return self.small(pmul(*k))
            return self.recip(k[0])
        return None

    def subst(self, p):
        for v, q in self.subs:
            p = psubst(p, v, q)
        return p

    def recip(self, a):
        """1/a for a product of non-zero factors: a new unknown with the rule a * new = 1; 1/0 = 0"""
        m = modp(a)
        if not m:
            return {}
        if list(m) == [()]:
            return pc_(pow(m[()], -1, P))
        if self.factors(m) is None:
            return None
        key = tuple(sorted(m.items()))
        if key not in self.recips:
            name = "inv%d" % len(self.recips)
            l = lead(m)
            k = pow(m[l], -1, P)
            rest = {x: -kk for x, kk in m.items() if x != l}
            self.rules.append((mmul(l, ((name, 1),)), modp(pmul(pc_(k), padd(pc_(1), pmul(rest, pv(name)))))))
            self.nonzero.append(pv(name))
            self.recips[key] = name
        return pv(self.recips[key])

    def small(self, p):
        return p

    def reduce(self, p):
        """p modulo the rules; also the quotients (rule index -> polynomial)"""
        qs = {}
        p = dict(p)
        work = True
        while work:
            work = False
            for i, (m, r) in enumerate(self.rules):
                todo = [(x, mdiv(x, m)) for x in p]
                for x, d in todo:
                    if d is None:
                        continue
                    k = p.pop(x)
                    p = padd(p, pmul({d: k}, r))
                    qs[i] = padd(qs.get(i, {}), {d: k})
                    work = True
                if work:
                    break
        return p, qs

    def factors(self, p):
        """p = coefficient * product of non-zero polynomials modulo p, or None"""
        p = modp(p)
        fs = []
        if not p:
            return None
        for f in self.nonzero:
            while True:
                if len(p) == 1 and () in p:
                    break
                q = pdiv(p, f)
                if q is None:
                    break
                p = modp(q)
                fs.append(f)
        if list(p) == [()]:
            return p[()], fs
        return None

    def zero(self, p, lhs, what):
        """whether polynomial p is identically zero / a product of non-zero factors; records the identity. lhs: z3 builder"""
        for use in (False, True):
            q, qs = self.reduce(p) if use else (p, {})
            m = modp(q)
            if not m:
                self.ids.append((what, lhs, p, None, qs, self.rules))
                return True
            f = self.factors(m)
            if f is not None:
                rhs = pc_(f[0])
                for x in f[1]:
                    rhs = pmul(rhs, x)
                self.ids.append((what, lhs, p, f, qs, self.rules))
                return False
            if not self.rules:
                break
        return None


def psubst(p, v, q):
    r = {}
    for m, k in p.items():
        d = dict(m)
        e = d.pop(v, 0)
        r = padd(r, pmul({tuple(sorted(d.items())): k}, ppow(q, e)))
    return r


class Z:
    """integer expressions for the solver"""

    def __init__(self):
        import z3
        self.z3 = z3
        self.v = {}

    def var(self, n):
        if n not in self.v:
            self.v[n] = self.z3.Int(n)
        return self.v[n]

    def poly(self, p):
        z3 = self.z3
        s = [z3.IntVal(k) * z3.Product(*[self.var(v) for v, e in m for _ in range(e)]) if m else z3.IntVal(k) for m, k in p.items()]
        return z3.Sum(*s) if s else z3.IntVal(0)

    def term(self, case, x):
        """the integer expression denoted by a field term with the inputs of the case put in"""
        memo = {}
        for y in t.postorder([x]):
            if y in case.inputs:
                memo[y] = self.poly(case.inputs[y])
            elif y.op == "const" and y.w == 256:
                k = y.args[0]
                memo[y] = self.z3.IntVal(k if k <= P // 2 else k - P)
            elif y.op == "uf":
                k = [memo.get(a) for a in y.args[1:]]
                if any(a is None for a in k):
                    memo[y] = None
                elif y.args[0] == "fadd":
                    memo[y] = k[0] + k[1]
                elif y.args[0] == "fsub":
                    memo[y] = k[0] - k[1]
                elif y.args[0] == "fmul":
                    memo[y] = k[0] * k[1]
                elif y.args[0] == "frecip":
                    memo[y] = self.poly(case.poly(y))
        return memo[x]


def prove_ids(case, timeout=20):
    """every recorded identity: lhs = product of non-zero factors + p*k + multiples of the curve relations, by the solver"""
    import z3
    Zz = Z()
    seen = set()
    n, secs = 0, 0.0
    for what, lhs, p, fac, qs, rules in case.ids:
        e = lhs(Zz)
        rhs = {}
        if fac:
            rhs = pc_(fac[0])
            for f in fac[1]:
                rhs = pmul(rhs, f)
        rel = []
        tot = rhs
        for i, q in qs.items():
            m, r = rules[i]
            d = psub({m: 1}, r)
            rel.append(Zz.poly(q) * Zz.poly(d))
            tot = padd(tot, pmul(q, d))
        rest = psub(p, tot)
        if any(k % P for k in rest.values()):
            return "sat", what, secs, n
        K = {m: k // P for m, k in rest.items()}
        right = Zz.poly(pc_(fac[0]) if fac else {})
        if fac:
            for f in fac[1]:
                right = right * Zz.poly(f)
        goal = e != right + sum(rel, z3.IntVal(0)) + z3.IntVal(P) * Zz.poly(K)
        key = goal.sexpr() if n < 400 else None
        if key in seen:
            continue
        seen.add(key)
        s = z3.Then(z3.With("simplify", som=True, som_blowup=100000), "smt").solver()
        s.set("timeout", timeout * 1000)
        s.add(goal)
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        secs += dt
        n += 1
        solver.STATS["queries"] = solver.STATS.get("queries", 0) + 1
        solver.STATS["seconds"] = solver.STATS.get("seconds", 0) + dt
        if r != z3.unsat:
            return str(r), what, secs, n
    return "unsat", "", secs, n


def is_field(x):
    return x.w == 256 and (x.op in ("var", "const") or (x.op == "uf" and x.args[0] in t.UF_EVAL))


def pure(x, inputs):
    for y in t.postorder([x]):
        if y in inputs or y.op == "const" or (y.op == "uf" and y.args[0] in ("fadd", "fsub", "fmul", "frecip")):
            continue
        return False
    return True


def atoms_of(xs):
    """Boolean nodes that are not connectives"""
    r = []
    for y in t.postorder(xs):
        if y.w == 1 and y.op in ("eq", "ult", "slt", "extract", "var", "uf"):
            r.append(y)
    return r


def resolve(case, xs, budget=40):
    """yields (case, simplified terms) with every comparison of field values decided"""
    todo = [case]
    done = []
    while todo:
        cs = todo.pop()
        if cs.dead:
            continue
        if len(done) + len(todo) > budget:
            raise Undecided("too many cases")
        cur = t.substitute(xs, cs.known)
        while True:
            ats = [a for a in atoms_of(cur) if a not in cs.known]
            prog = False
            und = []
            for a in ats:
                if a.op == "eq" and a.args[0].w == 256 and pure(a.args[0], cs.inputs) and pure(a.args[1], cs.inputs):
                    x, y = a.args
                    p = psub(cs.poly(x), cs.poly(y))
                    r = cs.zero(p, lambda Zz, x=x, y=y, cs=cs: Zz.term(cs, x) - Zz.term(cs, y), "comparison")
                    if r is not None:
                        cs.known[a] = t.boolc(r)
                        prog = True
                    else:
                        und.append((a, p))
                elif a.op == "eq" and a.args[0].w == 256 and (is_field(a.args[0]) or is_field(a.args[1])):
                    pass     # contains undecided choices
                else:
                    und.append((a, None))
            if prog:
                cur = t.substitute(xs, cs.known)
                continue
            break
        if not und:
            done.append((cs, cur))
            continue
        # innermost undecided atom
        a, p = und[0]
        if p is None:
            todo += [cs.split(a, True, "bit"), cs.split(a, False, "bit")]
            continue
        sub = None
        m = modp(p)
        for f in cs.nonzero:     # strip non-zero factors
            while True:
                q = pdiv(m, f)
                if q is None or not q:
                    break
                m = modp(q)
        for mono, k in m.items():
            if len(mono) == 1 and mono[0][1] == 1 and not any(mono[0][0] in dict(x) for x in m if x != mono):
                inv = pow(k, -1, P)
                v = mono[0][0]
                sub = (v, modp({x: -kk * inv for x, kk in m.items() if x != mono}))
                break
        todo.append(cs.split(a, False, "differ", extra_nonzero=[m]))
        todo.append(cs.split(a, True, "equal", subst=sub))
    return done


# ---------------------------------------------------------------- curve points as opaque group elements

def _expose(x):
    """moves a choice to the outside of an extraction"""
    if x.op == "extract" and x.args[0].op == "ite":
        b, l = x.args[0], x.args[1]
        return t._mk("ite", x.w, (b.args[0], t.extract(b.args[1], l + x.w - 1, l), t.extract(b.args[2], l + x.w - 1, l)))
    return x


class Points:
    """Point operations become fresh triples of field values; `tokens[k]` tells what the k-th triple stands for."""

    def __init__(self):
        self.tokens = []
        self.index = {}
        self.cache = {}

    def new(self, kind, *args):
        key = (kind,) + args
        k = self.cache.get(key)
        if k is None:
            k = self.cache[key] = len(self.tokens)
            tr = tuple(t.var("pt%d.%s" % (k, a), 256, 0, P - 1) for a in "xyz")
            self.tokens.append((kind, args, tr))
            for i, x in enumerate(tr):
                self.index[x] = (k, i)
        return self.tokens[k][2]

    def walk(self, tr, leaf, join, memo=None):
        """folds a triple of terms, which must be the same choice between point triples in all coordinates"""
        memo = {} if memo is None else memo
        stack = [tr]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            y = tuple(_expose(z) for z in x)
            if y != x:
                if y in memo:
                    memo[x] = memo[y]
                else:
                    stack.append(y)
                continue
            cond = next((y.args[0] for y in x if y.op == "ite"), None)
            if cond is None:
                memo[x] = leaf(self.leaf(x))
                stack.pop()
                continue
            a = tuple(y.args[1] if y.op == "ite" and y.args[0] is cond else y for y in x)
            b = tuple(y.args[2] if y.op == "ite" and y.args[0] is cond else y for y in x)
            if a in memo and b in memo:
                memo[x] = join(cond, memo[a], memo[b])
                stack.pop()
            else:
                stack += [y for y in (a, b) if y not in memo]
        return memo[tr]

    def leaf(self, x):
        k = [self.index.get(y) for y in x]
        if None not in k and len({a for a, _ in k}) == 1 and [i for _, i in k] == [0, 1, 2]:
            return ("tok", k[0][0])
        if all(y.op == "const" for y in x):
            return ("const", tuple(y.args[0] for y in x))
        raise Undecided("not a point: " + " / ".join(t.show(y, 2) for y in x))


def _rp(M, st, p):
    if not _plain(p):
        return None
    v = M.read_term(st, p, 96)
    return None if v is None else tuple(t.extract(v, 256 * i + 255, 256 * i) for i in range(3))


def _wp(M, st, p, tr):
    M.write_term(st, p, t.concat_lsb(list(tr)))


def cpp_points(M, pts, multiply=False, preds=False):
    S = M.stubs
    C = "CurvePoint::"

    def chk(M, st, tr, where):
        _need(M, st, where, *tr)

    def add(M, st, a):
        x, y = _rp(M, st, a[0]), _rp(M, st, a[1])
        if x is None or y is None:
            return NotImplemented
        chk(M, st, x + y, C + "add")
        _wp(M, st, a[0], pts.new("add", x, y))
        return None

    def twice(M, st, a):
        x = _rp(M, st, a[0])
        if x is None:
            return NotImplemented
        chk(M, st, x, C + "twice")
        _wp(M, st, a[0], pts.new("add", x, x))
        return None

    def repl(M, st, a):
        x, y = _rp(M, st, a[0]), _rp(M, st, a[1])
        if x is None or y is None:
            return NotImplemented
        M.oblige(st, t.ult(a[2], c(2, a[2].w)), "precondition", C + "replace: enable is 0 or 1")
        e = t.eq(t.extract(a[2], 0, 0), t.TRUE)
        _wp(M, st, a[0], [t.ite(e, q, p) for p, q in zip(x, y)])
        return None
    S[C + "add(CurvePoint const&)"] = add
    S[C + "twice()"] = twice
    S[C + "replace(CurvePoint const&, unsigned int)"] = repl
    if not multiply:
        return

    def mul(M, st, a):
        x, n = _rp(M, st, a[0]), _rd(M, st, a[1])
        if x is None or n is None:
            return NotImplemented
        chk(M, st, x, C + "multiply")
        _wp(M, st, a[0], pts.new("mul", x, n))
        return None

    def norm(M, st, a):
        x = _rp(M, st, a[0])
        if x is None:
            return NotImplemented
        chk(M, st, x, C + "normalize")
        _wp(M, st, a[0], pts.new("norm", x))
        return None
    S[C + "multiply(Uint256 const&)"] = mul
    S[C + "normalize()"] = norm
    if not preds:
        return

    def pred(f):
        def h(M, st, a):
            x = _rp(M, st, a[0])
            return NotImplemented if x is None else f(x)
        return h
    S[C + "isZero() const"] = pred(is_zero)
    S[C + "isOnCurve() const"] = pred(lambda x: t.uf("oncurve", 1, x))


def is_zero(x):
    z = c(0, 256)
    return t.band(t.eq(x[0], z), t.ne(x[1], z), t.eq(x[2], z))


def _jrp(M, st, arr, off):
    k = [_jrd(M, st, arr, t.add(off, c(8 * i, 32))) for i in range(3)] if off.op == "const" else [None]
    return None if any(x is None for x in k) else tuple(k)


def _jwp(M, st, arr, off, tr):
    for i in range(3):
        _jwr(M, st, arr, t.add(off, c(8 * i, 32)), tr[i])


def java_points(M, pts, multiply=False, preds=False):
    S = M.stubs
    C = "CurvePointMath."

    def clob(M, st, arr, off, words, used):
        o = st.wobj(arr.oid)
        k = t.cval(off)
        if k % 8 or any(k <= u < k + words for u in used) or any(u < k < u + 24 for u in used):
            return False
        if k + words > len(o.cells):
            M.oblige(st, t.FALSE, "precondition", "temporary space")
            return True
        o.cells[k:k + words] = [t.fresh("tmp", 32) for _ in range(words)]
        return True

    def op(nm, npt, temp, f, scalar=False):
        def h(M, st, a):
            if any(o.op != "const" for o in a[1:]):
                return NotImplemented
            o = st.mem.get(a[0].oid)
            if o is None or o.lazy:
                return NotImplemented
            xs = [_jrp(M, st, a[0], o) for o in a[1:1 + npt]]
            if any(x is None for x in xs):
                return NotImplemented
            for x in xs:
                _need(M, st, nm, *x)
            args = list(xs)
            if scalar:
                n = _jrd(M, st, a[0], a[2])
                if n is None:
                    return NotImplemented
                args.append(n)
            used = [t.cval(x) for x in a[1:-1]]
            r = f(*args)
            if not clob(M, st, a[0], a[-1], temp, used):
                return NotImplemented
            _jwp(M, st, a[0], a[1], r)
            return [(st, None)]
        return h

    def repl(M, st, a):
        x, y = _jrp(M, st, a[0], a[1]), _jrp(M, st, a[0], a[2])
        if x is None or y is None or abs(t.cval(a[1]) - t.cval(a[2])) in range(1, 24):
            return NotImplemented
        _need(M, st, "replace", *(x + y))
        M.oblige(st, t.ult(a[3], c(2, 32)), "precondition", "replace: enable is 0 or 1")
        e = t.eq(t.extract(a[3], 0, 0), t.TRUE)
        _jwp(M, st, a[0], a[1], [t.ite(e, q, p) for p, q in zip(x, y)])
        return [(st, None)]
    S[C + "add([IIII)V"] = op("add", 2, 112, lambda x, y: pts.new("add", x, y))
    S[C + "twice([III)V"] = op("twice", 1, 64, lambda x: pts.new("add", x, x))
    S[C + "replace([IIII)V"] = repl
    if not multiply:
        return
    S[C + "multiply([IIII)V"] = op("multiply", 1, 520, lambda x, n: pts.new("mul", x, n), scalar=True)
    S[C + "normalize([III)V"] = op("normalize", 1, 72, lambda x: pts.new("norm", x))
    if not preds:
        return

    def iszero(M, st, a):
        x = _jrp(M, st, a[0], a[1])
        if x is None:
            return NotImplemented
        _need(M, st, "isZero", *x)
        return t.zext(is_zero(x), 32)

    def onc(M, st, a):
        x = _jrp(M, st, a[0], a[1])
        if x is None or a[2].op != "const":
            return NotImplemented
        _need(M, st, "isOnCurve", *x)
        if not clob(M, st, a[0], a[2], 56, [t.cval(a[1])]):
            return NotImplemented
        return t.zext(t.uf("oncurve", 1, x), 32)
    S[C + "isZero([II)I"] = iszero
    S[C + "isOnCurve([III)I"] = onc
