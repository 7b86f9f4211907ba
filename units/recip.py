"""Modular reciprocal: the loop is decided by induction. At every visit of the loop header the working values are replaced
by unknowns that satisfy the invariant; the roles of the working values are found by watching one concrete execution."""
import random, time
from math import gcd
from sv import term as t, solver, ints
from sv.engine import Unsupported, Ptr
from sv.frame import unit
from sv.ops import Op, Param, solve_obligations, P, N, M256
from sv.contracts import cpp_uint, java_uint
from sv.cppx import Cpp
from sv.javax import words_hex
from sv.jvm import Java, JExc
from sv.solver import Q
from sv.fieldabs import Undecided
from units.curve import needs

c = t.const
W = 262


def z_(x):
    return t.zext(x, W)


# ---------------------------------------------------------------- memory of 256-bit values
class CppMem:
    def __init__(self, M):
        self.M = M

    def slots(self, st):
        for oid, o in st.mem.items():
            if len(getattr(o, "cells", ())) == 32 and not getattr(o, "const", False):
                yield (oid, 0)

    def read(self, st, s):
        cl = st.mem[s[0]].cells
        if any(e is None for e in cl):
            return None
        return self.M.read_term(st, Ptr(s[0], c(0, 64)), 32)

    def write(self, st, s, x):
        self.M.write_term(st, Ptr(s[0], c(0, 64)), x)


class JavaMem:
    def __init__(self, M, arr):
        self.M, self.arr = M, arr

    def slots(self, st):
        for k in range(len(st.mem[self.arr.oid].cells) // 8):
            yield (self.arr.oid, k)

    def read(self, st, s):
        return t.concat_lsb(st.mem[s[0]].cells[8 * s[1]:8 * s[1] + 8])

    def write(self, st, s, x):
        st.wobj(s[0]).cells[8 * s[1]:8 * s[1] + 8] = self.M.words(st, x)


LAYOUTS = {"": (0, 8, 16, 24), "z=x": (0, 8, 0, 16)}


def start(ctx, lang, v, m, alias):
    """-> machine, memory, runner() giving [(state, result term, modulus term)]"""
    if lang != "java":
        cx = Cpp(ctx, "ir" if lang == "cpp" else "ir_asm")
        cpp_uint(cx.mach)
        st = cx.start()
        p, q = cx.obj(st, v, "v"), cx.obj(st, m, "m", const=True)
        return cx.mach, CppMem(cx.mach), lambda: [(s, cx.read(s, p, 32), cx.read(s, q, 32)) for s, _ in cx.call("h_u_recip", [p, q], st)]
    J = Java(ctx)
    java_uint(J.mach)
    M = J.mach
    st = J.start()
    xo, mo, zo, to = LAYOUTS[alias]
    cells = [t.var("w%d" % i, 32) for i in range(to + 48 + 8)]
    if all(x.op == "const" for x in (v, m)):
        cells = [c(0xFFFFFFFF, 32)] * len(cells)
    cells[zo:zo + 8] = [c(0, 32)] * 8
    cells[xo:xo + 8] = M.words(st, v)
    cells[mo:mo + 8] = M.words(st, m)
    guard = cells[-8:]
    arr = M.ints(st, cells)

    def go():
        out = []
        for s, rv in M.call("Int256Math", "reciprocal", [arr] + [c(x, 32) for x in (xo, mo, zo, to)], st):
            if isinstance(rv, JExc):
                M.oblige(s, t.FALSE, "exception " + rv.cls, "reciprocal")
                continue
            cl = s.mem[arr.oid].cells
            for a, b in zip(cl[-8:], guard):
                M.oblige(s, t.eq(a, b), "write outside", "reciprocal")
            if zo != xo:
                M.oblige(s, t.eq(t.concat_lsb(cl[xo:xo + 8]), v), "argument modified", "reciprocal")
            out.append((s, t.concat_lsb(cl[zo:zo + 8]), t.concat_lsb(cl[mo:mo + 8])))
        return out
    return M, JavaMem(M, arr), go


def roles(ctx, lang, alias):
    """watches a concrete execution: ((function, header), number of visits, slots of x, y, a, b)"""
    rnd = random.Random(11)
    best = None
    for trial in range(2):
        m = rnd.getrandbits(256) | 1 | 1 << 255
        v = rnd.getrandbits(254)
        while gcd(v, m) != 1:
            v += 1
        M, mem, go = start(ctx, lang, c(v, 256), c(m, 256), alias)
        log = {}

        def hook(fn, block, iters, regs, st):
            snap = {}
            for s in mem.slots(st):
                x = mem.read(st, s)
                if x is not None and x.op == "const":
                    snap[s] = x.args[0]
            log.setdefault((fn.name if hasattr(fn, "name") else fn.label, block), []).append(snap)
        M.on_header = hook
        r = go()
        if len(r) != 1 or r[0][1].op != "const":
            raise Undecided("concrete execution forks")
        cands = []
        for key, snaps in log.items():
            if len(snaps) < 200:
                continue
            slots = [s for s in snaps[0] if all(s in q for q in snaps) and len({q[s] for q in snaps}) > 50]
            ok = [(a, b) for a in slots for b in slots if a != b and all((q[a] - q[b] * v) % m == 0 for q in snaps)]
            xs = [p for p in ok if all(q[p[0]] & 1 for q in snaps) and snaps[-1][p[0]] == 1]
            ys = [p for p in ok if snaps[-1][p[0]] == 0]
            if len(xs) == 1 and len(ys) == 1:
                cands.append((key, len(snaps), xs[0][0], ys[0][0], xs[0][1], ys[0][1]))
        if not cands:
            raise Undecided("no loop with the invariant x = a*v, y = b*v was found")
        # slots as positions in the order of creation, stable between executions
        best = cands[0]
    return best


def transition(S, T, m, even):
    """relations: (x, y) and (a, b) are the same nonnegative combination of the next ones (the latter modulo m).
    Each: (equations, (difference that is a multiple of m, ...))"""
    x, y, a, b = map(z_, S)
    x2, y2, a2, b2 = map(z_, T)
    d = lambda u: t.mul(u, c(2, W))
    rel = [
        ([(x, x2), (y, d(y2))], [t.sub(a2, a), t.sub(d(b2), b)]),
        ([(x, x2), (y, d(t.add(x2, y2)))], [t.sub(a2, a), t.sub(d(t.add(a2, b2)), b)]),
        ([(x, t.add(x2, y2)), (y, d(x2))], [t.sub(t.add(a2, b2), a), t.sub(d(a2), b)]),
    ]
    if not even:
        rel += [
            ([(x, x2), (y, t.add(x2, y2))], [t.sub(a2, a), t.sub(t.add(a2, b2), b)]),
            ([(x, t.add(x2, y2)), (y, x2)], [t.sub(t.add(a2, b2), a), t.sub(a2, b)]),
        ]
    return rel


def step_queries(label, S, T, m, even):
    """The obligations of one iteration, one set per case: in a case every condition is decided, so that the next values are
    straight-line terms of the current ones; the relation which should hold there is read off a sample of the case."""
    rnd = random.Random(5)
    names = ["c.x", "c.y", "c.a", "c.b", "mh"]
    envs = []
    while len(envs) < 300:
        mm = rnd.getrandbits(256) | 1
        if envs and rnd.randrange(2):
            mm |= 0xFF << 248
        xx = rnd.randrange(mm + 1) | 1
        yy = rnd.randrange(mm) if rnd.randrange(3) else rnd.randrange(min(mm, 4 * xx))
        if even:
            yy &= -2
        aa, bb = rnd.randrange(mm), rnd.randrange(mm)
        if xx <= mm and yy < mm:
            envs.append({"c.x": xx >> 1, "c.y": yy >> 1 if even else yy, "c.a": aa, "c.b": bb, "mh": mm >> 1})
    queries = []

    def case(T, hyp, envs, depth):
        if depth > 14:
            raise Undecided("too many cases in one iteration")
        cond = None
        for n in t.postorder(T, set()):
            if n.op == "ite" and n.args[0].op != "const":
                q = n.args[0]
                while q.op in ("not", "and", "or", "xor", "concat") and q.w == 1:
                    q = next(k for k in t.kids(q) if k.op != "const")
                cond = q
                break
        if cond is not None:
            for val in (t.TRUE, t.FALSE):
                sub = t.substitute(T, {cond: val})
                sel = [e for e in envs if t.evaluate([cond], e)[0] == val.args[0]]
                case(sub, hyp + [cond if val is t.TRUE else t.bnot(cond)], sel, depth + 1)
            return
        nm = "%s: iteration, case %d" % (label, len(queries))
        if not envs:
            env = {}
            q = Q(nm + " (empty)", hyp, 60)
            r, _ = ints.decide(hyp, 30, env)
            for k in names:
                env.setdefault(k, 0)
            if r != "sat" or any(x != 1 for x in t.evaluate(hyp, env)):
                queries.append(q)
                return
            envs = [env]
        goals = ranges(T, m)[:4] + [t.eq(t.extract(T[0], 0, 0), t.TRUE), t.eq(t.extract(T[1], 0, 0), t.FALSE)]
        for eqs, mult in transition(S, T, m, even):
            g = [t.eq(u, v) for u, v in eqs]
            ks = []
            if not all(x == 1 for e in envs for x in t.evaluate(g, e)):
                continue
            for u in mult:
                fit = [k for k in range(-1, 4) if any(x == 1 for e in envs for x in t.evaluate([t.eq(u, t.mul(c(k % (1 << W), W), z_(m)))], e))]
                ks.append(fit)
            if all(all(any(t.evaluate([t.eq(u, t.mul(c(k % (1 << W), W), z_(m)))], e)[0] == 1 for k in f) for e in envs) for u, f in zip(mult, ks)):
                goals += g + [t.disj([t.eq(u, t.mul(c(k % (1 << W), W), z_(m))) for k in f]) for u, f in zip(mult, ks)]
                break
        else:
            raise Undecided("no relation between the working values before and after one iteration")
        for i, g in enumerate(goals):
            queries.append(Q("%s (%d)" % (nm, i), hyp + [t.bnot(g)], 60))
    case(T, ranges(S, m), envs, 0)
    return queries


def ranges(S, m):
    x, y, a, b = S
    return [t.ule(x, m), t.ult(y, m), t.ult(a, m), t.ult(b, m), t.ne(m, c(1, 256))]


def potential(even):
    """integers: x*y >= 2*x'*y' (or >= x'*y') for every relation"""
    import z3
    X, Y, x2, y2 = z3.Ints("x y x2 y2")
    rel = [z3.And(X == x2, Y == 2 * y2), z3.And(X == x2, Y == 2 * (x2 + y2)), z3.And(X == x2 + y2, Y == 2 * x2)]
    if not even:
        rel += [z3.And(X == x2, Y == x2 + y2), z3.And(X == x2 + y2, Y == x2)]
    secs = 0
    for r in rel:
        s = z3.Solver()
        s.set("timeout", 20000)
        t0 = time.time()
        # eliminate x and y, leaving a polynomial with nonnegative coefficients
        k = r.children()
        px = z3.substitute(X * Y - (2 if even else 1) * x2 * y2, (X, k[0].children()[1]), (Y, k[1].children()[1]))
        s.add(x2 >= 0, y2 >= 0, z3.simplify(px, som=True) < 0)
        q = s.check()
        secs += time.time() - t0
        solver.STATS["queries"] = solver.STATS.get("queries", 0) + 1
        if q != z3.unsat:
            return str(q), secs
    return "unsat", secs


def line(lang, v, m, alias=""):
    if lang != "java":
        return "u.recip %064x %064x" % (v, m)
    xo, mo, zo, to = LAYOUTS[alias]
    w = [0x5A5A5A5A] * (to + 56)
    for o, x in ((zo, 0), (xo, v), (mo, m)):
        for i in range(8):
            w[o + i] = x >> 32 * i & 0xFFFFFFFF
    return "I.reciprocal %s %x %x %x %x" % ("".join("%08x" % x for x in w), xo, mo, zo, to)


def outv(lang, s, alias, v, m):
    if s.startswith("!"):
        return None
    if lang != "java":
        f = [int(x, 16) for x in s.split()]
        return f[0] if f[1] == m else None
    xo, mo, zo, to = LAYOUTS[alias]
    h = s.split()[1]
    w = [int(h[8 * i:8 * i + 8], 16) for i in range(len(h) // 8)]
    g = lambda o: sum(w[o + i] << 32 * i for i in range(8))
    if w[-8:] != [0x5A5A5A5A] * 8 or g(mo) != m or (xo != zo and g(xo) != v):
        return None
    return g(zo)


def samples(rnd, n):
    res = []
    for m in (M256, P, N, 3, 5, (1 << 255) + 1, (1 << 255) - 1, M256 - 2, (1 << 128) + 1, 0xFFFFFFFF, 3 ** 161):
        for v in (0, 1, 2, m - 1, m - 2, m // 2, m // 2 + 1, 1 << 255, 1 << 254, 1 << 128, (1 << 255) - 1, 1 << (m.bit_length() - 1)):
            if v < m and (not v or gcd(v, m) == 1):
                res.append((v, m))
    # values that take the most iterations
    for m in (M256, P, (1 << 255) + 3):
        res += [(k << j, m) for k in (3, 5, 7, 11, 41, 49) for j in range(242, 256) if k << j < m and gcd(k << j, m) == 1]
    while len(res) < n:
        k = rnd.randrange(4)
        m = (rnd.getrandbits(256) if k else rnd.getrandbits(rnd.randrange(2, 257))) | 1
        if k == 2:
            m = rnd.choice([M256, P, N, M256 - 2 * rnd.randrange(1000), (1 << 255) + 2 * rnd.randrange(1000) + 1])
        v = rnd.choice([rnd.getrandbits(256), 1 << rnd.randrange(256), rnd.getrandbits(rnd.randrange(1, 257))]) % m
        if m > 1 and (not v or gcd(v, m) == 1):
            res.append((v, m))
    return res


def check_recip(ctx, rep, lang, alias=""):
    import sys
    sys.setrecursionlimit(100000)
    label = "u.recip/%s%s" % (lang, alias and " " + alias)
    rnd = random.Random("%s/%s" % (ctx.seed, label))

    def run(vs):
        lines = [line(lang, v, m, alias) for v, m in vs]
        for (v, m), ln, g in zip(vs, lines, ctx.native(lang, lines)):
            w = pow(v, -1, m) if v else 0
            if outv(lang, g, alias, v, m) != w:
                rep.violated("reciprocal of %x modulo %x" % (v, m), lang, ln, "%064x" % w, g)
                return False
            rep.validated += 1
        return True
    if not run(samples(rnd, 400)):
        return
    bad = None
    try:
        hdr, visits, sx, sy, sa, sb = roles(ctx, lang, alias)
        v = t.var("v", 256)
        m = t.concat_lsb([c(1, 1), t.var("mh", 255)])
        M, mem, go = start(ctx, lang, v, m, alias)
        pre = [t.ult(v, m), t.ne(m, c(1, 256))]
        canon = [t.var("c." + k, 256) for k in "xyab"]
        canon[0] = t.concat_lsb([c(1, 1), t.var("c.x", 255)])
        cy = t.concat_lsb([c(0, 1), t.var("c.y", 255)])
        state = {"n": 0, "S": None}
        queries, steps_q, first = {}, [], []
        idx = {}

        def hook(fn, block, iters, regs, st):
            if ((fn.name if hasattr(fn, "name") else fn.label), block) != hdr:
                return
            n = state["n"]
            if n == 0:
                # the same slots as in the concrete execution, by position
                idx["slots"] = [sx, sy, sa, sb]
            sl = idx["slots"]
            T = [mem.read(st, s) for s in sl]
            if any(x is None for x in T):
                raise Undecided("working values not found")
            if n == 0:
                first.append(t.conj([t.eq(T[0], m), t.eq(T[1], v), t.eq(T[2], c(0, 256)), t.eq(T[3], c(1, 256))]))
            else:
                even = n > 1
                C = [canon[0], cy if even else canon[1], canon[2], canon[3]]
                sub = {}
                for x, y in zip(state["vars"], ["c.x", "c.y", "c.a", "c.b"]):
                    sub[x] = t.var(y, x.w)
                T2 = t.substitute(T, sub)
                key = (even,) + tuple(T2)
                if key not in queries:
                    queries[key] = len(queries)
                    steps_q.extend(step_queries("%s: from iteration %d" % (label, n), C, T2, m, even))
            # fresh unknowns
            vs = [t.var("x%d" % n, 255), t.var("y%d" % n, 256 if n == 0 else 255), t.var("a%d" % n, 256), t.var("b%d" % n, 256)]
            S = [t.concat_lsb([c(1, 1), vs[0]]), vs[1] if n == 0 else t.concat_lsb([c(0, 1), vs[1]]), vs[2], vs[3]]
            state["n"] = n + 1
            state["vars"], state["S"] = vs, S
            for s, x in zip(sl, S):
                mem.write(st, s, x)
        M.on_header = hook
        paths = go()
        rep.use(M)
        steps = state["n"] - 1
        # after the last visit: x*y < 2^(513-steps) and y is even
        if steps < 512:
            raise Undecided("%d iterations: the product bound does not reach zero" % steps)
        for even in (False, True):
            r, secs = potential(even)
            rep.claim("%s: the product of the working values %s in every step" % (label, "halves" if even else "does not grow"), "proved" if r == "unsat" else "undecided", secs)
            if r != "unsat":
                raise Undecided("potential")
        x, y, a, b = state["S"]
        zero = t.eq(v, c(0, 256))
        facts = pre + ranges([x, y, a, b], m) + [t.eq(y, c(0, 256)), t.ite(zero, t.eq(x, m), t.eq(x, c(1, 256)))]
        rep.bound("all odd moduli above 1, all values below, %d iterations" % steps)
        rep.assume("induction over the iterations: integers x, y are combinations of the next x, y, so the last x (y being 0) divides value and modulus; the product starts below 2^512 and is below 2 at the end")
        qs = []
        qs += [Q(label + ": start", pre + [t.bnot(g)], 30) for g in first]
        for q in steps_q:
            q.result, q.secs = ints.decide(q.conds, 30)
            if q.result != "unsat":
                qs.append(q)
            else:
                rep.claim(q.name, "proved", q.secs)
        for i, (s, r, m2) in enumerate(paths):
            qs.append(Q("%s: result #%d" % (label, i), list(s.pc) + facts + [t.ne(r, t.ite(zero, c(0, 256), a))], 30))
            if m2 is not m:
                qs.append(Q("%s: modulus unchanged #%d" % (label, i), list(s.pc) + facts + [t.ne(m2, m)], 30))
        qs.append(Q("%s: paths are exhaustive" % label, facts + [t.bnot(t.disj([t.conj(list(s.pc)) for s, _, _ in paths]))], 30))
        solver.solve_many(qs, jobs=6)
        for q in qs:
            if q.result == "unsat":
                rep.claim(q.name, "proved", q.secs)
            else:
                bad = bad or (q.name, q.result)
        if bad is None:
            solve_obligations(ctx, rep, M, facts, label)
    except (Undecided, Unsupported) as e:
        bad = (label, str(e))
    if bad:
        if run(samples(rnd, 1500)):
            rep.claim(bad[0], "undecided", 0, bad[1])


for _lang in ("cpp", "asm"):
    @unit("u.recip/" + _lang, needs(_lang), lang=_lang, limit=300)
    def _u(ctx, rep, lang):
        check_recip(ctx, rep, lang)
for _a in LAYOUTS:
    @unit("j.reciprocal" + (" " + _a if _a else ""), ["java"], a=_a, limit=300)
    def _u(ctx, rep, a):
        check_recip(ctx, rep, "java", a)


t.UF_EVAL.setdefault("frecip", lambda a: pow(a[0], P - 2, P))
for _lang in ("cpp", "asm"):
    @unit("f.recip/" + _lang, needs(_lang), lang=_lang, limit=60)
    def _u(ctx, rep, lang):
        """the field's reciprocal is the general one with the field prime"""
        label = "f.recip/" + lang
        rnd = random.Random("%s/%s" % (ctx.seed, label))

        def run(n):
            vs = [0, 1, 2, P - 1, P - 2, (P + 1) // 2, 1 << 255] + [rnd.getrandbits(256) % P for _ in range(n)]
            lines = ["f.recip %064x" % v for v in vs]
            for v, ln, g in zip(vs, lines, ctx.native(lang, lines)):
                w = "%064x" % pow(v, P - 2, P)
                if g != w:
                    rep.violated("reciprocal of the field element %x" % v, lang, ln, w, g)
                    return False
                rep.validated += 1
            return True
        if not run(60):
            return
        bad = None
        try:
            cx = Cpp(ctx, "ir" if lang == "cpp" else "ir_asm")
            cpp_uint(cx.mach)

            def stub(M, st, a):
                x, m = M.read_term(st, a[0], 32), M.read_term(st, a[1], 32)
                if m.op != "const" or m.args[0] != P:
                    return NotImplemented
                M.oblige(st, t.ult(x, c(P, 256)), "precondition", "reciprocal: value below the modulus")
                M.write_term(st, a[0], t.uf("frecip", 256, (x,), 0, P - 1))
            cx.mach.stubs["Uint256::reciprocal(Uint256 const&)"] = stub
            x = t.var("x", 256)
            mach, paths = cx.simple("h_f_recip", [("io", "x")], {"x": x}, ["x"])
            rep.use(mach)
            pre = [t.ult(x, c(P, 256))]
            want = t.uf("frecip", 256, (x,), 0, P - 1)
            qs = [Q("%s: result #%d" % (label, i), pre + list(pc) + [t.ne(o[0], want)], 30) for i, (pc, o) in enumerate(paths)]
            qs.append(Q(label + ": paths are exhaustive", pre + [t.bnot(t.disj([t.conj(list(pc)) for pc, _ in paths]))], 30))
            solver.solve_many(qs, jobs=2)
            for q in qs:
                if q.result == "unsat":
                    rep.claim(q.name, "proved", q.secs)
                else:
                    bad = bad or (q.name, q.result)
            rep.bound("every reduced field element")
            rep.assume("the general reciprocal as decided by u.recip")
            if bad is None:
                solve_obligations(ctx, rep, mach, pre, label)
        except (Undecided, Unsupported) as e:
            bad = (label, str(e))
        if bad and run(1000):
            rep.claim(bad[0], "undecided", 0, bad[1])
