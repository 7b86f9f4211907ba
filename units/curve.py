"""Elliptic curve points: group operations, scalar multiplication, normalisation, predicates."""
import random
from sv import term as t, solver
from sv.engine import Unsupported, Ptr
from sv.frame import unit
from sv.ops import Op, Param, validate, replay, solve_obligations, P, N, M256, sample, fill, fmt
from sv.cppx import Cpp
from sv.javax import words_hex
from sv.jvm import Java, JExc
from sv.contracts import cpp_uint, java_uint
from sv.solver import Q
from sv import fieldabs as fa
from sv.fieldabs import Case, pv, pc_, padd, psub, pmul, ppow, cpp_field, java_field, resolve, prove_ids, Undecided
from units import curve_ref as cr

c = t.const
MODS = (("cpp", "ir"), ("asm", "ir_asm"))


def needs(lang):
    return {"cpp": ["ir", "cpp"], "asm": ["ir_asm", "asm", "asmobj"], "java": ["java"]}[lang]


# ---------------------------------------------------------------- concrete points
def aff(p):
    """projective triple -> affine pair, None (identity) or 'invalid'"""
    X, Y, Zc = p
    if max(p) >= P:
        return "invalid"
    if Zc == 0:
        return None if X == 0 and Y != 0 else "invalid"
    i = pow(Zc, -1, P)
    return X * i % P, Y * i % P


_pts = []


def rpoint(rnd):
    """a point on the curve"""
    if not _pts:
        g = cr.G
        for i in range(40):
            _pts.append(g)
            g = cr.add(g, cr.add(g, cr.G) if i % 3 == 0 else g)
    k = rnd.randrange(4)
    if k == 0:
        return rnd.choice(_pts)
    while True:
        x = rnd.getrandbits(256) % P if k < 3 else rnd.choice([1, 2, 3, 4, 6, 8, P - 3, P - 2, (1 << 255), (1 << 128) + 3, 977, 0xFFFFFFFF, rnd.randrange(1, 1 << 33)])
        p = cr.lift(x)
        if p:
            return p if rnd.random() < .5 else cr.neg(p)
        k = rnd.randrange(1, 4)


def rz(rnd):
    return rnd.choice([1, 1, 2, P - 1, rnd.randrange(1, 1 << 32), rnd.randrange(1, P), rnd.randrange(1, P), rnd.randrange(1, P)])


def proj(p, z, y=1):
    if p is None:
        return 0, y % P or 1, 0
    return p[0] * z % P, p[1] * z % P, z


# ---------------------------------------------------------------- running the operations symbolically
FN = {"p.add": "h_p_add", "p.addself": "h_p_add", "p.twice": "h_p_twice", "p.norm": "h_p_norm", "p.iszero": "h_p_iszero", "p.isoncurve": "h_p_isoncurve"}
TEMP = {"p.add": 112, "p.addself": 112, "p.twice": 64, "p.norm": 72, "p.isoncurve": 56, "p.iszero": 0, "p.mul": 520}
JM = {"p.add": "add", "p.addself": "add", "p.twice": "twice", "p.norm": "normalize", "p.isoncurve": "isOnCurve", "p.iszero": "isZero"}
PRED = ("p.iszero", "p.isoncurve")


def pt(v, i):
    return [v["X%d" % i], v["Y%d" % i], v["Z%d" % i]]


def params(n):
    return [Param("%s%d" % (a, i), 256, 0, P - 1) for i in range(1, n + 1) for a in "XYZ"]


def line(name, lang, vals, n):
    co = [vals["%s%d" % (a, i)] for i in range(1, n + 1) for a in "XYZ"]
    if lang != "java":
        return " ".join([name] + ["%064x" % x for x in co])
    w = "".join(words_hex(x) for x in co) + "0badf00d" * 8
    tmp = TEMP[name]
    w += "ffffffff" * tmp + "0badf00d" * 8
    if name == "p.add":
        a = [0, 24, 56]
    elif name == "p.addself":
        a = [0, 0, 32]
    elif name == "p.iszero":
        a = [0]
    else:
        a = [0, 32]
    return " ".join(["C." + JM[name], w] + ["%x" % x for x in a])


def parse(name, lang, s, n):
    """list of points after the operation, or the predicate value; None on misbehaviour"""
    if s.startswith("!"):
        return None
    f = s.split()
    try:
        if lang != "java":
            if name in PRED:
                return int(f[0], 16)
            r = [int(x, 16) for x in f]
            return [tuple(r[i:i + 3]) for i in range(0, len(r), 3)]
        ret, w = f
        words = [int(w[8 * i:8 * i + 8], 16) for i in range(len(w) // 8)]
        g = [0x0badf00d] * 8
        if words[24 * n:24 * n + 8] != g or words[-8:] != g:
            return None
        pts = []
        for i in range(n):
            pts.append(tuple(sum(words[24 * i + 8 * k + j] << 32 * j for j in range(8)) for k in range(3)))
        if name in PRED:
            return (int(ret, 16), pts)
        return pts
    except (ValueError, IndexError):
        return None


def encode(ctx, name, lang, v, n, prepare_cpp=(cpp_uint, cpp_field), prepare_java=(java_uint, java_field)):
    """-> machine, [(pc, dict with 'pts' (lists of coordinate terms), 'ret')]"""
    if lang != "java":
        cx = Cpp(ctx, "ir" if lang == "cpp" else "ir_asm")
        for f in prepare_cpp:
            f(cx.mach)
        st = cx.start()
        ps = []
        for i in range(1, n + 1):
            ps.append(cx.obj(st, t.concat(*reversed(pt(v, i))), "p%d" % i, const=(i > 1 or name in PRED)))
        args = list(ps) + ([ps[0]] if name == "p.addself" else [])
        out = []
        for s, rv in cx.call(FN[name], args, st):
            out.append((s.pc, dict(pts=[[cx.read(s, p, 32, 32 * k) for k in range(3)] for p in ps], ret=rv)))
        return cx.mach, out
    J = Java(ctx)
    for f in prepare_java:
        f(J.mach)
    M = J.mach
    st = J.start()
    cells = []
    for i in range(1, n + 1):
        for x in pt(v, i):
            cells += M.words(st, x)
    tmp = TEMP[name]
    guard = [t.var("guard%d" % i, 32) for i in range(16)]
    cells += guard[:8] + [t.var("temp%d" % i, 32) for i in range(tmp)] + guard[8:]
    arr = M.ints(st, cells)
    to = c(24 * n + 8, 32)
    if name == "p.add":
        a = [c(0, 32), c(24, 32), to]
    elif name == "p.addself":
        a = [c(0, 32), c(0, 32), to]
    elif name == "p.iszero":
        a = [c(0, 32)]
    else:
        a = [c(0, 32), to]
    out = []
    for s, rv in M.call("CurvePointMath", JM[name], [arr] + a, st):
        if isinstance(rv, JExc):
            M.oblige(s, t.FALSE, "exception " + rv.cls, JM[name])
            continue
        cl = s.mem[arr.oid].cells
        for i in range(8):
            for k, j in ((24 * n + i, i), (24 * n + 8 + tmp + i, 8 + i)):
                M.oblige(s, t.eq(cl[k], guard[j]), "write outside", JM[name])
        out.append((s.pc, dict(pts=[[t.concat_lsb(cl[24 * i + 8 * k:24 * i + 8 * k + 8]) for k in range(3)] for i in range(n)], ret=rv)))
    return M, out


# ---------------------------------------------------------------- the cases of the group law
def fin(i, x, y, z):
    return {"X%d" % i: pmul(x, z), "Y%d" % i: pmul(y, z), "Z%d" % i: z}


def ident(i, y):
    return {"X%d" % i: {}, "Y%d" % i: y, "Z%d" % i: {}}


x1, y1, z1, x2, y2, z2, u, e1, e2 = [pv(n) for n in ("x1", "y1", "z1", "x2", "y2", "z2", "u", "e1", "e2")]
CURVE1 = ((("y1", 2),), padd(ppow(x1, 3), pc_(7)))
xu = padd(x1, u)
CURVE2 = ((("y2", 2),), padd(ppow(xu, 3), pc_(7)))
N2 = psub(pmul(pc_(9), ppow(x1, 4)), pmul(pc_(8), pmul(x1, ppow(y1, 2))))      # (3x^2)^2 - 2x(2y)^2
DBL = (N2, ppow(pmul(pc_(2), y1), 2), psub(pmul(pmul(pc_(3), ppow(x1, 2)), psub(pmul(pmul(pc_(4), x1), ppow(y1, 2)), N2)), pmul(y1, ppow(pmul(pc_(2), y1), 3))), ppow(pmul(pc_(2), y1), 3))
dy = psub(y2, y1)
NA = psub(ppow(dy, 2), pmul(padd(pmul(pc_(2), x1), u), ppow(u, 2)))
ADD = (NA, ppow(u, 2), psub(pmul(dy, psub(pmul(x1, ppow(u, 2)), NA)), pmul(y1, ppow(u, 3))), ppow(u, 3))
SAME1 = (x1, pc_(1), y1, pc_(1))
SAME2 = (x2, pc_(1), y2, pc_(1))


def s_ident(rnd):
    return None


CASES = {
    "p.twice": [
        ("finite point", fin(1, x1, y1, z1), [z1, y1], [CURVE1], DBL, lambda r: [rpoint(r)]),
        ("identity", ident(1, e1), [e1], [], None, lambda r: [None]),
    ],
    "p.addself": [
        ("finite point", fin(1, x1, y1, z1), [z1, y1], [CURVE1], DBL, lambda r: [rpoint(r)]),
        ("identity", ident(1, e1), [e1], [], None, lambda r: [None]),
    ],
    "p.add": [
        ("different x", dict(fin(1, x1, y1, z1), **fin(2, xu, y2, z2)), [z1, z2, u, y1, y2], [CURVE1, CURVE2], ADD, lambda r: [rpoint(r), rpoint(r)]),
        ("equal points", dict(fin(1, x1, y1, z1), **fin(2, x1, y1, z2)), [z1, z2, y1], [CURVE1], DBL, lambda r: [rpoint(r)] * 2),
        ("opposite points", dict(fin(1, x1, y1, z1), **fin(2, x1, psub({}, y1), z2)), [z1, z2, y1], [CURVE1], None, lambda r: (lambda p: [p, cr.neg(p)])(rpoint(r))),
        ("identity + finite", dict(ident(1, e1), **fin(2, x2, y2, z2)), [e1, z2, y2], [((("y2", 2),), padd(ppow(x2, 3), pc_(7)))], SAME2, lambda r: [None, rpoint(r)]),
        ("finite + identity", dict(fin(1, x1, y1, z1), **ident(2, e2)), [e2, z1, y1], [CURVE1], SAME1, lambda r: [rpoint(r), None]),
        ("identity + identity", dict(ident(1, e1), **ident(2, e2)), [e1, e2], [], None, lambda r: [None, None]),
    ],
}


def concretize(rnd, pts):
    vals = {}
    z = rz(rnd)
    for i, p in enumerate(pts, 1):
        if rnd.random() < .7:
            z = rz(rnd)
        X, Y, Zc = proj(p, z, rz(rnd))
        vals.update({"X%d" % i: X, "Y%d" % i: Y, "Z%d" % i: Zc})
    return vals


def want(name, pts):
    if name == "p.add":
        return cr.add(pts[0], pts[1])
    return cr.add(pts[0], pts[0])


def show(p):
    return "the identity" if p is None else p if isinstance(p, str) else "(%064x, %064x)" % p


def run_samples(ctx, rep, name, lang, n, samples, paths=None):
    """real code against the affine reference; also the encoding. samples: (case, points, vals)"""
    lines = [line(name, lang, s[2], n) for s in samples]
    got = ctx.native(lang, lines)
    if "?" in got:
        raise Unsupported("the replay driver does not know this operation")
    for (case, pts, vals), ln, g in zip(samples, lines, got):
        w = want(name, pts)
        r = parse(name, lang, g, n)
        bad = r is None or aff(r[0]) != w
        if not bad and n == 2 and r[1] != tuple(vals[k] for k in ("X2", "Y2", "Z2")):
            bad = True
        if bad:
            rep.violated("%s: %s gives a wrong result" % (name, case), lang, ln, "a representation of " + show(w), g)
            return False
        rep.validated += 1
        if paths is not None:
            hit = 0
            for pcs, d in paths:
                flat = [x for p in d["pts"] for x in p]
                ev = t.evaluate(list(pcs) + flat, vals)
                if all(x == 1 for x in ev[:len(pcs)]):
                    hit += 1
                    if ev[len(pcs):] != [x for p in r for x in p]:
                        rep.notes.append("encoding of %s disagrees with the real code on %s" % (name, ln))
                        rep.claim(name + "/encoding", "undecided", 0, "encoding disagrees with the real code")
                        return None
            if hit:
                rep.witness += 1
            else:
                rep.claim(name + "/encoding", "undecided", 0, "no encoded path for " + ln)
                return None
    return True


def guided(rnd, cs_name, gen, vars_, conds, tries=40):
    """inputs of a case with one coordinate of each point taken from a solver model of the branch conditions"""
    q = [Q("branch", list(conds), 10)]
    solver.solve_many(q, jobs=1)
    res = []
    if q[0].result != "sat":
        return res
    env = q[0].env
    for _ in range(tries):
        pts = gen(rnd)
        vals = {}
        for i, p in enumerate(pts, 1):
            k = rnd.choice("XYZ")
            m = env.get("%s%d" % (k, i), 0) % P
            if p is None:
                X, Y, Zc = 0, (env.get("Y%d" % i, 0) % P) or 1, 0
            else:
                z = {"X": m * pow(p[0], -1, P) if p[0] else 1, "Y": m * pow(p[1], -1, P), "Z": m}[k] % P or rz(rnd)
                X, Y, Zc = proj(p, z)
            vals.update({"X%d" % i: X, "Y%d" % i: Y, "Z%d" % i: Zc})
        res.append((cs_name, pts, vals))
    return res


def check_group(ctx, rep, name, lang):
    n = 2 if name == "p.add" else 1
    label = "%s/%s" % (name, lang)
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    ps = params(n)
    v = {p.name: p.var() for p in ps}

    def samples(k, cases=None):
        out = []
        for cname, _, _, _, _, gen in CASES[name]:
            if cases is None or cname in cases:
                for _ in range(k):
                    pts = gen(rnd)
                    if cname == "different x" and pts[0][0] == pts[1][0]:
                        continue
                    out.append((cname, pts, concretize(rnd, pts)))
        return out
    try:
        mach, paths = encode(ctx, name, lang, v, n)
    except Unsupported as e:
        rep.claim(label, "undecided", 0, "not encoded: %s" % e)
        run_samples(ctx, rep, name, lang, n, samples(60))
        return
    rep.use(mach)
    ok = run_samples(ctx, rep, name, lang, n, samples(8), paths)
    if ok is False:
        return
    rep.assume("no point of the curve has y = 0 (-7 is not a cube modulo p); field operations as decided by F01")
    undecided = []
    for cname, inp, nz, rules, exp, gen in CASES[name]:
        base = {v[k]: q for k, q in inp.items()}
        what = "%s: %s" % (label, cname)
        cases_done = 0
        try:
            left = []        # which paths are reachable: conditions decided inside the case
            for pcs, d in paths:
                roots = list(pcs) + [x for p in d["pts"] for x in p]
                for cs, cur in resolve(Case(cname, base, nz, rules), roots):
                    pcc, outs = cur[:len(pcs)], cur[len(pcs):]
                    if any(x is t.FALSE for x in pcc):
                        continue
                    cases_done += 1
                    X, Y, Zc = outs[:3]
                    got = []

                    def zero(p, lhs, w):
                        r = cs.zero(p, lhs, w)
                        if r is None:
                            raise Failed(w, cs)
                        return r
                    pX, pY, pZ = [cs.poly(x) for x in (X, Y, Zc)]

                    def lin(a, x, b=None, y=None):     # a*x - b*y as expression
                        return lambda Zz: Zz.poly(a) * Zz.term(cs, x) - (Zz.poly(b) * Zz.term(cs, y) if y is not None else 0)
                    one = pc_(1)
                    if exp is None:
                        if not zero(pX, lin(one, X), "x' = 0") or not zero(pZ, lin(one, Zc), "z' = 0") or zero(pY, lin(one, Y), "y' nonzero"):
                            raise Failed("identity result", cs)
                    else:
                        nx, dx, ny, dyy = [cs.subst(q) for q in exp]
                        if zero(pZ, lin(one, Zc), "z' nonzero"):
                            raise Failed("z' is zero", cs)
                        if not zero(psub(pmul(dx, pX), pmul(nx, pZ)), lin(dx, X, nx, Zc), "x'/z'"):
                            raise Failed("x'", cs)
                        if not zero(psub(pmul(dyy, pY), pmul(ny, pZ)), lin(dyy, Y, ny, Zc), "y'/z'"):
                            raise Failed("y'", cs)
                    if n == 2:
                        for k, a in zip(("X2", "Y2", "Z2"), outs[3:6]):
                            if a is not v[k]:
                                raise Failed("operand changed", cs)
                    r, w, secs, m = prove_ids(cs)
                    if r != "unsat":
                        raise Failed("identity %s: %s" % (w, r), cs)
                    rep.claim("%s #%d (%d identities)" % (what, cases_done, m), "proved", secs)
            if not cases_done:
                raise Failed("no path", None)
        except (Undecided, Failed) as e:
            cs = getattr(e, "cs", None)
            extra = []
            if cs is not None and cs.path:
                extra = guided(rnd, cname, gen, v, [a if val else t.bnot(a) for a, val in cs.path])
            if run_samples(ctx, rep, name, lang, n, extra + samples(80, [cname])) is False:
                return
            undecided.append((what, str(e)))
    for w, e in undecided:
        rep.claim(w, "undecided", 0, e)

    def on_cex(env, o):
        vals = fill(Op("x", ps, [], None), env)
        got = ctx.native(lang, [line(name, lang, vals, n)])[0]
        if got.startswith("!"):
            rep.violated("%s: %s in %s" % (label, o.kind, o.where), lang, line(name, lang, vals, n), "no failure", got)
            return True
        return False
    solve_obligations(ctx, rep, mach, [], label, on_cex)


class Failed(Exception):
    def __init__(self, w, cs):
        Exception.__init__(self, w)
        self.cs = cs


for _n in ("p.twice", "p.addself", "p.add"):
    for _lang in ("cpp", "asm", "java"):
        @unit("%s/%s" % (_n, _lang), needs(_lang), n=_n, lang=_lang, limit=200)
        def _u(ctx, rep, n, lang):
            check_group(ctx, rep, n, lang)


# ---------------------------------------------------------------- normalisation and membership

def norm_ref(p):
    return (0, 1, 0) if p is None else p + (1,)


def check_norm(ctx, rep, lang):
    name, label = "p.norm", "p.norm/" + lang
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    ps = params(1)
    v = {p.name: p.var() for p in ps}
    gens = [("finite point", lambda r: [rpoint(r)]), ("identity", lambda r: [None])]

    def run(k, paths=None, extra=()):
        smp = list(extra)
        for cname, g in gens:
            for _ in range(k):
                pts = g(rnd)
                smp.append((cname, pts, concretize(rnd, pts)))
        # coordinates of any size, also off the curve
        for _ in range(k):
            z = rz(rnd)
            a = [sample(rnd, ps[0]) % P for _ in range(2)]
            smp.append(("coordinates", [tuple(a)], dict(X1=a[0] * z % P, Y1=a[1] * z % P, Z1=z)))
        lines = [line(name, lang, s[2], 1) for s in smp]
        got = ctx.native(lang, lines)
        for (cname, pts, vals), ln, g in zip(smp, lines, got):
            r = parse(name, lang, g, 1)
            w = norm_ref(pts[0])
            if r is None or r[0] != w:
                rep.violated("normalization: %s" % cname, lang, ln, "%064x %064x %064x" % w, g)
                return False
            rep.validated += 1
            if paths is not None:
                ok = False
                for pcs, d in paths:
                    ev = t.evaluate(list(pcs) + d["pts"][0], vals)
                    if all(x == 1 for x in ev[:len(pcs)]):
                        ok = tuple(ev[len(pcs):]) == r[0]
                if not ok:
                    rep.claim(label + "/encoding", "undecided", 0, "encoding disagrees with the real code on " + ln)
                    return None
                rep.witness += 1
        return True
    try:
        mach, paths = encode(ctx, name, lang, v, 1)
    except Unsupported as e:
        rep.claim(label, "undecided", 0, "not encoded: %s" % e)
        run(100)
        return
    rep.use(mach)
    if run(8, paths) is False:
        return
    rep.assume("the modular inverse as decided by U04; field operations as decided by F01")
    a, b = pv("a"), pv("b")
    for cname, inp, nz, exp in (("z not 0", {"X1": a, "Y1": b, "Z1": z1}, [z1], "div"), ("identity", ident(1, e1), [e1], "id")):
        what = "%s: %s" % (label, cname)
        base = {v[k]: q for k, q in inp.items()}
        try:
            m = 0
            for pcs, d in paths:
                for cs, cur in resolve(Case(cname, base, nz), list(pcs) + d["pts"][0]):
                    pcc, outs = cur[:len(pcs)], cur[len(pcs):]
                    if any(x is t.FALSE for x in pcc):
                        continue
                    m += 1
                    if exp == "id":
                        goals = list(zip(outs, [pc_(0), pc_(1), pc_(0)], [pc_(1)] * 3))
                    else:
                        goals = [(outs[0], cs.subst(a), z1), (outs[1], cs.subst(b), z1), (outs[2], pc_(1), pc_(1))]
                    for o, r, den in goals:
                        p = psub(pmul(cs.poly(o), den), r)
                        z = cs.zero(p, lambda Zz, o=o, r=r, den=den, cs=cs: Zz.term(cs, o) * Zz.poly(den) - Zz.poly(r), "normalized coordinate")
                        if not z:
                            raise Failed("normalized coordinate", cs)
                    r, w, secs, k = prove_ids(cs)
                    if r != "unsat":
                        raise Failed("identity %s: %s" % (w, r), cs)
                    rep.claim("%s #%d (%d identities)" % (what, m, k), "proved", secs)
            if not m:
                raise Failed("no path", None)
        except (Undecided, Failed) as e:
            cs = getattr(e, "cs", None)
            extra = []
            if cs is not None and cs.path:
                for cn, pts, vals in guided(rnd, cname, gens[0][1] if exp == "div" else gens[1][1], v, [x if val else t.bnot(x) for x, val in cs.path]):
                    extra.append((cn, pts, vals))
            if run(200, None, extra) is False:
                return
            rep.claim(what, "undecided", 0, str(e))

    def on_cex(env, o):
        ln = line(name, lang, fill(Op("x", ps, [], None), env), 1)
        got = ctx.native(lang, [ln])[0]
        if got.startswith("!"):
            rep.violated("%s: %s in %s" % (label, o.kind, o.where), lang, ln, "no failure", got)
            return True
        return False
    solve_obligations(ctx, rep, mach, [], label, on_cex)


def check_oncurve(ctx, rep, lang):
    name, label = "p.isoncurve", "p.isoncurve/" + lang
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    ps = params(1)
    v = {p.name: p.var() for p in ps}

    def spec(vals):
        X, Y, Zc = vals["X1"], vals["Y1"], vals["Z1"]
        return int(Zc == 1 and (Y * Y - X ** 3 - 7) % P == 0)

    def gen(kind):
        while True:
            if kind == "on":
                p = rpoint(rnd)
                return dict(X1=p[0], Y1=p[1], Z1=1)
            if kind == "id":
                return dict(X1=0, Y1=1, Z1=0)
            k = rnd.randrange(6)
            p = rpoint(rnd)
            x, y = p
            if k == 0:
                y = (y + rnd.choice([1, -1, 2, 1 << rnd.randrange(255)])) % P
            elif k == 1:
                x = (x + rnd.choice([1, -1, 2, 1 << rnd.randrange(255)])) % P
            elif k == 2:
                x, y = 0, rnd.choice([0, 1, 7, P - 1, sample(rnd, ps[0]) % P])
            elif k == 3:
                # close to the curve: y^2 - x^3 - 7 small
                d = rnd.choice([1, 2, 7, P - 7, 1 << 32, 1 << 64, 1 << 128, 1 << 224, rnd.getrandbits(32) << 32 * rnd.randrange(8)])
                y2 = (x ** 3 + 7 + d) % P
                y = pow(y2, (P + 1) // 4, P)
                if y * y % P != y2:
                    continue
            elif k == 4:
                x, y = sample(rnd, ps[0]) % P, sample(rnd, ps[0]) % P
            else:
                # a point of another curve y^2 = x^3 + a x + b
                pass
            r = dict(X1=x, Y1=y, Z1=1)
            if not spec(r):
                return r

    def run(k, paths=None, extra=()):
        smp = list(extra) + [gen("on") for _ in range(k)] + [gen("off") for _ in range(2 * k)] + [gen("id")]
        lines = [line(name, lang, s, 1) for s in smp]
        for vals, ln, g in zip(smp, lines, ctx.native(lang, lines)):
            r = parse(name, lang, g, 1)
            r = r if lang != "java" else None if r is None or list(r[1][0]) != [vals["X1"], vals["Y1"], vals["Z1"]] else r[0]
            if r != spec(vals):
                rep.violated("on-curve test", lang, ln, "%x" % spec(vals), g)
                return False
            rep.validated += 1
            for pcs, d in paths or []:
                ev = t.evaluate(list(pcs) + [d["ret"]], vals)
                if all(x == 1 for x in ev[:-1]) and ev[-1] != r:
                    rep.claim(label + "/encoding", "undecided", 0, "encoding disagrees with the real code on " + ln)
                    return None
        rep.witness += 1
        return True
    try:
        mach, paths = encode(ctx, name, lang, v, 1)
    except Unsupported as e:
        rep.claim(label, "undecided", 0, "not encoded: %s" % e)
        run(150)
        return
    rep.use(mach)
    if run(10, paths) is False:
        return
    F = psub(ppow(y1, 2), padd(ppow(x1, 3), pc_(7)))
    n1 = {"X1": x1, "Y1": y1, "Z1": pc_(1)}
    for cname, inp, nz, rules, exp in (("on the curve", n1, [], [CURVE1], 1), ("off the curve", n1, [F], [], 0), ("identity", {"X1": {}, "Y1": pc_(1), "Z1": {}}, [], [], 0)):
        what = "%s: %s" % (label, cname)
        base = {v[k]: q for k, q in inp.items()}
        try:
            m = 0
            for pcs, d in paths:
                for cs, cur in resolve(Case(cname, base, nz, rules), list(pcs) + [d["ret"]] + d["pts"][0]):
                    pcc, o = cur[:len(pcs)], cur[len(pcs)]
                    if any(x is t.FALSE for x in pcc):
                        continue
                    m += 1
                    if o.op != "const" or o.args[0] != exp:
                        raise Failed("result", cs)
                    if [x for x in cur[len(pcs) + 1:]] != pt(v, 1):
                        raise Failed("point changed", cs)
                    r, w, secs, k = prove_ids(cs)
                    if r != "unsat":
                        raise Failed("identity %s: %s" % (w, r), cs)
                    rep.claim("%s #%d (%d identities)" % (what, m, k), "proved", secs)
            if not m:
                raise Failed("no path", None)
        except (Undecided, Failed) as e:
            if run(300) is False:
                return
            rep.claim(what, "undecided", 0, str(e))
    solve_obligations(ctx, rep, mach, [], label)


for _lang in ("cpp", "asm", "java"):
    @unit("p.norm/" + _lang, needs(_lang), lang=_lang, limit=150)
    def _u(ctx, rep, lang):
        check_norm(ctx, rep, lang)

    @unit("p.isoncurve/" + _lang, needs(_lang), lang=_lang, limit=150)
    def _u(ctx, rep, lang):
        check_oncurve(ctx, rep, lang)

# ---------------------------------------------------------------- plain predicates and copies
from sv.ops import check_op      # noqa
from sv.javax import JOp      # noqa


def zeros(rnd, vals):
    r = {}
    for k in ("X1", "Y1", "Z1"):
        r[k] = rnd.choice([0, 0, 1, 1 << rnd.randrange(250), vals[k]])
    return r


def nearpt(rnd, vals):
    r = {}
    k = rnd.choice("XYZ")
    for a in "XYZ":
        x = vals[a + "1"]
        r[a + "2"] = x if a != k or rnd.random() < .4 else (x ^ (1 << rnd.randrange(256))) % P
    return r


def parity(v):
    b = [t.zext(t.band(t.extract(v["Y1"], 7, 0), c(1, 8)), 8)]
    return t.add(b[0], c(2, 8))


OPS = {
    "p.iszero": Op("p.iszero", params(1), ["ret"], lambda v: {"ret": t.zext(fa.is_zero(pt(v, 1)), 32)}, special=[zeros]),
    "p.cmp": Op("p.cmp", params(2), ["eq", "ne"], lambda v: (lambda e: {"eq": t.zext(e, 32), "ne": t.zext(t.bnot(e), 32)})(t.band(*[t.eq(a, b) for a, b in zip(pt(v, 1), pt(v, 2))])), special=[nearpt]),
    "p.replace": Op("p.replace", params(2) + [Param("en", 32, 0, 1)], ["X1", "Y1", "Z1", "X2", "Y2", "Z2"],
                    lambda v: dict([(a + "1", t.ite(t.eq(v["en"], c(1, 32)), v[a + "2"], v[a + "1"])) for a in "XYZ"] + [(a + "2", v[a + "2"]) for a in "XYZ"])),
    "p.compress": Op("p.compress", params(1), ["b%d" % i for i in range(33)],
                     lambda v: dict([("b0", parity(v))] + [("b%d" % (32 - i), t.extract(v["X1"], 8 * i + 7, 8 * i)) for i in range(32)]), parse=lambda s: list(bytes.fromhex(s.strip()))),
}


def run_plain(ctx, mod, name):
    def go(v):
        cx = Cpp(ctx, mod)
        cpp_uint(cx.mach)
        st = cx.start()
        p = cx.obj(st, t.concat_lsb(pt(v, 1)), "p", const=name != "p.replace")
        q = cx.obj(st, t.concat_lsb(pt(v, 2)), "q", const=True) if "X2" in v else None
        rd = lambda s, o: [cx.read(s, o, 32, 32 * k) for k in range(3)]
        if name == "p.iszero":
            return cx.mach, [(s.pc, [r]) for s, r in cx.call("h_p_iszero", [p], st)]
        if name == "p.cmp":
            res = []
            for s, r in cx.call("h_p_eq", [p, q], st):
                for s2, r2 in cx.call("h_p_ne", [p, q], s):
                    res.append((s2.pc, [r, r2]))
            return cx.mach, res
        if name == "p.replace":
            return cx.mach, [(s.pc, rd(s, p) + rd(s, q)) for s, r in cx.call("h_p_replace", [p, q, v["en"]], st)]
        b = cx.buf(st, 33, "out")
        return cx.mach, [(s.pc, [cx.read(s, b, 1, i) for i in range(33)]) for s, r in cx.call("h_p_compress", [p, b], st)]
    return go


for _lang, _mod in MODS:
    for _n in OPS:
        @unit("%s/%s" % (_n, _lang), needs(_lang), n=_n, lang=_lang, mod=_mod)
        def _u(ctx, rep, n, lang, mod):
            check_op(ctx, rep, OPS[n], lang, run_plain(ctx, mod, n))
JOPS = {
    "j.p.isZero": JOp("j.p.isZero", "CurvePointMath", "isZero", ["g0", "X1", "Y1", "Z1", "g1"], ["X1"], params(1), lambda v: {"ret": t.zext(fa.is_zero(pt(v, 1)), 32)}, special=[zeros]),
    "j.p.replace": JOp("j.p.replace", "CurvePointMath", "replace", ["g0", "X1", "Y1", "Z1", "X2", "Y2", "Z2", "g1"], ["X1", "X2", "en"], params(2) + [Param("en", 32, 0, 1)],
                       lambda v: {a + "1": t.ite(t.eq(v["en"], c(1, 32)), v[a + "2"], v[a + "1"]) for a in "XYZ"}, has_ret=False),
    "j.p.replaceself": JOp("j.p.replaceself", "CurvePointMath", "replace", ["g0", "X1", "Y1", "Z1", "g1"], ["X1", "X1", "en"], params(1) + [Param("en", 32, 0, 1)], lambda v: {}, has_ret=False),
}
for _n, _op in JOPS.items():
    @unit(_n, ["java"], op=_op)
    def _u(ctx, rep, op):
        check_op(ctx, rep, op, "java", op.run(ctx, java_uint))

# ---------------------------------------------------------------- scalar multiplication


def encode_mul(ctx, lang, v, pts):
    """-> machine, [(pc, result triple, operand unchanged?)]"""
    base = pts.new("base")
    if lang != "java":
        cx = Cpp(ctx, "ir" if lang == "cpp" else "ir_asm")
        cpp_uint(cx.mach)
        fa.cpp_points(cx.mach, pts)
        st = cx.start()
        p = cx.obj(st, t.concat_lsb(list(base)), "p")
        n = cx.obj(st, v["n"], "n", const=True)
        return cx.mach, [(s.pc, tuple(cx.read(s, p, 32, 32 * k) for k in range(3)), cx.read(s, n, 32)) for s, _ in cx.call("h_p_mul", [p, n], st)]
    J = Java(ctx)
    java_uint(J.mach)
    fa.java_points(J.mach, pts)
    M = J.mach
    st = J.start()
    cells = []
    for x in list(base) + [v["n"]]:
        cells += M.words(st, x)
    guard = [t.var("guard%d" % i, 32) for i in range(8)]
    cells += [t.var("temp%d" % i, 32) for i in range(TEMP["p.mul"])] + guard
    arr = M.ints(st, cells)
    out = []
    for s, rv in M.call("CurvePointMath", "multiply", [arr, c(0, 32), c(24, 32), c(32, 32)], st):
        if isinstance(rv, JExc):
            M.oblige(s, t.FALSE, "exception " + rv.cls, "multiply")
            continue
        cl = s.mem[arr.oid].cells
        for i in range(8):
            M.oblige(s, t.eq(cl[32 + TEMP["p.mul"] + i], guard[i]), "write outside", "multiply")
        rd = lambda k: t.concat_lsb(cl[8 * k:8 * k + 8])
        out.append((s.pc, tuple(rd(k) for k in range(3)), rd(3)))
    return M, out


class Coef:
    """what multiple of the base point a triple stands for: an unsigned integer term with a bound"""

    def __init__(self, pts, w, G=False):
        self.pts, self.w, self.G = pts, w, G
        self.memo, self.tm = {}, {}

    def of(self, tr):
        return self.pts.walk(tr, self.leaf, self.join, self.memo)

    def join(self, cond, a, b):
        return t.ite(cond, a[0], b[0]), max(a[1], b[1])

    def leaf(self, l):
        if l[0] == "const":
            if l[1][0] == 0 and l[1][2] == 0 and l[1][1]:
                return c(0, self.w), 0
            if self.G and aff(l[1]) == cr.G:
                return c(1, self.w), 1
            raise Undecided("constant point")
        k = l[1]
        if k not in self.tm:
            self.tm[k] = self.token(k)
        return self.tm[k]

    def token(self, k):
        kind, args, _ = self.pts.tokens[k]
        if kind == "base":
            return c(1, self.w), 1
        if kind == "add":
            a, b = self.of(args[0]), self.of(args[1])
            u = a[1] + b[1]
            if u >> self.w:
                raise Undecided("multiple out of range")
            return t.add(a[0], b[0]), u
        raise Undecided(kind)


def check_pmul(ctx, rep, lang):
    import sys
    sys.setrecursionlimit(100000)
    label = "p.mul/" + lang
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    v = {"n": t.var("n", 256)}

    def line(p, n):
        if lang != "java":
            return " ".join(["p.mul"] + ["%064x" % x for x in p] + ["%064x" % n])
        w = "".join(words_hex(x) for x in list(p) + [n]) + "ffffffff" * TEMP["p.mul"] + "0badf00d" * 8
        return "C.multiply %s 0 18 20" % w

    def out(s):
        if s.startswith("!"):
            return None
        if lang != "java":
            f = [int(x, 16) for x in s.split()]
            return tuple(f[:3]), f[3]
        w = s.split()[1]
        words = [int(w[8 * i:8 * i + 8], 16) for i in range(len(w) // 8)]
        if words[-8:] != [0x0badf00d] * 8:
            return None
        q = [sum(words[8 * k + j] << 32 * j for j in range(8)) for k in range(4)]
        return tuple(q[:3]), q[3]

    def run(ns):
        smp = []
        for n in ns:
            p = rnd.choice([cr.G, rpoint(rnd), rpoint(rnd), None])
            if n in SPECIAL and p is None:
                p = cr.G
            smp.append((p, proj(p, rz(rnd), rz(rnd)), n))
        lines = [line(q, n) for _, q, n in smp]
        for (p, q, n), ln, g in zip(smp, lines, ctx.native(lang, lines)):
            w = cr.mul(n % N, p)
            r = out(g)
            if r is None or aff(r[0]) != w or r[1] != n:
                rep.violated("scalar multiplication", lang, ln, "a representation of " + show(w), g)
                return False
            rep.validated += 1
        return True
    SPECIAL = [0, 1, 2, 3, 8, 15, 16, 17, N - 1, N, N + 1, M256, 1 << 255, 0xFEDCBA9876543210 << 192, 0x123456789ABCDEF << 196 | 0xF0]
    if not run(SPECIAL + [sample(rnd, Param("n", 256)) for _ in range(6)]):
        return
    pts = fa.Points()
    bad = None
    try:
        mach, paths = encode_mul(ctx, lang, v, pts)
        rep.use(mach)
        rep.assume("group operations as decided by P01 (sum, double) on representations of points, taken as opaque elements; each is a multiple of the operand")
        W = 272
        C = Coef(pts, W)
        qs = []
        for i, (pcs, tr, n2) in enumerate(paths):
            co, ub = C.of(tr)
            n, od = t.zext(v["n"], W), c(N, W)
            same = [t.eq(co, n)]      # N*P is the identity: multiples are compared modulo N (both are below 2^256 < 2N)
            if co is not n:
                same += [t.eq(t.add(co, od), n), t.eq(co, t.add(n, od))]
            if ub > M256:
                raise Undecided("multiple out of range")
            qs.append(Q("%s: coefficient of the result is n #%d" % (label, i), list(pcs) + [t.bnot(t.disj(same))], 60))
            if n2 is not v["n"]:
                qs.append(Q("%s: n unchanged #%d" % (label, i), list(pcs) + [t.ne(n2, v["n"])], 60))
        qs.append(Q("%s: paths are exhaustive" % label, [t.bnot(t.disj([t.conj(list(p[0])) for p in paths]))], 30))
        solver.solve_many(qs, jobs=2)
        for q in qs:
            if q.result == "unsat":
                rep.claim(q.name, "proved", q.secs)
            else:
                bad = (q.name, q.result)
                if q.result == "sat":
                    if not run([q.env.get("n", 0)] * 3):
                        return
        if bad is None:
            solve_obligations(ctx, rep, mach, [], label)
    except (Undecided, Unsupported) as e:
        bad = (label, str(e))
    if bad:
        ns = []
        for i in range(64):
            for d in range(1, 16, 1 + i % 2):
                ns.append((d << 4 * i) | (rnd.getrandbits(4 * i) if i and rnd.random() < .5 else 0))
        rnd.shuffle(ns)
        if run(ns[:300 if ctx.quick else 1000]):
            rep.claim(bad[0], "undecided", 0, bad[1])


for _lang in ("cpp", "asm", "java"):
    @unit("p.mul/" + _lang, needs(_lang), lang=_lang, limit=300)
    def _u(ctx, rep, lang):
        check_pmul(ctx, rep, lang)


def check_pub(ctx, rep, lang):
    label = "p.pub/" + lang
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    pk = Param("k", 256, 1, N - 1)

    def run(ks):
        lines = ["p.pub %064x" % k for k in ks]
        for k, ln, g in zip(ks, lines, ctx.native(lang, lines)):
            w = "%064x %064x %064x" % (cr.mul(k, cr.G) + (1,))
            if g != w:
                rep.violated("public key of a private key", lang, ln, w, g)
                return False
            rep.validated += 1
        return True
    if not run([1, 2, 3, N - 1, N - 2, (N - 1) // 2, (N + 1) // 2, 1 << 255, (1 << 128) - 1] + [sample(rnd, pk) for _ in range(8)]):
        return
    v = {"k": pk.var()}
    pts = fa.Points()
    bad = None
    try:
        cx = Cpp(ctx, "ir" if lang == "cpp" else "ir_asm")
        cpp_uint(cx.mach)
        fa.cpp_points(cx.mach, pts, multiply=True)
        rep.use(cx.mach)
        st = cx.start()
        p = cx.buf(st, 96, "out", align=16)
        k = cx.obj(st, v["k"], "k", const=True)
        qs = []
        rets = cx.call("h_p_pub", [p, k], st)
        for s, _ in rets:
            tr = tuple(cx.read(s, p, 32, 32 * i) for i in range(3))

            def leaf(l):
                if l[0] != "tok":
                    raise Undecided("constant result")
                kind, args, _ = pts.tokens[l[1]]
                if kind != "norm":
                    raise Undecided("result is not normalized")

                def leaf2(m):
                    if m[0] == "tok" and pts.tokens[m[1]][0] == "mul":
                        b, n = pts.tokens[m[1]][1]
                        if pts.leaf(b)[0] == "const" and aff(pts.leaf(b)[1]) == cr.G:
                            return n
                    raise Undecided("not a multiple of the base point")
                return pts.walk(args[0], leaf2, t.ite)
            n = pts.walk(tr, leaf, t.ite)
            qs.append(Q("%s = normalized k*G" % label, list(s.pc) + [t.ne(n, v["k"])], 30))
        qs.append(Q("%s: paths are exhaustive" % label, [t.bnot(t.disj([t.conj(list(s.pc)) for s, _ in rets]))], 30))
        solver.solve_many(qs, jobs=2)
        for q in qs:
            if q.result == "unsat":
                rep.claim(q.name, "proved", q.secs)
            else:
                bad = (q.name, q.result)
                if q.result == "sat" and not run([q.env.get("k", 1)]):
                    return

        def on_cex(env, o):
            kk = env.get("k", 1)
            return not run([kk])
        if bad is None:
            solve_obligations(ctx, rep, cx.mach, [], label, on_cex)
    except (Undecided, Unsupported) as e:
        bad = (label, str(e))
    if bad:
        if run([sample(rnd, pk) for _ in range(300)]):
            rep.claim(bad[0], "undecided", 0, bad[1])


for _lang in ("cpp", "asm"):
    @unit("p.pub/" + _lang, needs(_lang), lang=_lang, limit=200)
    def _u(ctx, rep, lang):
        check_pub(ctx, rep, lang)
