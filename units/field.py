"""Field arithmetic modulo p in C++ (portable, assembly-backed) and Java."""
import random
from sv import term as t, solver
from sv.engine import Unsupported
from sv.frame import unit
from sv.lia import Lia
from sv.ops import Op, Param, check_op, validate, replay, solve_obligations, P, M256, sample, fill
from sv.cppx import Cpp
from sv.javax import JOp
from sv.contracts import cpp_uint, java_uint
from sv.solver import Q
from units.juint import PF, QF, faddspec, fsubspec, modp, JOPS, I

c = t.const


def mulspec(x, y):
    return t.trunc(t.urem(t.mul(t.zext(x, 512), t.zext(y, 512)), c(P, 512)), 256)


def near_inverse(rnd, vals):
    """pairs whose product lies just above a multiple of p"""
    x = vals["x"] or 1
    k = rnd.choice([1, 2, 3, rnd.randrange(1, 1 << 16), rnd.randrange(1, 1 << 33), rnd.randrange(1, 1 << 62), P - 1, P - 2, P - rnd.randrange(1, 1 << 33), (1 << 32) + 976, (1 << 32) + 977, (1 << 32) + 978, (1 << 256) % P * 2])
    return {"y": k * pow(x, -1, P) % P}


def extremes(rnd, vals):
    e = [0, 1, 2, P - 1, P - 2, P - 977, P - (1 << 32), 1 << 255, (1 << 255) + 1, (P - 1) // 2, (P + 1) // 2, M256 - (1 << 32) - 978, (1 << 224) - 1, M256 ^ ((1 << 64) - 1), 0xFFFFFFFF << 224, 1 << 128, (1 << 128) - 1]
    r = {"x": rnd.choice(e)}
    if "y" in vals:
        r["y"] = rnd.choice(e)
    return r


OPS = {}
OPS["f.add"] = Op("f.add", [PF, QF], ["x", "y"], lambda v: {"x": faddspec(v["x"], v["y"]), "y": v["y"]}, special=[extremes])
OPS["f.sub"] = Op("f.sub", [PF, QF], ["x", "y"], lambda v: {"x": fsubspec(v["x"], v["y"]), "y": v["y"]}, special=[extremes])
OPS["f.dbl"] = Op("f.dbl", [PF], ["x"], lambda v: {"x": faddspec(v["x"], v["x"])}, special=[extremes])
OPS["f.new"] = Op("f.new", [Param("x", 256)], ["r"], lambda v: {"r": modp(v["x"])}, special=[lambda r, v: {"x": P + r.choice([0, 1, -1, 976, (1 << 32) + 976, r.getrandbits(32)])}])
OPS["f.replace"] = Op("f.replace", [PF, QF, Param("en", 32, 0, 1)], ["x", "y"], lambda v: {"x": t.ite(t.eq(v["en"], c(1, 32)), v["y"], v["x"]), "y": v["y"]})
OPS["u.fromfield"] = Op("u.fromfield", [PF], ["r"], lambda v: {"r": v["x"]})
RUN = {
    "f.add": ("h_f_add", [("io", "x"), ("in", "y")], ["x", "y"]),
    "f.sub": ("h_f_sub", [("io", "x"), ("in", "y")], ["x", "y"]),
    "f.dbl": ("h_f_dbl", [("io", "x")], ["x"]),
    "f.new": ("h_f_new", [("out:32", "r"), ("in", "x")], ["r"]),
    "f.replace": ("h_f_replace", [("io", "x"), ("in", "y"), ("val", "en")], ["x", "y"]),
    "u.fromfield": ("h_u_fromfield", [("out:32", "r"), ("in", "x")], ["r"]),
}
for _lang, _mod in (("cpp", "ir"), ("asm", "ir_asm")):
    for _n in RUN:
        @unit("%s/%s" % (_n, _lang), [_mod, _lang] + (["asmobj"] if _lang == "asm" else []), n=_n, lang=_lang, mod=_mod)
        def _u(ctx, rep, n, lang, mod):
            def go(v):
                cx = Cpp(ctx, mod)
                cpp_uint(cx.mach)
                fn, args, outs = RUN[n]
                return cx.simple(fn, args, v, outs)
            check_op(ctx, rep, OPS[n], lang, go)

# ---------------------------------------------------------------- multiplication

OPS["f.mul"] = Op("f.mul", [PF, QF], ["x", "y"], lambda v: {"x": mulspec(v["x"], v["y"]), "y": v["y"]}, special=[near_inverse, extremes])
OPS["f.mulself"] = Op("f.mulself", [PF], ["x"], lambda v: {"x": mulspec(v["x"], v["x"])}, special=[extremes])
OPS["f.sqr"] = Op("f.sqr", [PF], ["x"], lambda v: {"x": mulspec(v["x"], v["x"])}, special=[extremes])
for _s, (_a, _b, _d) in {"": ("x", "y", "z"), ".zx": ("x", "y", "x"), ".zy": ("x", "y", "y"), ".xy": ("x", "x", "z"), ".xyz": ("x", "x", "x")}.items():
    _l = ["g0", "x"] + (["y"] if "y" in (_a, _b, _d) else []) + (["z"] if _d == "z" else []) + ["g1", "_t0", "_t1", "_t2", "_t3", "_t4", "g2"]
    _ps = [PF] + ([QF] if "y" in _l else [])
    OPS["j.fieldMultiply" + _s] = JOp("j.fieldMultiply" + _s, I, "fieldMultiply", _l, [_a, _b, _d, "_t0"], _ps,
                                      lambda v, a=_a, b=_b, d=_d: {d: mulspec(v[a], v[b])}, has_ret=False, special=[near_inverse, extremes] if "y" in _l else [extremes])
for _s, _d in {"": "z", ".zx": "x"}.items():
    _l = ["g0", "x"] + (["z"] if _d == "z" else []) + ["g1", "_t0", "_t1", "_t2", "_t3", "_t4", "g2"]
    OPS["j.fieldSquare" + _s] = JOp("j.fieldSquare" + _s, I, "fieldSquare", _l, ["x", _d, "_t0"], [PF], lambda v, d=_d: {d: mulspec(v["x"], v["x"])}, has_ret=False, special=[extremes])


def encode_mul(ctx, name, lang, v):
    op = OPS[name]
    if lang == "java":
        return op.run(ctx, java_uint)(v)
    cx = Cpp(ctx, "ir" if lang == "cpp" else "ir_asm")
    cpp_uint(cx.mach)
    if name == "f.mul":
        return cx.simple("h_f_mul", [("io", "x"), ("in", "y")], v, ["x", "y"])
    if name == "f.sqr":
        return cx.simple("h_f_sqr", [("io", "x")], v, ["x"])
    return cx.simple("h_f_mul", [("io", "x"), ("io", "y")], v, ["x"], {"y": "x"})


def check_mul(ctx, rep, name, lang):
    op = OPS[name]
    label = "%s/%s" % (name, lang)
    v = op.vars()
    two = "y" in v
    try:
        mach, paths = encode_mul(ctx, name, lang, v)
    except Unsupported as e:
        rep.claim(label, "undecided", 0, "not encoded: %s" % e)
        validate(ctx, rep, op, lang, None, n=1500)
        return
    rep.use(mach)
    if not validate(ctx, rep, op, lang, paths, n=30) and rep.violations:
        return
    rep.bound("products of 32-bit words are unconstrained integers in [0, (2^32-1)^2] whose weighted sum is at most (p-1)^2")
    k = 2 if lang == "asm" else 1      # word size of the multiplier
    n, w = 8 // k, 32 * k
    xs = [t.var("x%d" % i, w) for i in range(n)]
    ys = [t.var("y%d" % i, w) for i in range(n)] if two else xs
    sub = {v["x"]: t.concat_lsb(xs)}
    if two:
        sub[v["y"]] = t.concat_lsb(ys)
    flat = []
    for pc, outs in paths:
        flat += list(pc) + list(outs)
    obs = list({(o.pc, o.cond): o for o in mach.obligations}.values())
    for o in obs:
        flat += list(o.pc) + [o.cond]
    sp = op.spec(v)
    flat += [sp[o] for o in op.outs]
    flat = t.substitute(flat, sub)
    it = iter(flat)
    take = lambda m: [next(it) for _ in range(m)]
    paths = [(take(len(pc)), take(len(outs))) for pc, outs in paths]
    obl = [(take(len(o.pc)), take(1)[0], o) for o in obs]
    spec = dict(zip(op.outs, take(len(op.outs))))
    dest = [o for o in op.outs if o != "ret" and spec[o].op in ("extract", "urem", "concat") and has_urem(spec[o])]
    L = Lia()
    Tm = L.comb(0, [(1 << w * (i + j), L.form(t.mul(t.zext(xs[i], 2 * w), t.zext(ys[j], 2 * w)))) for i in range(n) for j in range(n)])
    TA = L.atom("T", 0, (P - 1) ** 2)
    a0 = [a for a in Tm.d if Tm.d[a] == 1][0]
    d0 = {a: -x for a, x in Tm.d.items() if a != a0}
    d0[next(iter(TA.d))] = 1
    L.sub[a0] = L.mk(0, d0)
    bad = []

    def ask(what, goal, meta=None):
        r = L.check(goal, 40 if ctx.quick else 200)
        if r == "unsat":
            rep.claim(what, "proved", L.secs)
            return True
        tv = None
        if r == "sat":
            tv = L.values[next(iter(TA.d))]
        bad.append((what, r, tv))
        return False
    for i, (pc, outs) in enumerate(paths):
        pcz = lambda pc=pc: [L.cond(x) for x in pc]
        for o, R in zip(op.outs, outs):
            if o not in dest:
                if R is spec[o]:
                    rep.claim("%s.%s#%d" % (label, o, i), "proved")
                else:
                    q = Q("%s.%s#%d" % (label, o, i), list(pc) + [t.bnot(t.eq(R, spec[o]))], 20)
                    solver.solve_many([q])
                    if q.result == "unsat":
                        rep.claim(q.name, "proved", q.secs)
                    else:
                        bad.append((q.name, q.result, None))
                continue
            F = L.form(R)
            ask("%s.%s#%d is reduced" % (label, o, i), lambda: pcz() + [L.z(F) >= P])
            D = L.comb(0, [(1, Tm), (-1, F)])
            E, exact = L.modular(D, P)
            if E is None:
                rep.claim("%s.%s#%d = x*y mod p" % (label, o, i), "proved")
            elif not exact or E.lo == E.hi:
                rep.notes.append(L.describe(D))
                bad.append(("%s.%s#%d = x*y mod p" % (label, o, i), "not comparable (%d..%d)" % (E.lo, E.hi), None))
            else:
                ask("%s.%s#%d = x*y mod p (+)" % (label, o, i), lambda: pcz() + [L.z(E) >= 1])
                ask("%s.%s#%d = x*y mod p (-)" % (label, o, i), lambda: pcz() + [L.z(E) <= -1])
    import z3
    left = 0
    for pc, cond, o in obl:
        if cond is t.TRUE:
            continue
        try:
            ok = L.check(lambda: [L.cond(x) for x in pc] + [z3.Not(L.cond(cond))], 20) == "unsat"
        except Exception as e:      # noqa
            ok = False
        if not ok:
            left += 1
            bad.append(("%s: %s in %s" % (label, o.kind, o.where), "not proved", None))
    if not left:
        rep.claim("%s: %d safety conditions (%d by solver)" % (label, sum(mach.obkinds.values()), len(obl)), "proved")
    if bad:
        falsify(ctx, rep, op, lang, bad, two)
        for what, r, _ in bad:
            rep.claim(what, "undecided", 0, r)


def has_urem(x):
    return any(y.op == "urem" for y in t.postorder([x]))


def falsify(ctx, rep, op, lang, bad, two):
    """realises product-level counterexamples: operands whose product has the residue of the model"""
    rnd = random.Random(ctx.seed)
    cands = []
    for what, r, tv in bad:
        if tv is not None:
            for _ in range(60):
                if two:
                    x = sample(rnd, PF) or 1
                    cands.append({"x": x, "y": tv % P * pow(x, -1, P) % P})
                else:
                    q = tv % P
                    s = pow(q, (P + 1) // 4, P)
                    cands += [{"x": s}, {"x": P - s}]
    base = op.samples(rnd, 1500)
    cands = [dict(base[i % len(base)], **cv) for i, cv in enumerate(cands)] + base
    validate(ctx, rep, op, lang, None, n=0, extra=[x for x in cands if op.ok_pre(x)])


for _n in ("f.mul", "f.mulself", "f.sqr"):
    for _lang, _mod in (("cpp", "ir"), ("asm", "ir_asm")):
        @unit("%s/%s" % (_n, _lang), [_mod, _lang] + (["asmobj"] if _lang == "asm" else []), n=_n, lang=_lang, limit=240)
        def _u(ctx, rep, n, lang):
            check_mul(ctx, rep, n, lang)
for _n in [k for k in OPS if k.startswith("j.fieldMultiply") or k.startswith("j.fieldSquare")]:
    @unit(_n, ["java"], n=_n, limit=240)
    def _u(ctx, rep, n):
        check_mul(ctx, rep, n, "java")
