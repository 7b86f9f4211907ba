"""256-bit integers: operations, comparisons, conversions (C++ and assembly-backed C++)."""
from sv import term as t
from sv.frame import unit
from sv.ops import Op, Param, check_op, P, N
from sv.cppx import Cpp

c = t.const


def B2(b, w=32):
    return t.zext(b, w)


def U(n):
    return Param(n, 256)


EN = Param("en", 32, 0, 1)


def addspec(x, y, en):
    s = t.add(t.zext(x, 257), t.ite(t.eq(en, c(1, 32)), t.zext(y, 257), c(0, 257)))
    return t.trunc(s, 256), t.zext(t.extract(s, 256, 256), 32)


def subspec(x, y, en):
    s = t.sub(t.zext(x, 257), t.ite(t.eq(en, c(1, 32)), t.zext(y, 257), c(0, 257)))
    return t.trunc(s, 256), t.zext(t.extract(s, 256, 256), 32)


def on(v):
    return t.eq(v["en"], c(1, 32))


def mk(name, params, outs, spec, **kw):
    OPS[name] = Op(name, params, outs, spec, **kw)


OPS = {}
mk("u.add", [U("x"), U("y"), EN], ["x", "c", "y"], lambda v: dict(zip("xcy", (*addspec(v["x"], v["y"], v["en"]), v["y"]))))
mk("u.sub", [U("x"), U("y"), EN], ["x", "c", "y"], lambda v: dict(zip("xcy", (*subspec(v["x"], v["y"], v["en"]), v["y"]))))
mk("u.shl1", [U("x")], ["x", "c"], lambda v: {"x": t.shl(v["x"], c(1, 256)), "c": t.zext(t.extract(v["x"], 255, 255), 32)})
mk("u.shr1", [U("x"), EN], ["x"], lambda v: {"x": t.ite(on(v), t.lshr(v["x"], c(1, 256)), v["x"])})
mk("u.replace", [U("x"), U("y"), EN], ["x", "y"], lambda v: {"x": t.ite(on(v), v["y"], v["x"]), "y": v["y"]})
mk("u.swap", [U("x"), U("y"), EN], ["x", "y"], lambda v: {"x": t.ite(on(v), v["y"], v["x"]), "y": t.ite(on(v), v["x"], v["y"])})
mk("u.replaceself", [U("x"), EN], ["x"], lambda v: {"x": v["x"]})
mk("u.swapself", [U("x"), EN], ["x"], lambda v: {"x": v["x"]})


def cmpspec(x, y):
    e, l, g = t.eq(x, y), t.ult(x, y), t.ult(y, x)
    return {"eq": B2(e), "ne": B2(t.bnot(e)), "lt": B2(l), "le": B2(t.bnot(g)), "gt": B2(g), "ge": B2(t.bnot(l))}


CMPS = ["eq", "ne", "lt", "le", "gt", "ge"]


def near(rnd, vals):
    """make y close to x"""
    x = vals["x"]
    k = rnd.randrange(4)
    if k == 0:
        return {"y": x}
    if k == 1:
        return {"y": x ^ (1 << rnd.randrange(256))}
    if k == 2:
        return {"y": (x + rnd.choice([1, -1])) % (1 << 256)}
    i = rnd.randrange(8)
    return {"y": x ^ (rnd.getrandbits(32) << (32 * i))}


mk("u.cmp", [U("x"), U("y")], CMPS + ["x", "y"], lambda v: dict(cmpspec(v["x"], v["y"]), x=v["x"], y=v["y"]), special=[near])
mk("u.cmpself", [U("x")], CMPS, lambda v: cmpspec(v["x"], v["x"]))
PF = Param("x", 256, 0, P - 1)
QF = Param("y", 256, 0, P - 1)
mk("f.cmp", [PF, QF], CMPS, lambda v: cmpspec(v["x"], v["y"]), special=[near])

CPP = {
    "u.add": [("h_u_add", [("io", "x"), ("in", "y"), ("val", "en")], ["x", "ret", "y"], {})],
    "u.sub": [("h_u_sub", [("io", "x"), ("in", "y"), ("val", "en")], ["x", "ret", "y"], {})],
    "u.shl1": [("h_u_shl1", [("io", "x")], ["x", "ret"], {})],
    "u.shr1": [("h_u_shr1", [("io", "x"), ("val", "en")], ["x"], {})],
    "u.replace": [("h_u_replace", [("io", "x"), ("in", "y"), ("val", "en")], ["x", "y"], {})],
    "u.swap": [("h_u_swap", [("io", "x"), ("io", "y"), ("val", "en")], ["x", "y"], {})],
    "u.replaceself": [("h_u_replace", [("io", "x"), ("io", "y"), ("val", "en")], ["x"], {"y": "x"})],
    "u.swapself": [("h_u_swap", [("io", "x"), ("io", "y"), ("val", "en")], ["x"], {"y": "x"})],
}


def run_cpp(ctx, mod, op):
    def go(v):
        cx = Cpp(ctx, mod)
        fn, args, outs, alias = CPP[op.name][0]
        return cx.simple(fn, args, v, outs, alias)
    return go


def run_cmp(ctx, mod, op, fns, alias):
    """all six comparisons in one encoding"""
    def go(v):
        cx = Cpp(ctx, mod)
        st = cx.start()
        px = cx.obj(st, v["x"], "x", const=True)
        py = px if alias else cx.obj(st, v["y"], "y", const=True)
        states = [(st, [])]
        for k in CMPS:
            nxt = []
            for s, acc in states:
                for s2, rv in cx.call(fns + k, [px, py], s):
                    nxt.append((s2, acc + [rv]))
            states = nxt
        paths = []
        for s, acc in states:
            o = acc
            if op.name == "u.cmp":
                o = acc + [cx.read(s, px, 32), cx.read(s, py, 32)]
            paths.append((s.pc, o))
        return cx.mach, paths
    return go


for _lang, _mod in (("cpp", "ir"), ("asm", "ir_asm")):
    _needs = [_mod, _lang] + (["asmobj"] if _lang == "asm" else [])
    for _n in CPP:
        @unit("%s/%s" % (_n, _lang), _needs, op=OPS[_n], lang=_lang, mod=_mod)
        def _u(ctx, rep, op, lang, mod):
            check_op(ctx, rep, op, lang, run_cpp(ctx, mod, op))
    for _n, _f, _al in (("u.cmp", "h_u_", False), ("u.cmpself", "h_u_", True), ("f.cmp", "h_f_", False)):
        @unit("%s/%s" % (_n, _lang), _needs, op=OPS[_n], lang=_lang, mod=_mod, f=_f, al=_al)
        def _u(ctx, rep, op, lang, mod, f, al):
            check_op(ctx, rep, op, lang, run_cmp(ctx, mod, op, f, al))
