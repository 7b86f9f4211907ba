"""Java 256-bit integers: arithmetic, comparison (Int256Math)."""
from sv import term as t
from sv.frame import unit
from sv.ops import Param, check_op, P
from sv.javax import JOp
from sv.contracts import java_uint
from units.uint import addspec, subspec, near, on, EN

c = t.const
U = lambda n: Param(n, 256)
JOPS = {}


def reg(op, limit=120, prepare=None):
    JOPS[op.name] = op

    @unit(op.name, ["java"], limit=limit, op=op)
    def _u(ctx, rep, op):
        check_op(ctx, rep, op, "java", op.run(ctx, prepare))
    return op


I = "Int256Math"
one = c(1, 32)


def b32(b):
    return t.zext(b, 32)


# three-operand operations with every aliasing of x, y and z; a guard region on both sides
ALIAS3 = {"": ("x", "y", "z"), ".zx": ("x", "y", "x"), ".zy": ("x", "y", "y"), ".xy": ("x", "x", "z"), ".xyz": ("x", "x", "x")}
for sfx, (a, b, d) in ALIAS3.items():
    lay = ["g0", "x"] + (["y"] if "y" in (a, b, d) else []) + (["z"] if d == "z" else []) + ["g1"]
    for m, sp in (("uintAdd", addspec), ("uintSubtract", subspec)):
        def spec(v, a=a, b=b, d=d, sp=sp):
            r, cy = sp(v[a], v[b], v["en"])
            return {d: r, "ret": cy}
        reg(JOp("j.%s%s" % (m, sfx), I, m, lay, [a, b, "en", d], [EN], spec))
for sfx, d in (("", "z"), (".zx", "x")):
    lay = ["g0", "x"] + (["z"] if d == "z" else []) + ["g1"]
    reg(JOp("j.uintShiftLeft1" + sfx, I, "uintShiftLeft1", lay, ["x", d], [], lambda v, d=d: {d: t.shl(v["x"], c(1, 256)), "ret": b32(t.extract(v["x"], 255, 255))}))
    reg(JOp("j.uintShiftRight1" + sfx, I, "uintShiftRight1", lay, ["x", "en", d], [EN], lambda v, d=d: {d: t.ite(on(v), t.lshr(v["x"], c(1, 256)), v["x"])}, has_ret=False))
for sfx, (a, b) in {"": ("x", "y"), ".xy": ("x", "x")}.items():
    lay = ["g0", "x"] + (["y"] if b == "y" else []) + ["g1"]
    reg(JOp("j.replace" + sfx, I, "replace", lay, [a, b, "en"], [EN], lambda v, a=a, b=b: {a: t.ite(on(v), v[b], v[a])}, has_ret=False))
    reg(JOp("j.swap" + sfx, I, "swap", lay, [a, b, "en"], [EN], lambda v, a=a, b=b: {b: t.ite(on(v), v[a], v[b]), a: t.ite(on(v), v[b], v[a])}, has_ret=False))
    sp = [near] if b == "y" else []
    reg(JOp("j.equalTo" + sfx, I, "equalTo", lay, [a, b], [], lambda v, a=a, b=b: {"ret": b32(t.eq(v[a], v[b]))}, special=sp))
    reg(JOp("j.lessThan" + sfx, I, "lessThan", lay, [a, b], [], lambda v, a=a, b=b: {"ret": b32(t.ult(v[a], v[b]))}, special=sp))


def zeroish(rnd, vals):
    return {"x": rnd.choice([0, 0, 1 << rnd.randrange(256)])}


reg(JOp("j.isZero", I, "isZero", ["g0", "x", "g1"], ["x"], [], lambda v: {"ret": b32(t.eq(v["x"], c(0, 256)))}, special=[zeroish]))
PF = Param("x", 256, 0, P - 1)
QF = Param("y", 256, 0, P - 1)
p257 = c(P, 257)


def modp(s):
    return t.trunc(t.ite(t.ult(s, c(P, s.w)), s, t.sub(s, c(P, s.w))), 256)


def faddspec(x, y):
    return modp(t.add(t.zext(x, 257), t.zext(y, 257)))


def fsubspec(x, y):
    return t.ite(t.ult(x, y), t.add(t.sub(x, y), c(P, 256)), t.sub(x, y))


for sfx, (a, b, d) in ALIAS3.items():
    lay = ["g0", "x"] + (["y"] if "y" in (a, b, d) else []) + (["z"] if d == "z" else []) + ["g1", "_t"] + ["g2"]
    ps = [PF] + ([QF] if "y" in lay else [])
    reg(JOp("j.fieldAdd" + sfx, I, "fieldAdd", lay, [a, b, d, "_t"], ps, lambda v, a=a, b=b, d=d: {d: faddspec(v[a], v[b])}, has_ret=False), prepare=java_uint)
    reg(JOp("j.fieldSubtract" + sfx, I, "fieldSubtract", lay, [a, b, d, "_t"], ps, lambda v, a=a, b=b, d=d: {d: fsubspec(v[a], v[b])}, has_ret=False), prepare=java_uint)
for sfx, d in (("", "z"), (".zx", "x")):
    lay = ["g0", "x"] + (["z"] if d == "z" else []) + ["g1", "_t", "g2"]
    reg(JOp("j.fieldMultiply2" + sfx, I, "fieldMultiply2", lay, ["x", d, "_t"], [PF], lambda v, d=d: {d: faddspec(v["x"], v["x"])}, has_ret=False), prepare=java_uint)
