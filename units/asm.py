"""Direct contracts of the assembly routines: arbitrary upper argument bits, 4-byte aligned operands,
callee-saved registers, stack, exact memory footprint."""
from sv import term as t, x86, llvm
from sv.engine import Unsupported
from sv.frame import unit
from sv.ops import Op, Param, check_op, fmt
from sv.llvmir import parse_module
from units.uint import addspec, subspec, cmpspec, near

c = t.const
U = lambda n: Param(n, 256)
# the enable argument as the whole 64-bit register: only its low 32 bits are defined by the ABI
ENR = Param("enr", 64)


def memhex(v, nbytes):
    return v.to_bytes(nbytes, "little").hex()


class AsmOp(Op):
    """args: list of ('m', param, writable) / ('v', param) / ('=', index)"""

    def __init__(self, name, fn, params, args, outs, spec, retbits, **kw):
        Op.__init__(self, name, params + [Param("pad", 8, 0, 3)], outs, spec, **kw)
        self.fn, self.args, self.retbits = fn, args, retbits

    def line(self, vals):
        r = [self.fn, str(4 * vals["pad"])]
        for a in self.args:
            if a[0] == "m":
                p = [q for q in self.params if q.name == a[1]][0]
                r.append("m:" + memhex(vals[a[1]], p.w // 8))
            elif a[0] == "v":
                r.append("v:%x" % vals[a[1]])
            else:
                r.append("=%d" % a[1])
        return " ".join(r)

    def parse(self, s):
        w = s.split()
        if w[-1] != "ok":
            raise ValueError
        out = []
        for x in w[1:-1]:
            out.append(int.from_bytes(bytes.fromhex(x), "little"))
        if self.retbits:
            out.append(int(w[0], 16) & ((1 << self.retbits) - 1))
        return out


def low_en(v):
    return [t.ult(t.trunc(v["enr"], 32), c(2, 32))]


def onr(v):
    return t.eq(t.trunc(v["enr"], 32), c(1, 32))


def fixen(rnd, vals):
    return {"enr": (rnd.choice([0, 0xFFFFFFFF00000000, rnd.getrandbits(32) << 32, 1 << 32, 1 << 63])) | rnd.randint(0, 1)}


def en32(v):
    return t.trunc(v["enr"], 32)


X, Y = ("m", "x", True), ("m", "y", False)
V = ("v", "enr")
OPS = {}


def mk(name, fn, params, args, outs, spec, retbits=0, **kw):
    OPS[name] = AsmOp(name, fn, params, args, outs, spec, retbits, **kw)


mk("asm.add", "asm_Uint256_add", [U("x"), U("y"), ENR], [X, Y, V], ["x", "y", "c"],
   lambda v: dict(zip("xcy", (*addspec(v["x"], v["y"], en32(v)), v["y"]))), 32, pre=low_en, special=[fixen])
mk("asm.subtract", "asm_Uint256_subtract", [U("x"), U("y"), ENR], [X, Y, V], ["x", "y", "c"],
   lambda v: dict(zip("xcy", (*subspec(v["x"], v["y"], en32(v)), v["y"]))), 32, pre=low_en, special=[fixen])
mk("asm.shiftLeft1", "asm_Uint256_shiftLeft1", [U("x")], [X], ["x", "c"],
   lambda v: {"x": t.shl(v["x"], c(1, 256)), "c": t.zext(t.extract(v["x"], 255, 255), 32)}, 32)
mk("asm.shiftRight1", "asm_Uint256_shiftRight1", [U("x"), ENR], [X, V], ["x"],
   lambda v: {"x": t.ite(onr(v), t.lshr(v["x"], c(1, 256)), v["x"])}, pre=low_en, special=[fixen])
mk("asm.replace", "asm_Uint256_replace", [U("x"), U("y"), ENR], [X, Y, V], ["x", "y"],
   lambda v: {"x": t.ite(onr(v), v["y"], v["x"]), "y": v["y"]}, pre=low_en, special=[fixen])
mk("asm.replace.alias", "asm_Uint256_replace", [U("x"), ENR], [X, ("=", 0), V], ["x"], lambda v: {"x": v["x"]}, pre=low_en, special=[fixen])
mk("asm.swap", "asm_Uint256_swap", [U("x"), U("y"), ENR], [X, ("m", "y", True), V], ["x", "y"],
   lambda v: {"x": t.ite(onr(v), v["y"], v["x"]), "y": t.ite(onr(v), v["x"], v["y"])}, pre=low_en, special=[fixen])
mk("asm.swap.alias", "asm_Uint256_swap", [U("x"), ENR], [X, ("=", 0), V], ["x"], lambda v: {"x": v["x"]}, pre=low_en, special=[fixen])
XR = ("m", "x", False)
mk("asm.equalTo", "asm_Uint256_equalTo", [U("x"), U("y")], [XR, Y], ["x", "y", "c"],
   lambda v: {"x": v["x"], "y": v["y"], "c": t.zext(t.eq(v["x"], v["y"]), 8)}, 8, special=[near])
mk("asm.equalTo.alias", "asm_Uint256_equalTo", [U("x")], [XR, ("=", 0)], ["x", "c"], lambda v: {"x": v["x"], "c": c(1, 8)}, 8)
mk("asm.lessThan", "asm_Uint256_lessThan", [U("x"), U("y")], [XR, Y], ["x", "y", "c"],
   lambda v: {"x": v["x"], "y": v["y"], "c": t.zext(t.ult(v["x"], v["y"]), 8)}, 8, special=[near])
mk("asm.lessThan.alias", "asm_Uint256_lessThan", [U("x")], [XR, ("=", 0)], ["x", "c"], lambda v: {"x": v["x"], "c": c(0, 8)}, 8)


def run_asm(ctx, op):
    def go(v):
        mach = llvm.LLVMMachine(parse_module("target datalayout = \"e\"\n"))
        prog = x86.Program(ctx.asm_obj())
        st = mach.g0.fork()
        ptrs = []
        for a in op.args:
            if a[0] == "m":
                p = mach.new_obj(st, v[a[1]].w // 8, a[1], align=4)
                mach.write_term(st, p, v[a[1]])
                if not a[2]:
                    st.wobj(p.oid).const = True
                ptrs.append(p)
            elif a[0] == "v":
                ptrs.append(v[a[1]])
            else:
                ptrs.append(ptrs[a[1]])
        paths = []
        for s, rax in x86.invoke(mach, prog, op.fn, ptrs, st):
            outs = []
            for a, p in zip(op.args, ptrs):
                if a[0] == "m":
                    outs.append(mach.read_term(s, p, v[a[1]].w // 8))
            if op.retbits:
                if not isinstance(rax, t.T):
                    rax = mach.ptr_int(rax)
                outs.append(t.trunc(rax, op.retbits))
            paths.append((s.pc, outs))
        return mach, paths
    return go


for _n in OPS:
    @unit(_n, ["asmobj", "asmcall"], op=OPS[_n])
    def _u(ctx, rep, op):
        check_op(ctx, rep, op, "asmcall", run_asm(ctx, op))
