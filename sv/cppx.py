"""Running the C++ harness entry points symbolically."""
from . import term as t, llvm
from .engine import Unsupported, Ptr


CONSTANTS = ["h_k_uzero", "h_k_uone", "h_k_order", "h_k_fizero", "h_k_fione", "h_k_a", "h_k_b", "h_k_g", "h_k_pzero"]


class Cpp:
    """One symbolic machine over one IR module, with statics initialised."""

    def __init__(self, ctx, modname="ir", feasibility=True, static=True, max_states=48):
        self.ctx = ctx
        self.m = ctx.module(modname)
        self.mach = llvm.LLVMMachine(self.m, feasibility=feasibility, max_states=max_states)
        self.modname = modname
        if modname.startswith("ir_asm"):
            from . import x86
            x86.plug(self.mach, ctx)
        st = self.mach.g0.fork()
        if static:
            st = llvm.init_statics(self.mach, st)
            self.mach.obligations = []
            self.mach.obkinds = {}
            self.mach.functions_used = set()
        self.base = st
        self.constants = None

    def start(self):
        return self.base.fork()

    def obj(self, st, term, name, const=False, align=16):
        p = self.mach.new_obj(st, term.w // 8, name, align=align)
        self.mach.write_term(st, p, term)
        if const:
            st.wobj(p.oid).const = True
        return p

    def buf(self, st, n, name, align=1):
        return self.mach.new_obj(st, n, name, align=align)

    def bytes_obj(self, st, terms, name, const=False):
        p = self.mach.new_obj(st, len(terms), name, align=1)
        o = st.wobj(p.oid)
        for i, b in enumerate(terms):
            o.cells[i] = (b, 0)
        if const:
            o.const = True
        return p

    def call(self, fn, args, st):
        name = "@" + fn
        if name not in self.m.funcs:
            raise Unsupported("no function " + fn)
        self.mach.steps = 0
        rets = self.mach.call(name, args, st)
        for s, _ in rets:
            self.check_constants(s, fn)
        return rets

    def check_constants(self, s, fn):
        """no call leaves a published constant changed"""
        if self.constants is None:
            self.constants = []
            for g in CONSTANTS:
                if "@" + g in self.m.funcs:
                    try:
                        r = self.mach.call("@" + g, [], self.base.fork())
                        self.constants.append(r[0][1].oid)
                    except (Unsupported, IndexError, AttributeError):
                        pass
        for oid in self.constants:
            o, b = s.mem.get(oid), self.base.mem.get(oid)
            if o is not b and o is not None and b is not None and o.cells != b.cells:
                self.mach.oblige(s, t.FALSE, "constant modified", fn)

    def read(self, st, p, n, off=0):
        from .engine import Ptr
        return self.mach.read_term(st, Ptr(p.oid, t.add(p.off, t.const(off, 64))), n)

    def global_term(self, fn, n):
        """the object returned by a constant accessor"""
        st = self.start()
        r = self.call(fn, [], st)
        return self.read(r[0][0], r[0][1], n)

    def simple(self, fn, args, v, outs, alias=()):
        """args: list of (mode, param): 'io'/'in' pointers to a term, 'val' by value, 'out:N' an output buffer.
        outs: list of output descriptors: 'ret' or the parameter name. alias: dict param -> param sharing storage."""
        st = self.start()
        ptrs = {}
        actual = []
        alias = dict(alias)
        for mode, p in args:
            if mode == "val":
                actual.append(v[p])
            elif mode.startswith("out:"):
                n = int(mode[4:])
                ptrs[p] = (self.buf(st, n, p), n)
                actual.append(ptrs[p][0])
            elif p in alias:
                ptrs[p] = ptrs[alias[p]]
                actual.append(ptrs[p][0])
            else:
                ptrs[p] = (self.obj(st, v[p], p, const=(mode == "in")), v[p].w // 8)
                actual.append(ptrs[p][0])
        rets = self.call(fn, actual, st)
        paths = []
        for s, rv in rets:
            o = []
            for d in outs:
                if d == "ret":
                    o.append(rv)
                else:
                    p, n = ptrs[d]
                    o.append(self.read(s, p, n))
            paths.append((s.pc, o))
        return self.mach, paths
