"""Operations of the int[]-based Java classes: layouts of 8-word regions, aliasing, frame conditions."""
from . import term as t
from .ops import Op, Param, check_op
from .jvm import Java, JExc
from .engine import Unsupported

c = t.const


def words_hex(v, n=8):
    return "".join("%08x" % (v >> 32 * i & 0xFFFFFFFF) for i in range(n))


class JOp(Op):
    """A static method over one int[]: `layout` names the 8-word regions in order (parameters, or temporaries
    starting with '_'); `args` are region names (passed as offsets) or scalar parameter names.
    spec(v) -> dict region/'ret' -> term; regions not mentioned and not temporary must be unchanged."""

    def __init__(self, name, cls, method, layout, args, params, spec, outs=(), has_ret=True, pre=None, special=None, tempinit=True):
        self.cls, self.method, self.layout, self.args = cls, method, layout, args
        self.has_ret = has_ret
        ps = list(params)
        known = {p.name for p in ps}
        for r in layout:
            if r not in known:
                ps.append(Param(r, 256))
        o = (["ret"] if has_ret else []) + [r for r in layout if not r.startswith("_")]

        def full(v):
            d = dict(spec(v))
            for r in layout:
                if not r.startswith("_") and r not in d:
                    d[r] = v[r]
            return d
        Op.__init__(self, name, ps, o, full, pre, special)

    def line(self, vals):
        s = "".join(words_hex(vals[r]) for r in self.layout)
        a = []
        for x in self.args:
            if x in self.layout:
                a.append("%x" % (8 * self.layout.index(x)))
            elif isinstance(x, int):
                a.append("%x" % x)
            else:
                a.append("%x" % vals[x])
        return " ".join([("I." if self.cls == "Int256Math" else "C.") + self.method, s] + a)

    def parse(self, s):
        ret, w = s.split()
        res = [int(ret, 16)] if self.has_ret else []
        for i, r in enumerate(self.layout):
            if r.startswith("_"):
                continue
            x = 0
            for k in range(8):
                x |= int(w[64 * i + 8 * k:64 * i + 8 * k + 8], 16) << (32 * k)
            res.append(x)
        return res

    def setup(self, J, v):
        M = J.mach
        st = J.start()
        cells = []
        for r in self.layout:
            cells += M.words(st, v[r])
        arr = M.ints(st, cells)
        actual = [arr]
        for x in self.args:
            if x in self.layout:
                actual.append(c(8 * self.layout.index(x), 32))
            elif isinstance(x, int):
                actual.append(c(x, 32))
            else:
                actual.append(v[x])
        return st, arr, actual

    def read(self, st, arr):
        cells = st.mem[arr.oid].cells
        return {r: t.concat_lsb(cells[8 * i:8 * i + 8]) for i, r in enumerate(self.layout)}

    def run(self, ctx, prepare=None, **kw):
        def go(v):
            J = Java(ctx, **kw)
            if prepare:
                prepare(J.mach)
            st, arr, actual = self.setup(J, v)
            desc = "([I%s)" % ("I" * len(self.args))
            rets = [m for (n, d), m in J.mach.classes[J.mach.short[self.cls]].methods.items() if n == self.method and d.startswith(desc)]
            if len(rets) != 1:
                raise Unsupported("no method %s.%s%s" % (self.cls, self.method, desc))
            paths = []
            for s, rv in J.mach.call(self.cls, self.method, actual, st, desc=rets[0].desc):
                if isinstance(rv, JExc):
                    # no exception is allowed for permitted operands
                    J.mach.oblige(s, t.FALSE, "exception " + rv.cls, self.method)
                    continue
                rd = self.read(s, arr)
                o = ([rv] if self.has_ret else []) + [rd[r] for r in self.layout if not r.startswith("_")]
                paths.append((s.pc, o))
            return J.mach, paths
        return go
