"""Contracts of the basic operations, used in place of their bodies inside larger operations.
Each contract is itself decided against the real body by the units named in USES."""
from . import term as t
from .engine import Ptr, Unsupported
from .ops import P

c = t.const

# ---------------------------------------------------------------- C++


def _plain(p):
    return isinstance(p, Ptr) and p.off.op == "const" and p.isnull is t.FALSE and p.oid


def _rd(mach, st, p, n=32):
    if not _plain(p):
        return None
    v = mach.read_term(st, p, n)
    return v


def _en(mach, st, en, where):
    mach.oblige(st, t.ult(en, c(2, en.w)), "precondition", where + ": enable is 0 or 1")
    return t.eq(t.extract(en, 0, 0), t.TRUE)


def _distinct(mach, st, p, q, where):
    if p.oid == q.oid and p.off is q.off:
        mach.oblige(st, t.FALSE, "precondition", where + ": distinct operands")


def cpp_uint(mach):
    S = mach.stubs

    def add(M, st, a):
        x, y = _rd(M, st, a[0]), _rd(M, st, a[1])
        if x is None or y is None:
            return NotImplemented
        _distinct(M, st, a[0], a[1], "Uint256::add")
        e = _en(M, st, a[2], "Uint256::add")
        s = t.add(t.zext(x, 257), t.ite(e, t.zext(y, 257), c(0, 257)))
        M.write_term(st, a[0], t.trunc(s, 256))
        return t.zext(t.extract(s, 256, 256), 32)

    def sub(M, st, a):
        x, y = _rd(M, st, a[0]), _rd(M, st, a[1])
        if x is None or y is None:
            return NotImplemented
        _distinct(M, st, a[0], a[1], "Uint256::subtract")
        e = _en(M, st, a[2], "Uint256::subtract")
        yy = t.ite(e, y, c(0, 256))
        M.write_term(st, a[0], t.sub(x, yy))
        return t.zext(t.ult(x, yy), 32)

    def shl1(M, st, a):
        x = _rd(M, st, a[0])
        if x is None:
            return NotImplemented
        M.write_term(st, a[0], t.shl(x, c(1, 256)))
        return t.zext(t.extract(x, 255, 255), 32)

    def shr1(M, st, a):
        x = _rd(M, st, a[0])
        if x is None:
            return NotImplemented
        e = _en(M, st, a[1], "Uint256::shiftRight1")
        M.write_term(st, a[0], t.ite(e, t.lshr(x, c(1, 256)), x))
        return None

    def repl(M, st, a):
        x, y = _rd(M, st, a[0]), _rd(M, st, a[1])
        if x is None or y is None:
            return NotImplemented
        e = _en(M, st, a[2], "replace")
        M.write_term(st, a[0], t.ite(e, y, x))
        return None

    def swap(M, st, a):
        x, y = _rd(M, st, a[0]), _rd(M, st, a[1])
        if x is None or y is None:
            return NotImplemented
        e = _en(M, st, a[2], "swap")
        M.write_term(st, a[0], t.ite(e, y, x))
        M.write_term(st, a[1], t.ite(e, x, y))
        return None

    def cmp(f):
        def h(M, st, a):
            x, y = _rd(M, st, a[0]), _rd(M, st, a[1])
            if x is None or y is None:
                return NotImplemented
            return f(x, y)
        return h
    U = "Uint256::"
    S[U + "add(Uint256 const&, unsigned int)"] = add
    S[U + "subtract(Uint256 const&, unsigned int)"] = sub
    S[U + "shiftLeft1()"] = shl1
    S[U + "shiftRight1(unsigned int)"] = shr1
    S[U + "replace(Uint256 const&, unsigned int)"] = repl
    S[U + "swap(Uint256&, unsigned int)"] = swap
    for cls, args in (("Uint256", ["Uint256"]), ("FieldInt", ["FieldInt", "Uint256"])):
        for o in args:
            for op, f in (("==", t.eq), ("!=", t.ne), ("<", t.ult), ("<=", t.ule), (">", lambda x, y: t.ult(y, x)), (">=", lambda x, y: t.ule(y, x))):
                S["%s::operator%s(%s const&) const" % (cls, op, o)] = cmp(f)
    S["FieldInt::replace(FieldInt const&, unsigned int)"] = repl


# ---------------------------------------------------------------- Java

def _jrd(M, st, arr, off):
    if off.op != "const":
        return None
    o = st.mem.get(arr.oid)
    k = t.cval(off)
    if o is None or o.lazy or k % 8 or k + 8 > len(o.cells):
        return None
    return t.concat_lsb(o.cells[k:k + 8])


def _jwr(M, st, arr, off, v):
    o = st.wobj(arr.oid)
    k = t.cval(off)
    if o.frozen:
        M.oblige(st, t.FALSE, "const-write", "java")
    o.cells[k:k + 8] = [t.extract(v, 32 * i + 31, 32 * i) for i in range(8)]


def java_uint(M):
    S = M.stubs
    I = "Int256Math."

    def add(M, st, a):
        x, y = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[0], a[2])
        if x is None or y is None or _jrd(M, st, a[0], a[4]) is None:
            return NotImplemented
        e = _en(M, st, a[3], "uintAdd")
        s = t.add(t.zext(x, 257), t.ite(e, t.zext(y, 257), c(0, 257)))
        _jwr(M, st, a[0], a[4], t.trunc(s, 256))
        return t.zext(t.extract(s, 256, 256), 32)

    def sub(M, st, a):
        x, y = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[0], a[2])
        if x is None or y is None or _jrd(M, st, a[0], a[4]) is None:
            return NotImplemented
        e = _en(M, st, a[3], "uintSubtract")
        yy = t.ite(e, y, c(0, 256))
        _jwr(M, st, a[0], a[4], t.sub(x, yy))
        return t.zext(t.ult(x, yy), 32)

    def shl1(M, st, a):
        x = _jrd(M, st, a[0], a[1])
        if x is None or _jrd(M, st, a[0], a[2]) is None:
            return NotImplemented
        _jwr(M, st, a[0], a[2], t.shl(x, c(1, 256)))
        return t.zext(t.extract(x, 255, 255), 32)

    def shr1(M, st, a):
        x = _jrd(M, st, a[0], a[1])
        if x is None or _jrd(M, st, a[0], a[3]) is None:
            return NotImplemented
        e = _en(M, st, a[2], "uintShiftRight1")
        _jwr(M, st, a[0], a[3], t.ite(e, t.lshr(x, c(1, 256)), x))
        return [(st, None)]

    def repl(M, st, a):
        x, y = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[0], a[2])
        if x is None or y is None:
            return NotImplemented
        e = _en(M, st, a[3], "replace")
        _jwr(M, st, a[0], a[1], t.ite(e, y, x))
        return [(st, None)]

    def swap(M, st, a):
        x, y = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[0], a[2])
        if x is None or y is None:
            return NotImplemented
        e = _en(M, st, a[3], "swap")
        _jwr(M, st, a[0], a[1], t.ite(e, y, x))
        _jwr(M, st, a[0], a[2], t.ite(e, x, y))
        return [(st, None)]

    def cmp(f):
        def h(M, st, a):
            x, y = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[0], a[2])
            if x is None or y is None:
                return NotImplemented
            return t.zext(f(x, y), 32)
        return h

    def cmp2(f):
        def h(M, st, a):
            x, y = _jrd(M, st, a[0], a[1]), _jrd(M, st, a[2], a[3])
            if x is None or y is None:
                return NotImplemented
            return t.zext(f(x, y), 32)
        return h

    def iszero(M, st, a):
        x = _jrd(M, st, a[0], a[1])
        if x is None:
            return NotImplemented
        return t.zext(t.eq(x, c(0, 256)), 32)
    S[I + "uintAdd([IIIII)I"] = add
    S[I + "uintSubtract([IIIII)I"] = sub
    S[I + "uintShiftLeft1([III)I"] = shl1
    S[I + "uintShiftRight1([IIII)V"] = shr1
    S[I + "replace([IIII)V"] = repl
    S[I + "swap([IIII)V"] = swap
    S[I + "equalTo([III)I"] = cmp(t.eq)
    S[I + "lessThan([III)I"] = cmp(t.ult)
    S[I + "lessThan([II[II)I"] = cmp2(t.ult)
    S[I + "isZero([II)I"] = iszero
