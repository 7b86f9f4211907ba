"""Constant time: no branch and no address of the operations documented as constant-time depends on their operands.

Every operation is executed with all operands unknown; each branch condition and each address that is not a constant is
a pair of questions to the solver (can it go this way? can it go the other way, or to another place?).  Larger operations
run with the smaller ones, each decided by a unit of its own, replaced by arbitrary results.  What the solver finds is
confirmed on the real code: the trace of instructions and addresses of two executions has to differ."""
import itertools, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from sv import term as t, solver
from sv.engine import Unsupported, Ptr
from sv.frame import unit
from sv.ops import P, N, M256
from sv.cppx import Cpp
from sv.jvm import Java, JExc
from sv.solver import Q
from units import curve_ref as cr

c = t.const
h64 = lambda v: "%064x" % v

# ---------------------------------------------------------------- operations
# kinds of operand: u any value, f a field element, b enable, p point (three field elements), k scalar in [1, N-1], n the group order or the field prime
OPS = {}
for _n in ("add", "sub", "replace", "swap"):
    OPS["u." + _n] = "uub"
OPS["u.shl1"], OPS["u.shr1"], OPS["u.recip"] = "u", "ub", "un"
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    OPS["u." + _n] = "uu"
OPS.update({"u.bytes": "u", "u.tobytes": "u", "u.fromfield": "f", "f.new": "u", "f.add": "ff", "f.sub": "ff", "f.mul": "ff", "f.eq": "ff", "f.ne": "ff",
            "f.replace": "ffb", "f.dbl": "f", "f.sqr": "f", "f.recip": "f", "f.tobytes": "f",
            "p.add": "pp", "p.twice": "p", "p.norm": "p", "p.mul": "pu", "p.replace": "ppb", "p.iszero": "p", "p.isoncurve": "p", "p.eq": "pp", "p.ne": "pp",
            "p.compress": "p", "p.pub": "k", "e.sign": "kuk", "e.signh": "ku", "h.bytes": "u", "h.eq": "uu", "h.ne": "uu"})
SLOW = ("p.mul", "p.pub", "e.sign", "e.signh")
# functions replaced by arbitrary results, by the level of the operation that may use them
UINT = ["Uint256::add(Uint256 const&, unsigned int)", "Uint256::subtract(Uint256 const&, unsigned int)", "Uint256::shiftLeft1()", "Uint256::shiftRight1(unsigned int)",
        "Uint256::replace(Uint256 const&, unsigned int)", "Uint256::swap(Uint256&, unsigned int)"] + ["Uint256::operator%s(Uint256 const&) const" % o for o in ("==", "!=", "<", "<=", ">", ">=")]
FIELD = ["FieldInt::FieldInt(Uint256 const&)", "FieldInt::add(FieldInt const&)", "FieldInt::subtract(FieldInt const&)", "FieldInt::multiply2()", "FieldInt::square()",
         "FieldInt::multiply(FieldInt const&)", "FieldInt::replace(FieldInt const&, unsigned int)", "FieldInt::operator==(FieldInt const&) const", "FieldInt::operator!=(FieldInt const&) const"]
RECIP = ["Uint256::reciprocal(Uint256 const&)", "FieldInt::reciprocal()"]
POINT = ["CurvePoint::add(CurvePoint const&)", "CurvePoint::twice()", "CurvePoint::normalize()", "CurvePoint::replace(CurvePoint const&, unsigned int)", "CurvePoint::isZero() const",
         "CurvePoint::isOnCurve() const", "CurvePoint::operator==(CurvePoint const&) const", "CurvePoint::operator!=(CurvePoint const&) const"]
TOP = ["CurvePoint::multiply(Uint256 const&)"]
PUB = ["CurvePoint::privateExponentToPublicPoint(Uint256 const&)"]
HMAC = ["Sha256::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long)"]


def opaque(op):
    if op == "u.recip":
        return UINT
    if op == "f.recip":
        return UINT + RECIP[:1] if False else UINT + FIELD
    if op.startswith("p."):
        r = UINT + FIELD + RECIP
        if op in ("p.mul", "p.pub"):
            r = r + POINT + (TOP if op == "p.pub" else [])
        if op == "p.norm":
            r = r + ["CurvePoint::isZero() const"]
        return r
    if op.startswith("e."):
        return UINT + FIELD + RECIP + POINT + TOP + PUB + HMAC
    return []


_cnt = itertools.count()


def fresh(w):
    return t.var("any%d" % next(_cnt), w)


def havoc(name):
    size = 96 if name.startswith("CurvePoint::") else 32

    def g(M, st, a):
        p = a[0]
        if name.endswith(" const"):
            return fresh(1)
        if not isinstance(p, Ptr) or p.off.op != "const" or not p.oid:
            return NotImplemented
        M.write_term(st, p, fresh(8 * size))
        if "Uint256&" in name:
            M.write_term(st, a[1], fresh(256))
        if re.match(r"Uint256::(add|subtract|shiftLeft1)\(", name):
            return t.zext(fresh(1), 32)
        return None
    return g


class Watch:
    """records where control flow or an address is not the same for all operands"""

    def __init__(self, M, java=False):
        self.M, self.found, self.seen, self.stack = M, [], set(), []
        branch, call = M.branch, M.call

        def wbranch(st, cond, *a, **k):
            pc = st.pc
            r = branch(st, cond, *a, **k)
            if len(r) > 1:
                self.note("branch", pc, cond, t.bnot(cond))
                if len(self.found) > 8:
                    return r[:1]
            return r

        def wcall(*a, **k):
            self.stack.append(a)
            try:
                return call(*a, **k)
            finally:
                self.stack.pop()
        M.branch = wbranch
        if java:
            run, lib = M.run_method, M.library

            def wrun(m, args, st):
                self.stack.append(m.label)
                try:
                    return run(m, args, st)
                finally:
                    self.stack.pop()

            def wlib(fn, pc, cls, name, desc, args, st):
                if cls.endswith("/Arrays") and name in ("equals", "compare", "mismatch") and any(self.unknown(st, x) for x in args):
                    self.note("comparison that stops at the first difference", st.pc, t.TRUE, t.TRUE)
                return lib(fn, pc, cls, name, desc, args, st)
            M.run_method, M.library = wrun, wlib
        else:
            M.call = wcall
        self.wrap_memory(java)

    def unknown(self, st, r):
        o = st.mem.get(getattr(r, "oid", None))
        return o is not None and any(isinstance(x, t.T) and x.op != "const" for x in getattr(o, "cells", None) or ())

    def place(self):
        if not self.stack:
            return "?"
        a = self.stack[-1]
        return a if isinstance(a, str) else str(getattr(self.M, "demangle", str)(a[0]))

    def note(self, kind, pc, x, y):
        key = (kind, x, self.place())
        if key in self.seen:
            return
        self.seen.add(key)
        self.found.append((kind, self.place(), pc, x, y))

    def address(self, st, off, kind="address"):
        if off.op == "const" or off.lo == off.hi:
            return
        self.note(kind, st.pc, off, None)

    def wrap_memory(self, java):
        M = self.M
        if java:
            M.hooks["index"] = lambda m, fn, pc, st, x: self.address(st, x)
            return
        load, store = M.load_n, M.store

        def wl(st, p, n, where):
            self.pointer(st, p)
            return load(st, p, n, where)

        def ws(st, p, v, n, where):
            self.pointer(st, p)
            return store(st, p, v, n, where)
        M.load_n, M.store = wl, ws
        ext = M.external

        def we(callee, d, args, st):
            if d.split("(")[0] in ("memcmp", "bcmp", "strcmp", "strncmp", "strlen", "memchr", "strchr"):
                ps = [p for p in args if isinstance(p, Ptr)]
                if any(self.symbolic(st, p) for p in ps):
                    self.note("comparison that stops at the first difference", st.pc, t.TRUE, t.TRUE)
            return ext(callee, d, args, st)
        M.external = we

    def symbolic(self, st, p):
        o = st.mem.get(p.oid)
        return o is not None and not o.const and (o.lazy or any(x is not None and isinstance(x[0], t.T) and x[0].op != "const" for x in o.cells if isinstance(x, tuple)))

    def pointer(self, st, p):
        if isinstance(p, Ptr):
            self.address(st, p.off)
        elif hasattr(p, "c") and p.c.op != "const":
            self.note("address", st.pc, p.c, t.bnot(p.c))
            self.pointer(st, p.a)
            self.pointer(st, p.b)


def operands(op, kinds):
    """-> variables by name, preconditions"""
    v, pre = {}, []
    for i, k in enumerate(kinds):
        if k == "b":
            v["e%d" % i] = t.var("e%d" % i, 1)
        elif k == "p":
            for q in "xyz":
                v["%s%d" % (q, i)] = x = t.var("%s%d" % (q, i), 256)
                pre.append(t.ult(x, c(P, 256)))
        elif k != "n":
            v["u%d" % i] = x = t.var("u%d" % i, 256)
            if k == "f":
                pre.append(t.ult(x, c(P, 256)))
            if k == "k":
                pre += [t.ult(x, c(N, 256)), t.bnot(t.eq(x, c(0, 256)))]
    return v, pre


def words_of(kinds, vals, mod):
    r = []
    for i, k in enumerate(kinds):
        if k == "b":
            r.append("%x" % vals.get("e%d" % i, 0))
        elif k == "p":
            r += [h64(vals.get("%s%d" % (q, i), 0)) for q in "xyz"]
        elif k == "n":
            r.append(h64(mod))
        else:
            r.append(h64(vals.get("u%d" % i, 0)))
    return r


def cpp_encode(ctx, op, mod, lang):
    kinds = OPS[op]
    v, pre = operands(op, kinds)
    cx = Cpp(ctx, "ir_nd" if lang == "cpp" else "ir_asm_nd", max_states=1 << 20)
    M = cx.mach
    names = {M.demangle(f) for f in M.m.funcs}
    for nm in opaque(op):
        if nm in names:
            M.stubs[nm] = havoc(nm)
    st = cx.start()
    for q in pre:
        st.assume(q)
    args = []
    flip = lambda x: t.concat_lsb([t.extract(x, 8 * i + 7, 8 * i) for i in reversed(range(32))])
    first = op in ("u.fromfield", "f.new", "p.pub") or op in ("u.bytes", "h.bytes")
    for i, k in enumerate(kinds):
        if k == "b":
            args.append(t.zext(v["e%d" % i], 32))
        elif k == "p":
            args.append(cx.obj(st, t.concat(v["z%d" % i], v["y%d" % i], v["x%d" % i]), "p%d" % i))
        elif k == "n":
            args.append(cx.obj(st, c(mod, 256), "m"))
        elif op in ("u.bytes", "h.bytes", "h.eq", "h.ne") or op in ("e.sign", "e.signh") and i == 1:
            args.append(cx.obj(st, flip(v["u%d" % i]), "b%d" % i))
        else:
            args.append(cx.obj(st, v["u%d" % i], "u%d" % i))
    if op == "h.bytes":
        args.append(cx.buf(st, 32, "out"))
    elif first:
        args.insert(0, cx.obj(st, c(0, 768 if op == "p.pub" else 256), "out"))
    elif op in ("u.tobytes", "f.tobytes"):
        args.append(cx.buf(st, 32, "out"))
    elif op == "p.compress":
        args.append(cx.buf(st, 33, "out"))
    elif op.startswith("e."):
        args += [cx.obj(st, c(0, 256), "r"), cx.obj(st, c(0, 256), "s")]
    W = Watch(M)
    rets = cx.call("h_" + op.replace(".", "_"), args, st)
    return M, W, pre, [(s.pc, t.bnot(t.eq(rv, c(0, rv.w))) if op.startswith("e.") else t.TRUE) for s, rv in rets]


# ---------------------------------------------------------------- Java
# class, method, regions and scalars in the order of the parameters (z: destination), words of temporary space
JAVA = {"u.add": ("Int256Math", "uintAdd", "uubz", 0), "u.sub": ("Int256Math", "uintSubtract", "uubz", 0), "u.shl1": ("Int256Math", "uintShiftLeft1", "uz", 0),
        "u.shr1": ("Int256Math", "uintShiftRight1", "ubz", 0), "u.recip": ("Int256Math", "reciprocal", "unz", 48), "u.replace": ("Int256Math", "replace", "uub", 0),
        "u.swap": ("Int256Math", "swap", "uub", 0), "u.eq": ("Int256Math", "equalTo", "uu", 0), "u.lt": ("Int256Math", "lessThan", "uu", 0),
        "f.add": ("Int256Math", "fieldAdd", "ffz", 8), "f.sub": ("Int256Math", "fieldSubtract", "ffz", 8), "f.dbl": ("Int256Math", "fieldMultiply2", "fz", 8),
        "f.sqr": ("Int256Math", "fieldSquare", "fz", 40), "f.mul": ("Int256Math", "fieldMultiply", "ffz", 40),
        "p.twice": ("CurvePointMath", "twice", "p", 64), "p.add": ("CurvePointMath", "add", "pp", 112), "p.mul": ("CurvePointMath", "multiply", "pu", 552),
        "p.norm": ("CurvePointMath", "normalize", "p", 72), "p.replace": ("CurvePointMath", "replace", "ppb", 0), "p.isoncurve": ("CurvePointMath", "isOnCurve", "p", 56),
        "p.iszero": ("CurvePointMath", "isZero", "p", 0), "e.sign": ("Ecdsa", "sign", None, 0), "e.signh": ("Ecdsa", "signWithHmacNonce", None, 0),
        "h.bytes": ("Sha256Hash", "toBytes", None, 0), "h.hash": ("Sha256Hash", "hashCode", None, 0)}
OPS["h.hash"] = "u"
JLOW = ["u.add", "u.sub", "u.shl1", "u.shr1", "u.replace", "u.swap", "u.eq", "u.lt"]
JFIELD = ["f.add", "f.sub", "f.dbl", "f.sqr", "f.mul"]
JPOINT = ["p.twice", "p.add", "p.norm", "p.replace", "p.isoncurve", "p.iszero"]


def j_opaque(op):
    if op == "u.recip":
        return JLOW
    if op == "p.mul" or op[0] == "e":
        return JLOW + ["u.recip"] + JFIELD + JPOINT + (["p.mul"] if op[0] == "e" else [])
    return JLOW + ["u.recip"] + JFIELD if op[0] == "p" and op not in ("p.replace", "p.iszero") else []


def j_havoc(op):
    cls, meth, sig, temp = JAVA[op]

    def g(M, st, a):
        if a[0].oid == 0 or any(x.op != "const" for x, k in zip(a[1:], sig + "t") if k != "b"):
            return NotImplemented
        o = st.wobj(a[0].oid)
        if o.lazy or o.frozen:
            return NotImplemented

        def put(off, n):
            for k in range(t.cval(off), t.cval(off) + n):
                if k < len(o.cells):
                    o.cells[k] = fresh(32)
        for x, k in zip(a[1:], sig):
            if k == "z":
                put(x, 8)
        if temp:
            put(a[-1], temp)
        if op in ("u.replace", "u.swap"):
            put(a[1], 8)
            if op == "u.swap":
                put(a[2], 8)
        if op in ("p.twice", "p.add", "p.mul", "p.norm", "p.replace"):
            put(a[1], 24)
        if op in ("u.add", "u.sub", "u.shl1", "u.eq", "u.lt", "p.iszero", "p.isoncurve"):
            return t.zext(fresh(1), 32)
        return None
    return g


def java_encode(ctx, op, mod, lang):
    from sv.jvm import JExc
    from units.conv import jhash
    kinds = OPS[op]
    v, pre = operands(op, kinds)
    cls, meth, sig, temp = JAVA[op]
    M = Java(ctx, max_states=1 << 20).mach
    st = M.start()
    for key in list(st.mem):
        if isinstance(key, str) and key.startswith("cls:") and "$assertionsDisabled" in st.mem[key].fields:
            st.wobj(key).fields["$assertionsDisabled"] = c(1, 32)
    for o in j_opaque(op):
        k = JAVA[o]
        M.stubs["%s.%s" % k[:2] + "([I" + "I" * (len(k[2]) + (k[3] > 0)) + ")"] = j_havoc(o)
    # stubs are found by name and descriptor: the return type is taken from the class
    for k in list(M.stubs):
        if k.endswith(")"):
            g = M.stubs.pop(k)
            cn, rest = k.split(".", 1)
            for (n, d), m in M.classes[M.short[cn]].methods.items():
                if n + d[:d.index(")") + 1] == rest:
                    M.stubs[k + d[d.index(")") + 1:]] = g
    for q in pre:
        st.assume(q)
    W = Watch(M, java=True)
    if op.startswith("h."):
        rets = []
        st, h = jhash(M, st, v["u0"])
        rets = M.call("Sha256Hash", meth, [h], st)
    elif op.startswith("e."):
        if op == "e.signh":
            def hmac(M, st, a):
                return [jhash(M, st, fresh(256))]
            M.stubs["Sha256.getHmac([B[B)Lio/nayuki/bitcoin/crypto/Sha256Hash;"] = hmac
        args = []
        for i in range(len(kinds)):
            if i == 1:
                st, h = jhash(M, st, v["u1"])
                args.append(h)
            else:
                args.append(M.ints(st, M.words(st, v["u%d" % i])))
        args += [M.ints(st, [c(0, 32)] * 8) for _ in "rs"]
        rets = M.call("Ecdsa", meth, args, st)
    else:
        cells, args = [], []
        i = 0
        for k in sig + ("t" if temp else ""):
            if k == "b":
                args.append(t.zext(v["e%d" % i], 32))
            else:
                args.append(c(len(cells), 32))
                if k in "zt":
                    cells += [c(0, 32)] * (8 if k == "z" else temp)
                elif k == "p":
                    for q in "xyz":
                        cells += M.words(st, v["%s%d" % (q, i)])
                else:
                    cells += M.words(st, c(mod, 256) if k == "n" else v["u%d" % i])
            i += 1
        want = "([I" + "I" * len(args) + ")"
        ds = [d for (n, d), m in M.classes[M.short[cls]].methods.items() if n == meth and d.startswith(want)]
        if len(ds) != 1:
            raise Unsupported("no method %s.%s%s" % (cls, meth, want))
        rets = M.call(cls, meth, [M.ints(st, cells)] + args, st, desc=ds[0])
    good = lambda rv: t.FALSE if isinstance(rv, JExc) else t.bnot(t.eq(rv, c(0, rv.w))) if op.startswith("e.") else t.TRUE
    return M, W, pre, [(s.pc, good(rv)) for s, rv in rets]


def jline(op, vals, mod):
    cls, meth, sig, temp = JAVA[op]
    from sv.javax import words_hex
    if op.startswith("h."):
        return "%s.%s #%s" % (cls, meth, h64(vals["u0"]))
    if op.startswith("e."):
        r = ["#" + h64(vals["u1"]) if i == 1 else words_hex(vals["u%d" % i]) for i in range(len(OPS[op]))]
        return " ".join(["%s.%s" % (cls, meth)] + r + ["0" * 64] * 2)
    cells, args = "", []
    for i, k in enumerate(sig + ("t" if temp else "")):
        if k == "b":
            args.append("i%d" % vals["e%d" % i])
            continue
        args.append("i%d" % (len(cells) // 8))
        cells += "0" * (64 if k == "z" else 8 * temp) if k in "zt" else "".join(words_hex(vals.get("%s%d" % (q, i), 0)) for q in "xyz") if k == "p" else words_hex(mod if k == "n" else vals["u%d" % i])
    return " ".join(["%s.%s" % (cls, meth), cells] + args)


# ---------------------------------------------------------------- concrete operands
def u_val(rnd):
    k = rnd.randrange(5)
    if k == 0:
        return rnd.choice([0, 1, 2, M256, P, N, P - 1, N - 1, 1 << 255, (1 << 128) - 1, 1 << 32, M256 - P])
    if k == 1:
        return rnd.getrandbits(rnd.choice([1, 8, 31, 32, 33, 64, 100, 128, 200, 248]))
    if k == 2:
        return rnd.getrandbits(256) & ~((1 << rnd.choice([4, 8, 32, 64, 128, 192, 224])) - 1)
    if k == 3:
        return M256 - rnd.getrandbits(rnd.choice([1, 8, 32, 64, 128]))
    return rnd.getrandbits(256)


def p_val(rnd, near=None):
    k = rnd.randrange(6)
    if k == 0:
        x, y, z = rnd.choice([(0, 1, 0), (0, rnd.randrange(1, P), 0), (0, 1, 0)])
        return x, y, z
    if near is not None and k < 4:
        x, y, z = near
        m = rnd.choice([1, 1, rnd.randrange(1, P)])
        s = rnd.choice([1, 1, P - 1])
        return x * m % P, y * m * s % P, z * m % P
    if k == 5:
        return tuple(rnd.choice([0, 1, P - 1, rnd.randrange(P)]) for _ in range(3))
    q = cr.mul(rnd.choice([1, 2, 3, rnd.getrandbits(64) | 1]), cr.G)
    m = rnd.choice([1, rnd.randrange(1, P)])
    return q[0] * m % P, q[1] * m % P, m


def sample(rnd, op):
    kinds = OPS[op]
    vals = {}
    for i, k in enumerate(kinds):
        if k == "b":
            vals["e%d" % i] = rnd.getrandbits(1)
        elif k == "p":
            near = tuple(vals[q + "0"] for q in "xyz") if i == 1 else None
            for q, x in zip("xyz", p_val(rnd, near)):
                vals["%s%d" % (q, i)] = x
        elif k != "n":
            x = u_val(rnd)
            if i == 1 and "u0" in vals and rnd.randrange(3) == 0:
                x = max(0, min(M256, vals["u0"] + rnd.choice([0, 0, 1, -1, 1 << 32, 1 << 128]))) if rnd.randrange(2) else vals["u0"] ^ (1 << rnd.randrange(256))
            if k == "f":
                x %= P
            if k == "k":
                x = x % N or 1
            vals["u%d" % i] = x
    return vals


def directed(op):
    """operands an operation might treat specially"""
    kinds = OPS[op]
    if op in ("p.mul", "p.pub"):
        g = [cr.G[0], cr.G[1], 1]
        ks = [0x123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF1, 1, 0x1111111111111111111111111111111111111111111111111111111111111111, (1 << 255) - 19, 0xF0 << 120, N - 1, 3 << 64, 0]
        for k in ks:
            if op == "p.mul":
                yield {"x0": g[0], "y0": g[1], "z0": 1, "u1": k}
            elif k:
                yield {"u0": k}
        if op == "p.mul":
            yield {"x0": 0, "y0": 1, "z0": 0, "u1": ks[0]}
    elif op == "e.sign":
        for i, (d, z, k) in enumerate([(5, 7, 9), (N - 1, M256, N - 2), (1, 0, 1 << 200), (N >> 1, N, 77), (1 << 128, N - 1, 1), (3 << 250, 1, (1 << 255) + 12345), (0xABCDEF, 1 << 255, 0x1000000000000001)]):
            yield {"u0": d, "u1": z, "u2": k}
    elif op == "e.signh":
        for d, z in [(5, 7), (N - 1, M256), (1, 0), (N >> 1, N), (1 << 128, N - 1)]:
            yield {"u0": d, "u1": z}


def line(op, vals, mod=N):
    return " ".join([op] + words_of(OPS[op], vals, mod))


def pool(rnd, op, n):
    r = list(directed(op))
    if op in ("e.sign", "e.signh", "p.pub"):
        return r[:n] if n < len(r) else r + [sample(rnd, op) for _ in range(n - len(r))]
    return (r + [sample(rnd, op) for _ in range(max(0, n - len(r)))])[:max(n, 1)]


def successful(op, vals):
    """outside the documented early rejections"""
    if op == "e.sign":
        return vals["u2"] < N and vals["u2"] > 0
    return True


def traces(ctx, lang, lines):
    """one fingerprint of the executed instructions and addresses per line"""
    return ctx.native("ct" + lang, lines, timeout=400)


def differing(ctx, rep, lang, op, what, vs, mod):
    """runs these operands; a violation if two executions differ. -> True when found"""
    vs = [x for x in vs if successful(op, x)]
    lines = [(jline if lang == "java" else line)(op, x, mod) for x in vs]
    if len(lines) < 2:
        return False
    got = traces(ctx, lang, lines)
    good = [(g, ln) for g, ln in zip(got, lines) if not g.startswith("!")]
    rep.validated += len(good)
    for g, ln in good[1:]:
        if g != good[0][0]:
            pair = good[0][1] + " | " + ln
            rep.violated(what, "ct" + lang, pair, "the same instructions and addresses", "%s | %s" % (good[0][0], g))
            return True
    return False


def check(ctx, rep, op, lang, mod=N):
    rnd = random.Random("%s %s" % (op, lang))
    label = "%s %s" % (op, lang)
    enc = cpp_encode if lang != "java" else java_encode
    what = "control flow or addresses of %s depend on its operands" % op
    try:
        M, W, pre, rets = enc(ctx, op, mod, lang)
    except Unsupported as e:
        rep.claim(label, "undecided", 0, "Unsupported: %s" % e)
        differing(ctx, rep, lang, op, what, pool(rnd, op, 8 if op in SLOW else 120), mod)
        return
    rep.use(M)
    if not rets:
        rep.claim(label, "undecided", 0, "no execution returns")
        return
    ok = t.disj([t.conj(list(pc) + [g]) for pc, g in rets])
    early = op.startswith("e.") or any(g is t.FALSE for _, g in rets)
    open_ = []
    secs = 0
    for kind, where, pc, x, y in W.found:
        base = list(pc) + ([ok] if early else [])
        if y is not None:
            qs = [Q(label, base + [z], 20) for z in (x, y)]
            solver.solve_many(qs, jobs=2)
        else:               # an address: some value, and then another one
            pl = t.var("place", x.w)
            qs = [Q(label, base + [t.eq(pl, x)], 20)]
            solver.solve_many(qs, jobs=1)
            if qs[0].result == "sat":
                qs.append(Q(label, base + [t.bnot(t.eq(x, c((qs[0].env or {}).get("place", 0), x.w)))], 20))
                solver.solve_many(qs[1:], jobs=1)
        secs += sum(q.secs for q in qs)
        if any(q.result == "unsat" for q in qs):
            continue
        open_.append((kind, where, [q.env or {} for q in qs if q.result == "sat"]))
    if not open_:
        # what the encoding says has to be what the real code does
        if not differing(ctx, rep, lang, op, what, pool(rnd, op, 2 if op in SLOW else 6), mod):
            rep.witness += 1
            rep.claim(label, "proved", secs)
        return
    n = 8 if op in SLOW else 48
    for kind, where, envs in open_:
        cand = [dict(zip_default(op, e)) for e in envs]
        if differing(ctx, rep, lang, op, "%s in %s depends on the operands of %s" % (kind, where, op), cand, mod):
            return
    if differing(ctx, rep, lang, op, "%s in %s depends on the operands of %s" % (open_[0][0], open_[0][1], op), pool(rnd, op, n), mod):
        return
    rep.claim(label, "undecided", secs, "; ".join("%s in %s" % x[:2] for x in open_)[:300])


def zip_default(op, env):
    for i, k in enumerate(OPS[op]):
        for nm in (["e%d" % i] if k == "b" else [q + str(i) for q in "xyz"] if k == "p" else [] if k == "n" else ["u%d" % i]):
            yield nm, env.get(nm, 1 if k == "k" else 0)


for _op in OPS:
    for _l, _ir in (("cpp", "ir_nd"), ("asm", "ir_asm_nd"), ("java", "java")):
        if _l == "asm" and _op[0] not in "uf" or (_op not in JAVA if _l == "java" else _op == "h.hash"):
            continue
        if _op == "u.recip":
            for _m, _v in (("order", N), ("prime", P)):
                unit("ct.%s/%s/%s" % (_op, _m, _l), [_ir, "ct" + _l] + (["asmobj"] if _l == "asm" else []), limit=200, op=_op, lang=_l, mod=_v)(check)
        else:
            unit("ct.%s/%s" % (_op, _l), [_ir, "ct" + _l] + (["asmobj"] if _l == "asm" else []), limit=300, cost=9 if _op in SLOW else 1, op=_op, lang=_l)(check)
