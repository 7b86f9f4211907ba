"""Conversions between 256-bit integers, hash values, hexadecimal text and bytes (C++ and Java)."""
from sv import term as t
from sv.engine import Unsupported
from sv.frame import unit
from sv.ops import Op, Param, check_op, P
from sv.cppx import Cpp
from sv.jvm import Java, JExc, JStr
from sv.javax import words_hex

c = t.const
TAG = {"": 0, "java.lang.IllegalArgumentException": 1, "java/lang/IllegalArgumentException": 1}


def digit(ch):
    """value of a hexadecimal digit character"""
    w = ch.w
    x = t.ite(t.ule(c(97, w), ch), t.sub(ch, c(87, w)), t.ite(t.ule(c(65, w), ch), t.sub(ch, c(55, w)), t.sub(ch, c(48, w))))
    return t.extract(x, 3, 0)


def is_digit(ch):
    w = ch.w
    rng = lambda a, b: t.band(t.ule(c(ord(a), w), ch), t.ule(ch, c(ord(b), w)))
    return t.disj([rng("0", "9"), rng("a", "f"), rng("A", "F")])


def hexval(chs):
    """number written by digits, most significant first"""
    return t.concat_lsb([digit(x) for x in reversed(chs)])


def hexchar(n4, w):
    x = t.zext(n4, w)
    return t.ite(t.ult(x, c(10, w)), t.add(x, c(48, w)), t.add(x, c(87, w)))


def hextext(x, w):
    """lowercase digits of x, most significant first"""
    n = x.w // 4
    return [hexchar(t.extract(x, 4 * i + 3, 4 * i), w) for i in reversed(range(n))]


def bytes_be(x):
    return [t.extract(x, 8 * i + 7, 8 * i) for i in reversed(range(x.w // 8))]


def swap_bytes(x):
    """the byte-reversed number"""
    return t.concat_lsb(bytes_be(x))


def chars(n, w):
    return [Param("c%d" % i, w, 0, (1 << w) - 1) for i in range(n)]


def cs(v):
    return [v["c%d" % i] for i in range(sum(1 for k in v if k[0] == "c" and k[1:].isdigit()))]


def rand_hex(n, bad=0):
    def f(rnd, vals):
        d = {"c%d" % i: ord(rnd.choice("0123456789abcdefABCDEF")) for i in range(n)}
        k = rnd.randrange(5)
        if not n:
            pass
        elif k == 0:
            z = rnd.choice("09afAF")
            d = {"c%d" % i: ord(z) for i in range(n)}
        elif k == 1:
            d = {"c%d" % i: ord("0") for i in range(n)}
            d["c%d" % rnd.randrange(n)] = ord(rnd.choice("19afAF"))
        if bad and rnd.randrange(3) == 0 and n:
            d["c%d" % rnd.randrange(n)] = rnd.choice([47, 58, 64, 71, 96, 103, 32, 0, 45, 43, 0xFF10, 0x660, 0x130, 10, 0x141])
        return d
    return f


def sline(op, n, w):
    def f(vals):
        s = "".join("%0*x" % (w // 4, vals["c%d" % i]) for i in range(n))
        return "%s %s" % (op, s or "-")
    return f


class SOp(Op):
    """An operation of a string of n characters."""

    def __init__(self, name, n, w, outs, spec, valid_only=True, params=(), line=None, parse=None, pre=None):
        p = (lambda v: [is_digit(x) for x in cs(v)] + (pre(v) if pre else [])) if valid_only else pre
        Op.__init__(self, name, chars(n, w) + list(params), outs, spec, p, [rand_hex(n, not valid_only)], line or sline(name, n, w), parse)
        self.n = n

    def samples(self, rnd, k):
        res = []
        while len(res) < k:
            vals = {p.name: rnd.randint(p.lo, p.hi) for p in self.params}
            vals.update(self.special[0](rnd, vals))
            if self.ok_pre(vals):
                res.append(vals)
        return res


def hexop(name, val, pre=None):
    return SOp(name, 64, 8, ["x"], lambda v: {"x": val(hexval(cs(v)))}, pre=pre)


HEXOPS = {
    "u.hex": (hexop("u.hex", lambda x: x), "h_u_hex"),
    "f.hex": (hexop("f.hex", lambda x: x, pre=lambda v: [t.ult(hexval(cs(v)), c(P, 256))]), "h_f_hex"),
    # the hash holds the bytes in reversed order; results are read as one big-endian number
    "h.str": (hexop("h.str", swap_bytes), "h_h_str"),
}
for _lang, _mod in (("cpp", "ir"), ("asm", "ir_asm")):
    for _n in HEXOPS:
        if _lang == "asm" and _n != "f.hex":
            continue

        @unit("%s/%s" % (_n, _lang), [_mod, _lang] + (["asmobj"] if _lang == "asm" else []), n=_n, lang=_lang, mod=_mod, limit=150)
        def _u(ctx, rep, n, lang, mod):
            op, fn = HEXOPS[n]

            def go(v):
                cx = Cpp(ctx, mod)
                st = cx.start()
                for x in cs(v):
                    st.assume(is_digit(x))
                s = cx.bytes_obj(st, cs(v) + [c(0, 8)], "str", const=True)
                out = cx.buf(st, 32, "out", align=8)
                paths = []
                for s2, _ in cx.call(fn, [s, out] if n == "h.str" else [out, s], st):
                    x = cx.read(s2, out, 32)
                    paths.append((s2.pc, [swap_bytes(x) if n == "h.str" else x]))
                return cx.mach, paths
            rep.bound("strings of 64 hexadecimal digits (the documented precondition), every content")
            check_op(ctx, rep, op, lang, go)

U256 = Param("x", 256)
BOPS = {
    "u.bytes": (Op("u.bytes", [U256], ["r"], lambda v: {"r": v["x"]}), "h_u_bytes", 32, "from"),
    "u.tobytes": (Op("u.tobytes", [U256], ["r"], lambda v: {"r": v["x"]}), "h_u_tobytes", 32, "to"),
    "f.tobytes": (Op("f.tobytes", [Param("x", 256, 0, P - 1)], ["r"], lambda v: {"r": v["x"]}), "h_f_tobytes", 32, "to"),
    "h.bytes": (Op("h.bytes", [U256], ["r"], lambda v: {"r": v["x"]}), "h_h_bytes", 32, "copy"),
}
for _n in BOPS:
    @unit(_n + "/cpp", ["ir", "cpp"], n=_n)
    def _u(ctx, rep, n):
        op, fn, size, mode = BOPS[n]

        def go(v):
            cx = Cpp(ctx, "ir")
            st = cx.start()
            x = v["x"]
            if mode == "to":
                src = cx.obj(st, x, "x", const=True)
                out = cx.buf(st, size, "out")
                args = [src, out]
            else:
                src = cx.bytes_obj(st, bytes_be(x), "bytes", const=True)
                out = cx.buf(st, size, "out", align=8)
                args = [out, src] if mode == "from" else [src, out]
            paths = []
            for s2, _ in cx.call(fn, args, st):
                r = cx.read(s2, out, size)
                paths.append((s2.pc, [r if mode == "from" else swap_bytes(r)]))
            return cx.mach, paths
        check_op(ctx, rep, op, "cpp", go)


def hnear(rnd, vals):
    return {"y": vals["x"] ^ rnd.choice([0, 1 << rnd.randrange(256), 0xFF << 8 * rnd.randrange(32)])}


HCMP = Op("h.cmp", [Param("x", 256), Param("y", 256)], ["eq", "ne"], lambda v: {"eq": t.zext(t.eq(v["x"], v["y"]), 32), "ne": t.zext(t.bnot(t.eq(v["x"], v["y"])), 32)}, special=[hnear])


@unit("h.cmp/cpp", ["ir", "cpp"])
def _u(ctx, rep):
    def go(v):
        cx = Cpp(ctx, "ir")
        st = cx.start()
        a = cx.bytes_obj(st, bytes_be(v["x"]), "a", const=True)
        b = cx.bytes_obj(st, bytes_be(v["y"]), "b", const=True)
        paths = []
        for s, r in cx.call("h_h_eq", [a, b], st):
            for s2, r2 in cx.call("h_h_ne", [a, b], s):
                paths.append((s2.pc, [r, r2]))
        return cx.mach, paths
    check_op(ctx, rep, HCMP, "cpp", go)


# ---------------------------------------------------------------- Java

def jresult(M, st, rv, ok, nothing):
    """tagged result of a call that may throw"""
    if isinstance(rv, JExc):
        return [c(TAG.get(rv.cls, 2), 8)] + nothing
    return [c(0, 8)] + ok(rv)


def jparse(conv, nothing):
    def f(s):
        if s.startswith("!"):
            return [TAG.get(s[1:], 2)] + nothing
        return [0] + conv(s)
    return f


def jop(name, *a, **k):
    op = (SOp if len(a) > 4 or "n" in k else Op)(name, *a, **k)
    op.excs = True
    return op


def words_val(s):
    return sum(int(s[8 * k:8 * k + 8], 16) << 32 * k for k in range(len(s) // 8))


GUARD = 0x1122334455667788


def hextouint_op(n):
    ok = lambda v: t.conj([is_digit(x) for x in cs(v)]) if n == 64 else t.FALSE

    def spec(v):
        o = ok(v)
        val = hexval(cs(v)) if n == 64 else v["old"]
        return {"tag": t.ite(o, c(0, 8), c(1, 8)), "g0": v["g0"], "x": t.ite(o, val, v["old"]), "g1": v["g1"]}

    def line(vals):
        return "hexToUint %s %s 8" % ("".join("%04x" % vals["c%d" % i] for i in range(n)) or "-", "".join(words_hex(vals[k]) for k in ("g0", "old", "g1")))

    def parse(s):
        if s.startswith("!"):
            return [TAG.get(s[1:], 2)]
        return [0] + [words_val(s[64 * i:64 * i + 64]) for i in range(3)]
    op = SOp("hexToUint", n, 16, ["tag", "g0", "x", "g1"], spec, False, [Param("g0", 256), Param("old", 256), Param("g1", 256)], line, parse)
    op.excs = True
    base = op.parse_out
    # the driver prints no array after an exception: compare the tag only
    op.expected0 = op.expected

    def expected(vals):
        e = op.expected0(vals)
        return e if e[0] == 0 else e[:1]
    op.expected = expected
    return op


for _n in (64, 0, 1, 63, 65):
    @unit("j.hexToUint/%d" % _n, ["java"], n=_n, limit=150)
    def _u(ctx, rep, n):
        op = hextouint_op(n)

        def go(v):
            J = Java(ctx)
            M = J.mach
            st = J.start()
            arr = M.ints(st, M.words(st, v["g0"]) + M.words(st, v["old"]) + M.words(st, v["g1"]))
            paths = []
            for s, rv in M.call("Int256Math", "hexToUint", [JStr(cs(v)), arr, c(8, 32)], st):
                cells = s.mem[arr.oid].cells
                paths.append((s.pc, [c(TAG.get(rv.cls, 2) if isinstance(rv, JExc) else 0, 8)] + [t.concat_lsb(cells[8 * i:8 * i + 8]) for i in range(3)]))
            return M, paths
        rep.bound("strings of length 64 (every content) and, for rejection, of lengths 0, 1, 63, 65")
        orig = op.expected
        if n != 64:
            op.samples = lambda rnd, k, f=op.samples: f(rnd, 4)
        check_tagged(ctx, rep, op, go)


def check_tagged(ctx, rep, op, go):
    """check_op for operations whose concrete result after an exception is only the tag"""
    full = op.expected0

    def run(v):
        M, paths = go(v)
        return M, paths
    from sv import ops
    try:
        mach, paths = run(op.vars())
    except Unsupported as e:
        rep.claim(op.name + "/java", "undecided", 0, "not encoded: %s" % e)
        ops.validate(ctx, rep, op, "java", None, n=400)
        return
    rep.use(mach)
    if not ops.validate(ctx, rep, op, "java", None, n=24) and rep.violations:
        return
    import random
    rnd = random.Random(3)
    for s in op.samples(rnd, 6):
        e = full(s)
        hit = [t.evaluate(list(pc) + list(outs), s) for pc, outs in paths]
        if any(all(x == 1 for x in r[:len(p[0])]) and r[len(p[0]):] == e for r, p in zip(hit, paths)):
            rep.witness += 1
    ops.check_paths(ctx, rep, op, "java", paths, mach)


def simple_java(name, op, n, build, read, limit=150):
    @unit("j." + name, ["java"], limit=limit)
    def _u(ctx, rep):
        def go(v):
            J = Java(ctx)
            M = J.mach
            st = J.start()
            paths = []
            for s, rv in build(M, st, v):
                paths.append((s.pc, read(M, s, rv)))
            return M, paths
        check_op(ctx, rep, op, "java", go)


def arr3(M, st, v):
    return M.ints(st, M.words(st, v["g0"]) + M.words(st, v["x"]) + M.words(st, v["g1"]))


G3 = [Param("g0", 256), Param("x", 256), Param("g1", 256)]
line3 = lambda nm: (lambda vals: "%s %s 8" % (nm, "".join(words_hex(vals[k]) for k in ("g0", "x", "g1"))))


def text_of(M, s, rv, n, w=16):
    if isinstance(rv, JExc) or not isinstance(rv, JStr) or len(rv.ch) != n:
        return c(0, 16 * n)
    return t.concat_lsb(list(rv.ch)[::-1])


def big_text(x, w=16):
    """the text of x as one number, first character most significant"""
    return t.concat_lsb(hextext(x, w)[::-1])


def arr_bytes(s, rv, n):
    if isinstance(rv, JExc):
        return c(0, 8 * n)
    cells = s.mem[rv.oid].cells
    if len(cells) != n:
        return c(0, 8 * n)
    return t.concat_lsb([t.trunc(x, 8) for x in cells[::-1]])


simple_java("uintToHex", Op("uintToHex", G3, ["s"], lambda v: {"s": big_text(v["x"])}, line=line3("uintToHex"), parse=lambda s: [int(s, 16) if len(s) == 256 else -1]), 64,
            lambda M, st, v: M.call("Int256Math", "uintToHex", [arr3(M, st, v), c(8, 32)], st), lambda M, s, rv: [text_of(M, s, rv, 64)])
simple_java("uintToBytes", Op("uintToBytes", G3, ["b"], lambda v: {"b": v["x"]}, line=line3("uintToBytes"), parse=lambda s: [int(s, 16) if len(s) == 64 else -1]), 32,
            lambda M, st, v: M.call("Int256Math", "uintToBytes", [arr3(M, st, v), c(8, 32)], st), lambda M, s, rv: [arr_bytes(s, rv, 32)])


def b2u_build(M, st, v):
    arr = arr3(M, st, v)
    b = M.bytes(st, bytes_be(v["b"]))
    for s, rv in M.call("Int256Math", "bytesToUint", [b, arr, c(8, 32)], st):
        yield s, (rv, arr, b)


def b2u_read(M, s, r):
    rv, arr, b = r
    if isinstance(rv, JExc):
        return [c(0, 256)] * 3
    cells = s.mem[arr.oid].cells
    return [t.concat_lsb(cells[8 * i:8 * i + 8]) for i in range(3)]


simple_java("bytesToUint", Op("bytesToUint", G3 + [Param("b", 256)], ["g0", "x", "g1"], lambda v: {"g0": v["g0"], "x": v["b"], "g1": v["g1"]},
                              line=lambda vals: "bytesToUint %064x %s 8" % (vals["b"], "".join(words_hex(vals[k]) for k in ("g0", "x", "g1"))),
                              parse=lambda s: [words_val(s[64 * i:64 * i + 64]) for i in range(3)]), 32, b2u_build, b2u_read)


# ---- Sha256Hash (Java)

HC = "Sha256Hash"
BA = "([B)V"


def jhash(M, st, x):
    """a hash object from the 32 bytes of x: (state, reference); construction must not fork"""
    r = M.construct(st, HC, BA, [M.bytes(st, bytes_be(x))])
    if len(r) != 1 or isinstance(r[0][1], JExc):
        raise Unsupported("constructor of " + HC)
    return r[0]


def jcall(M, st, o, meth, args=(), desc=None):
    return M.call(HC, meth, [o] + list(args), st, desc=desc)


def hb_parse(s):
    a, b = s.split()
    return [int(a, 16), int(b, 16)] if len(a) == len(b) == 64 else None


HBYTES = Op("h.bytes", [Param("x", 256), Param("m1", 256), Param("m2", 256)], ["r", "again"], lambda v: {"r": v["x"], "again": v["x"]},
            line=lambda vals: "h.bytes %064x" % vals["x"], parse=hb_parse)


@unit("j.h.bytes", ["java"])
def _u(ctx, rep):
    """construction copies, toBytes copies: later changes of either array are invisible"""
    def go(v):
        M = Java(ctx).mach
        st = M.start()
        b = M.bytes(st, bytes_be(v["x"]))
        paths = []
        for s, o in M.construct(st, HC, BA, [b]):
            if isinstance(o, JExc):
                paths.append((s.pc, [c(0, 256)] * 2))
                continue
            if arr_bytes(s, b, 32) is not v["x"]:
                raise Unsupported("source array modified")
            for i, y in enumerate(bytes_be(v["m1"])):
                s.wobj(b.oid).cells[i] = y
            for s2, r in jcall(M, s, o, "toBytes"):
                x1 = arr_bytes(s2, r, 32)
                for i, y in enumerate(bytes_be(v["m2"])):
                    s2.wobj(r.oid).cells[i] = y
                for s3, r2 in jcall(M, s2, o, "toBytes"):
                    paths.append((s3.pc, [x1, arr_bytes(s3, r2, 32)]))
        return M, paths
    check_op(ctx, rep, HBYTES, "java", go)


for _n in (0, 31, 33):
    @unit("j.h.bytes/%d" % _n, ["java"], n=_n)
    def _u(ctx, rep, n):
        op = Op("h.bytes/%d" % n, [Param("b%d" % i, 8) for i in range(n)], ["tag"], lambda v: {"tag": c(1, 8)},
                line=lambda vals: "h.bytes " + ("".join("%02x" % vals["b%d" % i] for i in range(n)) or "-"), parse=lambda s: [TAG.get(s[1:], 2) if s[0] == "!" else 0])
        op.excs = True

        def go(v):
            M = Java(ctx).mach
            st = M.start()
            r = M.construct(st, HC, BA, [M.bytes(st, [v["b%d" % i] for i in range(n)])])
            return M, [(s.pc, [c(TAG.get(o.cls, 2) if isinstance(o, JExc) else 0, 8)]) for s, o in r]
        check_op(ctx, rep, op, "java", go, nval=3)


def hstr_op(n):
    def spec(v):
        if n != 64:
            return {"tag": c(1, 8), "x": c(0, 256)}
        ok = t.conj([is_digit(x) for x in cs(v)])
        return {"tag": t.ite(ok, c(0, 8), c(1, 8)), "x": t.ite(ok, swap_bytes(hexval(cs(v))), c(0, 256))}
    op = SOp("h.str", n, 16, ["tag", "x"], spec, False, parse=lambda s: [TAG.get(s[1:], 2), 0] if s[0] == "!" else [0, int(s, 16)])
    op.excs = True
    return op


for _n in (64, 0, 1, 2, 63, 65, 128):
    @unit("j.h.str/%d" % _n, ["java"], n=_n, limit=150)
    def _u(ctx, rep, n):
        op = hstr_op(n)

        def go(v):
            M = Java(ctx).mach
            st = M.start()
            paths = []
            for s, o in M.construct(st, HC, "(Ljava/lang/String;)V", [JStr(cs(v))]):
                if isinstance(o, JExc):
                    paths.append((s.pc, [c(TAG.get(o.cls, 2), 8), c(0, 256)]))
                    continue
                for s2, r in jcall(M, s, o, "toBytes"):
                    paths.append((s2.pc, [c(0, 8), arr_bytes(s2, r, 32)]))
            return M, paths
        rep.bound("strings of length 64 (every content) and, for rejection, of lengths 0, 1, 2, 63, 65, 128")
        check_op(ctx, rep, op, "java", go, nval=24 if n == 64 else 4)


def htostr_parse(s):
    return [int(s, 16) if len(s) == 256 else -1]


simple_java("h.toString", Op("h.tostr", [Param("x", 256)], ["s"], lambda v: {"s": big_text(swap_bytes(v["x"]))}, parse=htostr_parse), 64,
            lambda M, st, v: (lambda so: jcall(M, so[0], so[1], "toString"))(jhash(M, st, v["x"])), lambda M, s, rv: [text_of(M, s, rv, 64)])


def hcmp_parse(s):
    a = s.split()
    eq = int(a[0])
    return [eq, int(a[1]) & 255, int(not eq or a[2] == a[3])] + [int(x) for x in a[4:7]]


def hcmp_spec(v):
    x, y = swap_bytes(v["x"]), swap_bytes(v["y"])
    return {"eq": t.zext(t.eq(x, y), 32), "cmp": t.ite(t.eq(x, y), c(0, 8), t.ite(t.ult(x, y), c(255, 8), c(1, 8))), "hash": t.TRUE, "null": c(0, 32), "str": c(0, 32), "self": c(1, 32)}


JHCMP = Op("h.cmp", [Param("x", 256), Param("y", 256)], ["eq", "cmp", "hash", "null", "str", "self"], hcmp_spec, special=[hnear], parse=hcmp_parse)


@unit("j.h.cmp", ["java"])
def _u(ctx, rep):
    from sv.jvm import NULL
    EQD = "(Ljava/lang/Object;)Z"

    def go(v):
        M = Java(ctx).mach
        st, a = jhash(M, M.start(), v["x"])
        st, b = jhash(M, st, v["y"])
        calls = [("equals", [b], EQD), ("compareTo", [b], "(Lio/nayuki/bitcoin/crypto/Sha256Hash;)I"), ("hashCode", [], None), ("hashCode2", [], None), ("equals", [NULL], EQD), ("equals", [JStr([c(97, 16)])], EQD), ("equals", [a], EQD)]
        states = [(st, [])]
        for m, args, d in calls:
            nxt = []
            for s, acc in states:
                for s2, rv in M.call(HC, m.rstrip("2"), [b if m[-1] == "2" else a] + args, s, desc=d):
                    if isinstance(rv, JExc):
                        M.oblige(s2, t.FALSE, "exception " + rv.cls, m)
                        continue
                    nxt.append((s2, acc + [rv]))
            states = nxt
        paths = []
        for s, r in states:
            sg = t.ite(t.eq(r[1], c(0, 32)), c(0, 8), t.ite(t.slt(r[1], c(0, 32)), c(255, 8), c(1, 8)))
            paths.append((s.pc, [r[0], sg, t.bor(t.eq(r[0], c(0, 32)), t.eq(r[2], r[3])), r[4], r[5], r[6]]))
        return M, paths
    check_op(ctx, rep, JHCMP, "java", go)
