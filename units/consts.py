"""Published constants, in every order of static initialisation."""
import hashlib, hmac as pyhmac, itertools
from sv import term as t, llvm, solver
from sv.solver import Q
from sv.engine import Unsupported
from sv.frame import unit
from sv.ops import P, N
from sv.cppx import Cpp
from sv.jvm import Java
from sv.javax import words_hex

c = t.const
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
ALPHA = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
be = lambda *xs: " ".join("%064x" % x for x in xs)
# operations that depend on constants, with their results
K5 = 0xC0FFEE1234567890ABCDEF1234567890ABCDEF1234567890ABCDEF1234567891


def pt_mul(k):
    from units.curve_ref import mul, G
    return mul(k, G)


def battery():
    yield "f.new " + be(P + 5), be(5)
    yield "f.add " + be(P - 1, 7), be(6, 7)
    yield "f.sub " + be(3, 7), be(P - 4, 7)
    yield "f.mul " + be(P - 2, 9), be((P - 2) * 9 % P, 9)
    yield "f.recip " + be(K5 % P), be(pow(K5, -1, P))
    yield "u.recip " + be(K5 % N, N), be(pow(K5, -1, N), N)
    x, y = pt_mul(K5 % N)
    yield "p.pub " + be(K5 % N), be(x, y, 1)
    yield "p.isoncurve " + be(x, y, 1), "1"
    yield "p.norm " + be(0, 5, 0), be(0, 1, 0)
    yield "p.isoncurve " + be(0, 1, 0), "0"


def others(ctx, rep, lang):
    """every other operation of the library, with the results computed here: -> False after a violation"""
    import random
    from units import ecdsa, b58, xkey
    rnd = random.Random(7)
    if not ecdsa.run_signs(ctx, rep, lang, [(1, 2, 3)] + [x for x in ecdsa.sign_samples(rnd, 14)] + ecdsa.sign_samples(rnd, 4, False)):
        return False
    if not ecdsa.run_verifies(ctx, rep, lang, ecdsa.verify_samples(rnd, 12)):
        return False
    for fmt in ("pkh", "wif", "wifc", "xprv"):
        if not b58.run_encode(ctx, rep, lang, fmt, [b58.payload(fmt, rnd) for _ in range(4)]):
            return False
    for fmt in ("pkh", "wif", "xprv"):
        if not b58.run_decode(ctx, rep, fmt, b58.texts(fmt, rnd, 10), lang):
            return False
    more = [(xkey.line(*x), xkey.text(xkey.child_ref(*x[0]))) for x in xkey.samples(rnd, 6)]
    msg = [rnd.randbytes(n) for n in (0, 3, 55, 56, 64, 111, 112, 119, 120, 128, 135, 136, 137, 200)]
    for b in msg:
        h = b.hex() or "-"
        more += [("sha256 " + h, hashlib.sha256(b).hexdigest()), ("sha256d " + h, hashlib.sha256(hashlib.sha256(b).digest()).hexdigest()), ("sha512 " + h, hashlib.sha512(b).hexdigest()),
                 ("rmd160 " + h, hashlib.new("ripemd160", b).hexdigest()), ("hmac256 %s %s" % (b[::-1].hex() or "-", h), pyhmac.new(b[::-1], b, hashlib.sha256).hexdigest()),
                 ("hmac512 %s %s" % (b[::-1].hex() or "-", h), pyhmac.new(b[::-1], b, hashlib.sha512).hexdigest())]
    more += [("keccak -", "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"), ("keccak 616263", "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")]
    more += [("u.hex " + ("%064x" % K5).encode().hex(), "%064x" % K5), ("f.hex " + ("%064x" % K5).encode().hex(), "%064x" % K5)]
    x, y = pt_mul(K5 % N)
    x2, y2 = pt_mul(2 * K5 % N)
    more += [("p.compress " + be(x, y, 1), "%02x%064x" % (2 + y % 2, x)), ("p.iszero " + be(0, 1, 0), "1"), ("p.cmp " + be(x, y, 1, x2, y2, 1), "0 1")]
    for (ln, e), g in zip(more, ctx.native(lang, [a for a, _ in more])):
        if g != e:
            rep.violated("an operation on the constants", lang, ln, e, g)
            return False
    return True


CONSTS = [("h_k_uzero", 32, 0), ("h_k_uone", 32, 1), ("h_k_order", 32, N), ("h_k_fizero", 32, 0), ("h_k_fione", 32, 1), ("h_k_a", 32, 0), ("h_k_b", 32, 7),
          ("h_k_g", 96, GX | GY << 256 | 1 << 512), ("h_k_pzero", 96, 1 << 256)]
EXPECT = " ".join("%064x" % x for x in (0, 1, N, 0, 1, 0, 7, GX, GY, 1, 0, 1, 0)) + " " + ALPHA.encode().hex()


@unit("k.const/cpp", ["ir", "cpp"], limit=200)
def _u(ctx, rep):
    m = ctx.module("ir")
    ctors = llvm.global_ctors(m)
    files = [f.split("_GLOBAL__sub_I_")[-1] for f in ctors]
    orders = list(itertools.permutations(range(len(ctors))))
    if len(orders) > 720:
        orders = [tuple(range(len(ctors)))[i:] + tuple(range(len(ctors)))[:i] for i in range(len(ctors))] + [tuple(reversed(range(len(ctors))))]
        rep.bound("%d initialisation orders of %d files" % (len(orders), len(ctors)))
    else:
        rep.bound("all %d initialisation orders of the %d files with static initialisers" % (len(orders), len(ctors)))
    cx = Cpp(ctx, "ir", static=False)
    M = cx.mach
    for fn, n, _ in CONSTS:
        if "@" + fn not in m.funcs:
            raise Unsupported("no accessor " + fn)
    if ctx.native("cpp", ["k.const"])[0] != EXPECT:
        rep.violated("constants differ from the secp256k1 values", "cpp", "k.const", EXPECT, ctx.native("cpp", ["k.const"])[0])
        return
    for ln, e in battery():
        g = ctx.native("cpp", [ln])[0]
        if g != e:
            rep.violated("an operation on the constants", "cpp", ln, e, g)
            return
    if not others(ctx, rep, "cpp"):
        return
    rep.validated += 1
    ref = None
    for order in orders:
        st = M.g0.fork()
        M.obligations = []
        name = " < ".join(files[i] for i in order)
        bad = []
        for i in order:
            r = M.call(ctors[i], [], st)
            if len(r) != 1:
                raise Unsupported("static initialiser forked")
            st = r[0][0]
        bad += ["%s in %s" % (o.kind, o.where) for o in M.obligations if o.cond is not t.TRUE]
        M.obligations = []
        facts, diff = [], []
        for fn, n, want in CONSTS:
            r = M.call("@" + fn, [], st.fork())
            x = M.read_term(r[0][0], r[0][1], n)
            v = t.var("val_" + fn, 8 * n)
            facts.append(t.eq(v, x))
            diff.append(t.bnot(t.eq(v, c(want, 8 * n))))
            if t.eq(x, c(want, 8 * n)) is not t.TRUE:
                bad.append(fn[4:])
        goal = facts + [t.disj(diff)]
        r = M.call("@h_k_alphabet", [], st.fork())
        s2, p = r[0]
        txt = bytes(t.cval(M.read_term(s2, llvm.Ptr(p.oid, t.add(p.off, c(i, 64))), 1)) for i in range(59))
        if txt != ALPHA.encode() + b"\0":
            bad.append("alphabet")
        img = {g: tuple(st.mem[q.oid].cells) for g, q in M.globals.items() if "std" not in g and "__" not in g}
        if ref is None:
            ref = img
        elif img != ref:
            bad.append("objects differing between orders: " + ", ".join(sorted(g for g in img if img[g] != ref[g])))
        if not bad:
            q = Q("constants after %s" % name, goal, 20)
            solver.solve_many([q], jobs=1)
            rep.claim(q.name, "proved" if q.result == "unsat" else "undecided", q.secs)
            rep.witness += 1
            continue
        lang = "cpp@" + "+".join(f if f.endswith(".cpp") else f + ".cpp" for f in (files[i] for i in order))
        for ln, e in [("k.const", EXPECT)] + list(battery()):
            g = ctx.native(lang, [ln])[0]
            if g != e:
                rep.violated("with static initialisation order %s" % name, lang, ln, e, g)
                return
        if not others(ctx, rep, lang):
            return
        rep.claim("constants after %s" % name, "undecided", 0, "; ".join(bad)[:300])
    rep.use(M)


JCONST = [("Int256Math", "ZERO", 0, 8), ("Int256Math", "ONE", 1, 8), ("Int256Math", "FIELD_MODULUS", P, 8), ("CurvePointMath", "A", 0, 8), ("CurvePointMath", "B", 7, 8), ("CurvePointMath", "ORDER", N, 8),
          ("CurvePointMath", "ZERO_POINT", 1 << 256, 24), ("CurvePointMath", "BASE_POINT", GX | GY << 256 | 1 << 512, 24)]
JEXPECT = " ".join(words_hex(v, n) for _, _, v, n in JCONST) + " " + "".join("%04x" % ord(x) for x in ALPHA)
GHEX = words_hex(JCONST[-1][2], 24)


@unit("k.const/java", ["java"], limit=200)
def _u(ctx, rep):
    from sv.jvm import JStr
    J0 = Java(ctx)
    names = sorted(J0.mach.short)
    ini = [n for n in names if ("<clinit>", "()V") in J0.mach.classes[J0.mach.short[n]].methods and n != "VerifDriver"]
    rep.bound("every class with a static initialiser as the first one initialised (%s)" % ", ".join(ini))
    for first in ini:
        order = [J0.mach.short[first]] + [J0.mach.short[n] for n in names if n != first and n != "VerifDriver"]
        bad = []
        try:
            J = Java(ctx, order=order)
            st = J.start()
            M = J.mach
            for cls, f, want, n in JCONST:
                r = M.static(st, M.short[cls], f)
                cells = st.mem[r.oid].cells
                if len(cells) != n or t.eq(t.concat_lsb(cells), c(want, 32 * n)) is not t.TRUE:
                    bad.append(f)
            a = M.static(st, M.short["Base58Check"], "ALPHABET")
            if not isinstance(a, JStr) or a.const() != ALPHA:
                bad.append("ALPHABET")
            # the base point is handed out as a fresh copy
            (s, g), = M.call("CurvePointMath", "getBasePoint", [], st)
            if t.concat_lsb(s.mem[g.oid].cells) is not c(JCONST[-1][2], 768):
                bad.append("getBasePoint")
            s.wobj(g.oid).cells[0] = t.var("w", 32)
            (s, g), = M.call("CurvePointMath", "getBasePoint", [], s)
            if t.concat_lsb(s.mem[g.oid].cells) is not c(JCONST[-1][2], 768):
                bad.append("getBasePoint (after changing an earlier result)")
            rep.use(M)
        except (KeyError, ValueError, TypeError, AttributeError) as e:
            bad.append(repr(e))
        for ln, e in (("k.const " + first, JEXPECT), ("basePoint", GHEX + " " + GHEX)):
            g = ctx.native("java", [ln])[0]
            if g != e:
                rep.violated("class initialisation starting with %s" % first, "java", ln, e, g)
                return
        rep.witness += 1
        rep.validated += 1
        rep.claim("constants, %s first" % first, "undecided" if bad else "proved", 0, ", ".join(bad))
