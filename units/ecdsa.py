"""ECDSA: signing, deterministic nonces, verification."""
import random
import hashlib, hmac as pyhmac
from sv import term as t, solver, fieldabs as fa
from sv.engine import Unsupported
from sv.frame import unit
from sv.ops import Param, sample, solve_obligations, P, N, M256, INTERESTING
from sv.cppx import Cpp
from sv.javax import words_hex
from sv.jvm import Java, JExc
from sv.contracts import cpp_uint, java_uint
from sv.solver import Q
from sv.fieldabs import Undecided, pv, pc_, padd, pmul, psub
from sv.modn import ModN, cpp_modn, java_modn, nrecip, nmod
from units import curve_ref as cr
from units.curve import needs, aff, show
from units.conv import bytes_be, jhash

c = t.const
AA, A5 = int("a" * 64, 16), int("5" * 64, 16)


def hmac_ref(d, h):
    return int.from_bytes(pyhmac.new(d.to_bytes(32, "big"), h.to_bytes(32, "big"), hashlib.sha256).digest(), "big")


t.UF_EVAL["hmac"] = lambda a: hmac_ref(a[0], a[1])


# ---------------------------------------------------------------- references on concrete values
def sign_ref(d, h, k):
    if not 0 < k < N:
        return 0, AA, A5
    r = cr.mul(k, cr.G)[0] % N
    s = pow(k, -1, N) * (h + r * d) % N
    if not r or not s:
        return 0, AA, A5
    return 1, r, min(s, N - s)


def verify_ref(q, h, r, s):
    """q: projective triple"""
    if not (0 < r < N and 0 < s < N) or q[2] != 1 or (q[1] * q[1] - q[0] ** 3 - 7) % P:
        return 0
    w = pow(s, -1, N)
    T = cr.add(cr.mul(h * w % N, cr.G), cr.mul(r * w % N, (q[0], q[1])))
    return int(T is not None and T[0] % N == r)


# ---------------------------------------------------------------- lines of the replay drivers
def sign_line(lang, d, h, k=None):
    op = "e.sign" if k is not None else "e.signh"
    if lang == "java":
        return " ".join([op, words_hex(d), "%064x" % h] + ([words_hex(k)] if k is not None else []))
    return " ".join([op, "%064x" % d, "%064x" % h] + (["%064x" % k] if k is not None else []))


def sign_out(lang, s, d, k):
    """(ok, r, s) or None"""
    f = s.split()
    try:
        if lang == "java":
            v = [sum(int(x[8 * i:8 * i + 8], 16) << 32 * i for i in range(8)) for x in f[1:]]
            if v[2:] != [d] + ([k] if k is not None else []):
                return None
            return int(f[0]), v[0], v[1]
        return int(f[0], 16), int(f[1], 16), int(f[2], 16)
    except (ValueError, IndexError):
        return None


def verify_line(lang, q, h, r, s):
    if lang == "java":
        return "e.verify %s %064x %s %s" % ("".join(words_hex(x) for x in q), h, words_hex(r), words_hex(s))
    return " ".join(["e.verify"] + ["%064x" % x for x in q] + ["%064x" % x for x in (h, r, s)])


def run_signs(ctx, rep, lang, cases):
    """cases: (d, h, k or None)"""
    lines = [sign_line(lang, *x) for x in cases]
    got = ctx.native(lang, lines)
    if "?" in got:
        raise Unsupported("the replay driver does not know this operation")
    for (d, h, k), ln, g in zip(cases, lines, got):
        w = sign_ref(d, h, hmac_ref(d, h) if k is None else k)
        if sign_out(lang, g, d, k) != w:
            rep.violated("signature", lang, ln, "%d r=%064x s=%064x" % w, g)
            return False
        rep.validated += 1
    return True


def run_verifies(ctx, rep, lang, cases):
    lines = [verify_line(lang, *x) for x in cases]
    got = ctx.native(lang, lines)
    if "?" in got:
        raise Unsupported("the replay driver does not know this operation")
    for x, ln, g in zip(cases, lines, got):
        w = verify_ref(*x)
        if g.strip() != str(w):
            rep.violated("verification", lang, ln, str(w), g)
            return False
        rep.validated += 1
    return True


SP = [0, 1, 2, N - 1, N, N + 1, N - 2, M256, M256 - 1, N // 2, N // 2 + 1, N // 2 - 1, 1 << 255, 1 << 128, (1 << 128) - 1, M256 - N, P, P - 1, P - N]


def rs(rnd, lo=0, hi=M256):
    while True:
        k = rnd.randrange(5)
        v = rnd.choice(SP) if k == 0 else (rnd.choice(SP) + rnd.randrange(-3, 4)) if k == 1 else rnd.getrandbits(rnd.randrange(1, 257)) if k == 2 else rnd.getrandbits(256)
        if lo <= v <= hi:
            return v


def sign_samples(rnd, n, nonce=True):
    res = []
    while len(res) < n:
        d, h, k = rs(rnd, 1, N - 1), rs(rnd), rs(rnd)
        if not nonce:
            res.append((d, h, None))
            continue
        x = rnd.randrange(8)
        if x < 4 and 0 < k < N:       # a chosen s or a chosen intermediate value
            r = cr.mul(k, cr.G)[0] % N
            e = rnd.choice([1, 2, N - 1, N // 2, N // 2 + 1, N // 2 + 2, N - 2, 0, rnd.getrandbits(128), N - rnd.getrandbits(128)]) % N
            if x == 0:         # s
                h = (e * k - r * d) % N
            elif x == 1:       # sum
                h = (e - r * d) % N
            elif x == 2:
                h = rs(rnd) if rnd.random() < .5 else N + rnd.randrange(1 << 128)
                d = (e - h) * pow(r, -1, N) % N or 1
            else:
                d = e * pow(r, -1, N) % N or 1
                h = rs(rnd)
            if h + N <= M256 and rnd.random() < .5:
                h += N
        elif x == 4:
            k = rnd.choice([0, 1, N - 1, N, N + 1, M256, N + rnd.randrange(1 << 100)])
        res.append((d, h, k))
    return res


def verify_samples(rnd, n):
    res = []
    pts = [cr.lift(x) for x in range(1, 40) if cr.lift(x)]
    big = []
    x = N
    while len(big) < 12:
        p = cr.lift(x)
        x += 1 if rnd.random() < .5 else rnd.randrange(1, P - N)
        if x >= P:
            x = N
        if p:
            big.append(p)
    while len(res) < n:
        k = rnd.randrange(14)
        d = rs(rnd, 1, N - 1)
        h = rs(rnd)
        kk = rs(rnd, 1, N - 1)
        q = cr.mul(d, cr.G)
        r, s = rs(rnd), rs(rnd)
        if k < 7:
            ok, r, s = sign_ref(d, h, kk)
            if not ok:
                continue
            if rnd.random() < .5:
                s = N - s
        z = 1
        if k == 1:
            r, s = rnd.choice([(r, s + N), (r + N, s), (0, s), (r, 0), (r, N), (N, s), (r, s ^ 1), (r ^ 1, s), (s, r), (N - r, s), (r, 1), (1, s)])
        elif k == 2:
            h ^= 1 << rnd.randrange(256)
        elif k == 3:
            q = cr.neg(q)
        elif k == 4:       # not a normalized point on the curve
            j = rnd.randrange(5)
            if j == 0:
                z = rnd.choice([2, P - 1, 1 << 200])
                q = (q[0] * z % P, q[1] * z % P)
            elif j == 1:
                q = (q[0], q[1] ^ 1)
            elif j == 2:
                q, z = (0, rnd.choice([1, 5])), 0
            elif j == 3:
                q, z = q, 0
            else:
                q, z = (0, 0), rnd.choice([0, 1])
        elif k in (7, 8, 9, 10, 11):      # chosen sum T
            u1, u2 = rs(rnd) % N, rs(rnd, 1, N - 1)
            if k == 11:
                u1 = rnd.choice([0, 1, N - 1, u2])
            if k in (7, 8):
                T = rnd.choice(big)
            elif k == 9:
                T = None
            else:
                T = rnd.choice(pts)
            S_ = cr.add(T, cr.neg(cr.mul(u1, cr.G)))
            if S_ is None:
                continue
            q = cr.mul(pow(u2, -1, N), S_)
            r = T[0] % N if T else rnd.choice([1, u2, q[0] % N])
            if not r:
                continue
            s = r * pow(u2, -1, N) % N
            h = u1 * s % N
            if h + N <= M256 and rnd.random() < .5:
                h += N
            if k == 8:
                r = T[0] if T[0] <= M256 and rnd.random() < .5 else r
        elif k == 12:
            h = rnd.choice([0, N, N >> 1, M256, N - 1, N + 1])
            ok, r, s = sign_ref(d, h, kk)
            if not ok:
                continue
        q = (q[0] % P, q[1] % P)
        r, s, h = r & M256, s & M256, h & M256
        res.append(((q[0], q[1], z), h, r, s))
    return res


# ---------------------------------------------------------------- encoding
def cpp_machine(ctx, lang, pts, mn, preds=False):
    cx = Cpp(ctx, "ir" if lang == "cpp" else "ir_asm")
    cpp_uint(cx.mach)
    fa.cpp_points(cx.mach, pts, multiply=True, preds=preds)
    cpp_modn(cx.mach, mn)
    return cx


def java_machine(ctx, pts, mn, preds=False):
    J = Java(ctx)
    java_uint(J.mach)
    fa.java_points(J.mach, pts, multiply=True, preds=preds)
    java_modn(J.mach, mn)
    return J


def flip(x):
    return t.concat_lsb(list(bytes_be(x)))


def encode_sign(ctx, lang, v, pts, mn, nonce=True):
    """-> machine, [(pc, ok, r, s)]"""
    if lang != "java":
        cx = cpp_machine(ctx, lang, pts, mn)
        M = cx.mach
        if not nonce:
            def hm(M, st, a):
                out, kp, kn, mp, n = a
                if kn.op != "const" or n.op != "const":
                    return NotImplemented
                k, m = M.read_term(st, kp, t.cval(kn)), M.read_term(st, mp, t.cval(n))
                M.write_term(st, out, flip(t.uf("hmac", 256, (flip(k), flip(m)))))
                return None
            M.stubs["Sha256::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long)"] = hm
        st = cx.start()
        d = cx.obj(st, v["d"], "d", const=True)
        h = cx.bytes_obj(st, bytes_be(v["h"]), "h", const=True)
        r, s = cx.obj(st, v["r0"], "r"), cx.obj(st, v["s0"], "s")
        if nonce:
            k = cx.obj(st, v["k"], "k", const=True)
            rets = cx.call("h_e_sign", [d, h, k, r, s], st)
        else:
            rets = cx.call("h_e_signh", [d, h, r, s], st)
        return M, [(x.pc, rv, cx.read(x, r, 32), cx.read(x, s, 32)) for x, rv in rets]
    J = java_machine(ctx, pts, mn)
    M = J.mach
    st = J.start()
    st, h = jhash(M, st, v["h"])
    if not nonce:
        def hm(M, st, a):
            k, m = (t.concat_lsb(list(reversed(st.mem[x.oid].cells))) for x in a[:2])
            s2, o = jhash(M, st, t.uf("hmac", 256, (k, m)))
            return [(s2, o)]
        M.stubs["Sha256.getHmac([B[B)Lio/nayuki/bitcoin/crypto/Sha256Hash;"] = hm
    arr = {x: M.ints(st, M.words(st, v[x])) for x in (("d", "k", "r0", "s0") if nonce else ("d", "r0", "s0"))}
    args = [arr["d"], h] + ([arr["k"]] if nonce else []) + [arr["r0"], arr["s0"]]
    out = []
    for x, rv in M.call("Ecdsa", "sign" if nonce else "signWithHmacNonce", args, st):
        if isinstance(rv, JExc):
            M.oblige(x, t.FALSE, "exception " + rv.cls, "sign")
            continue
        w = {q: t.concat_lsb(x.mem[p.oid].cells) for q, p in arr.items()}
        for q in ("d", "k"):
            if q in w and w[q] is not v[q]:
                M.oblige(x, t.eq(w[q], v[q]), "argument modified", "sign")
        out.append((x.pc, rv, w["r0"], w["s0"]))
    return M, out


def tok_norm(pts, leaf):
    """walks tokens of kind norm -> the triple inside, else None"""
    if leaf[0] != "tok":
        return None
    kind, args, _ = pts.tokens[leaf[1]]
    return args[0] if kind == "norm" else None


def is_g(pts, tr):
    l = pts.leaf(tr)
    return l[0] == "const" and aff(l[1]) == cr.G


def check_sign(ctx, rep, lang, nonce=True):
    import sys
    sys.setrecursionlimit(100000)
    label = "%s/%s" % ("e.sign" if nonce else "e.signh", lang)
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    if not run_signs(ctx, rep, lang, sign_samples(rnd, 24, nonce)):
        return
    v = {"d": t.var("d", 256, 1, N - 1), "h": t.var("h", 256), "r0": t.var("r0", 256), "s0": t.var("s0", 256)}
    v["k"] = k = t.var("k", 256) if nonce else t.uf("hmac", 256, (v["d"], v["h"]))
    pts, mn = fa.Points(), ModN()
    bad = None

    def more(n):
        return run_signs(ctx, rep, lang, sign_samples(rnd, n, nonce))
    try:
        mach, paths = encode_sign(ctx, lang, v, pts, mn, nonce)
        rep.use(mach)
        rep.assume("curve operations as decided by P01-P03, 256-bit operations by U01/U02, the reciprocal modulo the order by U04")
        valid = t.band(t.ult(c(0, 256), k), t.ult(k, c(N, 256)))
        # the point k*G
        X = None
        for kind, args, tr in pts.tokens:
            if kind == "norm":
                l = pts.leaf(args[0])
                if l[0] == "tok" and pts.tokens[l[1]][0] == "mul":
                    b, n = pts.tokens[l[1]][1]
                    if is_g(pts, b) and n is k:
                        X = tr[0]
        if X is None:
            raise Undecided("the point nonce*G was not found")
        pr = mn.poly(X)
        rv = mn.find(pr)
        if not rv:
            raise Undecided("r was not found")
        ps = pmul(mn.poly(nrecip(k)), padd(mn.poly(v["h"]), pmul(pr, mn.poly(v["d"]))))
        sv_ = mn.find(ps)
        if not sv_:
            raise Undecided("s was not found")
        R, S = rv[0], sv_[0]
        facts = mn.equal_values()
        z = c(0, 256)
        ok = t.band(valid, t.ne(R, z), t.ne(S, z))
        neg = t.sub(c(N, 256), S)
        low = t.ite(t.ult(neg, S), neg, S)
        qs = []
        for i, (pcs, ret, r, s) in enumerate(paths):
            wrong = t.disj([t.ne(ret, t.zext(ok, 32)), t.ne(r, t.ite(ok, R, v["r0"])), t.ne(s, t.ite(ok, low, v["s0"]))])
            qs.append(Q("%s: success, r and s #%d" % (label, i), list(pcs) + facts + [wrong], 60))
        qs.append(Q("%s: paths are exhaustive" % label, [t.bnot(t.disj([t.conj(list(p[0])) for p in paths]))], 30))
        solver.solve_many(qs, jobs=2)
        for q in qs:
            if q.result == "unsat":
                rep.claim(q.name, "proved", q.secs)
            else:
                bad = (q.name, q.result)
                if q.result == "sat" and nonce:
                    e = q.env
                    if not run_signs(ctx, rep, lang, realise(rnd, e, e.get(S.args[0]), nonce)):
                        return
        rep.claim("%s: %d reductions modulo the order recognised" % (label, mn.queries), "proved", mn.secs)
        if bad is None:
            solve_obligations(ctx, rep, mach, facts, label)
    except (Undecided, Unsupported) as e:
        bad = (label, str(e))
    if bad:
        if more(300 if ctx.quick else 1500):
            rep.claim(bad[0], "undecided", 0, bad[1])


def realise(rnd, env, s, nonce):
    """inputs near a solver model: its nonce and key, and a hash that gives the s of the model"""
    k, d, h = env.get("k", 1), env.get("d", 1), env.get("h", 0)
    res = [(d, h, k)]
    for kk in (k, rnd.randrange(1, N)):
        if s is not None and 0 < kk < N:
            r = cr.mul(kk, cr.G)[0] % N
            h2 = (s * kk - r * d) % N
            res.append((d, h2, kk))
            if h2 + N <= M256:
                res.append((d, h2 + N, kk))
    return res


for _lang in ("cpp", "asm", "java"):
    @unit("e.sign/" + _lang, needs(_lang), lang=_lang, limit=200)
    def _u(ctx, rep, lang):
        check_sign(ctx, rep, lang)

    @unit("e.signh/" + _lang, needs(_lang), lang=_lang, limit=200)
    def _u(ctx, rep, lang):
        check_sign(ctx, rep, lang, nonce=False)


# ---------------------------------------------------------------- verification
def encode_verify(ctx, lang, v, pts, mn):
    q = tuple(v["q" + a] for a in "xyz")
    if lang != "java":
        cx = cpp_machine(ctx, lang, pts, mn, preds=True)
        st = cx.start()
        p = cx.obj(st, t.concat_lsb(list(q)), "q", const=True)
        h = cx.bytes_obj(st, bytes_be(v["h"]), "h", const=True)
        r, s = cx.obj(st, v["r"], "r", const=True), cx.obj(st, v["s"], "s", const=True)
        return cx.mach, [(x.pc, rv) for x, rv in cx.call("h_e_verify", [p, h, r, s], st)]
    J = java_machine(ctx, pts, mn, preds=True)
    M = J.mach
    st = J.start()
    st, h = jhash(M, st, v["h"])
    cells = []
    for x in q:
        cells += M.words(st, x)
    p = M.ints(st, cells)
    r, s = M.ints(st, M.words(st, v["r"])), M.ints(st, M.words(st, v["s"]))
    out = []
    for x, rv in M.call("Ecdsa", "verify", [p, h, r, s], st):
        if isinstance(rv, JExc):
            M.oblige(x, t.FALSE, "exception " + rv.cls, "verify")
            continue
        for a, w in ((r, v["r"]), (s, v["s"])):
            M.oblige(x, t.eq(t.concat_lsb(x.mem[a.oid].cells), w), "argument modified", "verify")
        M.oblige(x, t.eq(t.concat_lsb(x.mem[p.oid].cells), t.concat_lsb(list(q))), "argument modified", "verify")
        out.append((x.pc, rv))
    return M, out


def check_verify(ctx, rep, lang):
    import sys
    sys.setrecursionlimit(100000)
    label = "e.verify/" + lang
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    if not run_verifies(ctx, rep, lang, verify_samples(rnd, 60)):
        return
    v = {"h": t.var("h", 256), "r": t.var("r", 256), "s": t.var("s", 256)}
    for a in "xyz":
        v["q" + a] = t.var("q" + a, 256, 0, P - 1)
    q = tuple(v["q" + a] for a in "xyz")
    pts, mn = fa.Points(), ModN()
    bad = None
    try:
        mach, paths = encode_verify(ctx, lang, v, pts, mn)
        rep.use(mach)
        rep.assume("curve operations as decided by P01-P03, 256-bit operations by U01/U02, the reciprocal modulo the order by U04")
        rep.assume("the group of the curve has prime order N, so N times a point on the curve is the identity")
        w = mn.poly(nrecip(v["s"]))
        p1, p2 = nmod(pmul(w, mn.poly(v["h"]))), nmod(pmul(w, mn.poly(v["r"])))

        def mulby(tr, what, poly):
            l = pts.leaf(tr)
            if l[0] != "tok" or pts.tokens[l[1]][0] != "mul":
                return False
            b, n = pts.tokens[l[1]][1]
            return (is_g(pts, b) if what == "g" else tuple(b) == q) and mn.poly(n) == poly
        T = None
        ax = []
        for kind, args, tr in pts.tokens:
            if kind == "norm":
                l = pts.leaf(args[0])
                if l[0] == "tok" and pts.tokens[l[1]][0] == "add":
                    a, b = pts.tokens[l[1]][1]
                    if (mulby(a, "g", p1) and mulby(b, "q", p2)) or (mulby(b, "g", p1) and mulby(a, "q", p2)):
                        T = tr
            elif kind == "mul" and tuple(args[0]) == q and args[1] is c(N, 256):
                ax.append(t.implies(t.band(t.uf("oncurve", 1, q), t.eq(q[2], c(1, 256))), fa.is_zero(tr)))
        if T is None:
            raise Undecided("the sum was not found")
        xs = mn.find(mn.poly(T[0]))
        if not xs:
            raise Undecided("the reduced x coordinate was not found")
        facts = mn.equal_values() + ax
        rng = lambda x: t.band(t.ult(c(0, 256), x), t.ult(x, c(N, 256)))
        # the identity has z = 0
        good = t.band(rng(v["r"]), rng(v["s"]), t.eq(q[2], c(1, 256)), t.uf("oncurve", 1, q), t.bnot(fa.is_zero(T)), t.eq(xs[0], v["r"]))
        qs = []
        for i, (pcs, ret) in enumerate(paths):
            qs.append(Q("%s: accepts exactly the valid #%d" % (label, i), list(pcs) + facts + [t.ne(ret, t.zext(good, 32))], 60))
        qs.append(Q("%s: paths are exhaustive" % label, [t.bnot(t.disj([t.conj(list(p[0])) for p in paths]))], 30))
        solver.solve_many(qs, jobs=2)
        for x in qs:
            if x.result == "unsat":
                rep.claim(x.name, "proved", x.secs)
            else:
                bad = (x.name, x.result)
        rep.claim("%s: %d reductions modulo the order recognised" % (label, mn.queries), "proved", mn.secs)
        if bad is None:
            solve_obligations(ctx, rep, mach, facts, label)
    except (Undecided, Unsupported) as e:
        bad = (label, str(e))
    if bad:
        if run_verifies(ctx, rep, lang, verify_samples(rnd, 500 if ctx.quick else 2000)):
            rep.claim(bad[0], "undecided", 0, bad[1])


for _lang in ("cpp", "asm", "java"):
    @unit("e.verify/" + _lang, needs(_lang), lang=_lang, limit=250)
    def _u(ctx, rep, lang):
        check_verify(ctx, rep, lang)


@unit("e.rt", ["cpp", "asm", "java"], limit=120)
def _u(ctx, rep):
    """what sign outputs is what verify accepts: the scalars of the sum add up to the nonce (or its negative)"""
    import z3, time
    rnd = random.Random("%s/rt" % ctx.seed)
    for lang in ("cpp", "java", "asm"):
        smp = sign_samples(rnd, 16) + sign_samples(rnd, 6, False)
        lines = [sign_line(lang, *x) for x in smp]
        got = ctx.native(lang, lines)
        vs = []
        for (d, h, k), ln, g in zip(smp, lines, got):
            o = sign_out(lang, g, d, k)
            if o is None:
                rep.violated("signature", lang, ln, "a result", g)
                return
            if o[0]:
                vs.append(verify_line(lang, cr.mul(d, cr.G) + (1,), h, o[1], o[2]))
        for ln, g in zip(vs, ctx.native(lang, vs)):
            if g.strip() != "1":
                rep.violated("a signature made by sign is accepted", lang, ln, "1", g)
                return
            rep.validated += 1
    H, d, k, i, w, r, S, a, b, e, f = z3.Ints("H d k i w r S a b e f")
    m = H + r * d
    for sg in (1, -1):
        # hypotheses: k*i = 1 + aN, S = sg*i*(H+rd) + bN, S*w = 1 + eN; claim: w*H + w*r*d = sg*k + N*(...)
        E1, E2, E3 = k * i - 1 - a * N, S - sg * i * m - b * N, S * w - 1 - e * N
        claim = w * H + w * r * d - sg * k - N * (sg * e * k - sg * b * k * w - a * w * m)
        sl = z3.Solver()
        sl.set("timeout", 30000)
        sl.add(z3.simplify(claim - (-w * m * E1 + sg * k * E3 - sg * k * w * E2), som=True) != 0)
        t0 = time.time()
        x = sl.check()
        dt = time.time() - t0
        solver.STATS["queries"] = solver.STATS.get("queries", 0) + 1
        solver.STATS["seconds"] = solver.STATS.get("seconds", 0) + dt
        rep.claim("u1 + u2*d = %sk modulo the order" % ("" if sg == 1 else "-"), "proved" if x == z3.unsat else "undecided", dt, "" if x == z3.unsat else str(x))
