"""Extended private keys (BIP 32)."""
import random, hashlib, hmac as pyhmac
from sv import term as t, solver, fieldabs as fa
from sv.engine import Unsupported, Ptr
from sv.frame import unit
from sv.ops import solve_obligations, P, N, M256
from sv.contracts import cpp_uint
from sv.cppx import Cpp
from sv.solver import Q
from sv.fieldabs import Undecided
from units import curve_ref as cr
from units.curve import needs, aff
from units.conv import bytes_be, swap_bytes
from units.ecdsa import rs

c = t.const
HARDEN = 1 << 31


def flip(x):
    return t.concat_lsb(bytes_be(x))


def bb(x, n):
    return x.to_bytes(n, "big")


def hm(k, m):
    return int.from_bytes(pyhmac.new(k, m, hashlib.sha512).digest(), "big")


t.UF_EVAL["hmac512"] = lambda a: hm(bb(a[0], 32), bb(a[1], 37))
t.UF_EVAL["hash160"] = lambda a: int.from_bytes(hashlib.new("ripemd160", hashlib.sha256(bb(a[0], 33)).digest()).digest(), "big")


def child_ref(priv, pub, cc, depth, index, pp, i, h=None):
    comp = bytes([2 + pub[1] % 2]) + bb(pub[0], 32)
    msg = (b"\0" + bb(priv, 32) if i >= HARDEN else comp) + bb(i, 4)
    if h is None:
        h = hm(cc, msg)
    left = h >> 256
    n = (left + priv) % N
    if left >= N or n == 0:
        return 0, (0, 1, 0), bytes(32), 0, 0, bytes(4)
    fp = hashlib.new("ripemd160", hashlib.sha256(comp).digest()).digest()[:4]
    return n, cr.mul(n, cr.G) + (1,), bb(h & M256, 32), (depth + 1) % 256, i, fp


def text(k):
    return " ".join(["%064x" % k[0]] + ["%064x" % x for x in k[1]] + [k[2].hex(), "%x" % k[3], "%x" % k[4], k[5].hex()])


def line(x, h=None):
    priv, pub, cc, dep, idx, pp, i = x
    return ("x.child " if h is None else "x.childh %0128x " % h) + "%064x %064x %064x %064x %s %x %x %s %x" % ((priv,) + pub + (cc.hex(), dep, idx, pp.hex(), i))


def rb(rnd, n):
    return bytes(rnd.getrandbits(8) for _ in range(n))


def samples(rnd, n, chosen=False):
    res = []
    for _ in range(n):
        priv = rs(rnd, 1, N - 1)
        pub = (cr.mul(priv, cr.G) if rnd.random() < .5 else cr.mul(rnd.getrandbits(200), cr.G)) + (1,)
        dep = rnd.choice([0, 1, 127, 128, 254, 255, rnd.randrange(256)])
        idx, i = [rnd.choice([0, 1, HARDEN - 1, HARDEN, HARDEN + 1, 0xFFFFFFFF, rnd.getrandbits(32), 1 << rnd.randrange(32)]) for _ in "ab"]
        cc, pp = rb(rnd, 32), rb(rnd, 4)
        h = None
        if chosen:
            left = rnd.choice([N - priv, N - priv - 1, N - priv + 1, rs(rnd), N, N - 1, N + 1, M256, 0, M256 - priv, (M256 - priv + 1) & M256]) & M256
            h = left << 256 | rnd.getrandbits(256)
        elif rnd.random() < .4 and i < HARDEN:       # the sum wraps around, is zero, or is close to it
            comp = bytes([2 + pub[1] % 2]) + bb(pub[0], 32)
            left = hm(cc, comp + bb(i, 4)) >> 256
            if left < N:
                priv = (rnd.choice([0, 1, N - 1, 2]) - left) % N or 1
        res.append(((priv, pub, cc, dep, idx, pp, i), h))
    return res


def run(ctx, rep, smp):
    for chosen, lang in ((False, "cpp"), (True, "cpphm")):
        part = [x for x in smp if (x[1] is not None) == chosen]
        if not part or (chosen and "cpphm" in ctx.errors):
            continue
        lines = [line(*x) for x in part]
        got = ctx.native(lang, lines)
        if "?" in got and not chosen:
            raise Unsupported("the replay driver does not know this operation")
        for (x, h), ln, g in zip(part, lines, got):
            if g == "?":
                continue
            w = text(child_ref(*(x + (h,))))
            if g != w:
                rep.violated("child key" + (" (HMAC-SHA-512 value chosen)" if chosen else ""), lang, ln, w, g)
                return False
            rep.validated += 1
    return True


FIELDS = {"priv": 32, "pub": 96, "cc": 32, "depth": 1, "index": 4, "pp": 4}


def layout(cx):
    off = {}
    for k in FIELDS:
        r = cx.call("h_off_xk_" + k, [], cx.start())
        off[k] = t.cval(r[0][1])
    return off, t.cval(cx.call("h_size_xkey", [], cx.start())[0][1])


def machine(ctx, pts):
    cx = Cpp(ctx, "ir")
    M = cx.mach
    cpp_uint(M)
    fa.cpp_points(M, pts, multiply=True)

    def rd(M, st, p, n):
        if n.op != "const":
            return None
        v = M.read_term(st, p, t.cval(n))
        return None if v is None else flip(v)

    def hmac(M, st, a):
        k, m = rd(M, st, a[0], a[1]), rd(M, st, a[2], a[3])
        if k is None or m is None:
            return NotImplemented
        M.write_term(st, a[4], flip(t.uf("hmac512", 512, (k, m))))
        return None

    def sha(M, st, a):
        m = rd(M, st, a[1], a[2])
        if m is None:
            return NotImplemented
        M.write_term(st, a[0], flip(t.uf("sha256", 256, (m,))))
        return None

    def rmd(M, st, a):
        m = rd(M, st, a[0], a[1])
        if m is None:
            return NotImplemented
        if m.op == "uf" and m.args[0] == "sha256":
            x = t.uf("hash160", 160, (m.args[1],))
        else:
            x = t.uf("rmd160", 160, (m,))
        M.write_term(st, a[2], flip(x))
        return None
    M.stubs["Sha512::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long, unsigned char*)"] = hmac
    M.stubs["Sha256::getHash(unsigned char const*, unsigned long)"] = sha
    M.stubs["Ripemd160::getHash(unsigned char const*, unsigned long, unsigned char*)"] = rmd
    return cx


def mulof(pts, tr):
    """the multiple of G whose normalized point a triple is, or None for the empty key's point"""
    def leaf(l):
        if l[0] == "const":
            if l[1] == (0, 1, 0):
                return c(0, 256)
            raise Undecided("constant public key")
        kind, args, _ = pts.tokens[l[1]]
        if kind != "norm":
            raise Undecided("public key is not normalized")

        def leaf2(m):
            if m[0] == "tok" and pts.tokens[m[1]][0] == "mul":
                b, n = pts.tokens[m[1]][1]
                if pts.leaf(b)[0] == "const" and aff(pts.leaf(b)[1]) == cr.G:
                    return n
            raise Undecided("not a multiple of the base point")
        return pts.walk(args[0], leaf2, t.ite)
    return pts.walk(tr, leaf, t.ite)


def check_child(ctx, rep):
    label = "x.child/cpp"
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    if not run(ctx, rep, samples(rnd, 24) + samples(rnd, 24, True)):
        return
    bad = None
    pts = fa.Points()
    try:
        cx = machine(ctx, pts)
        M = cx.mach
        rep.use(M)
        rep.assume("hashes as decided by H01, H02, H03, H06; curve operations by P01-P03")
        off, size = layout(cx)
        v = {"priv": t.var("priv", 256, 1, N - 1), "cc": t.var("cc", 256), "depth": t.var("depth", 8), "index": t.var("index", 32), "pp": t.var("pp", 32)}
        pub = [t.var("p" + a, 256, 0, P - 1) for a in "xyz"]
        v["pub"] = t.concat_lsb(pub)
        i = t.var("i", 32)
        st = cx.start()
        k = cx.buf(st, size, "key", align=16)
        for f, n in FIELDS.items():
            M.write_term(st, Ptr(k.oid, c(off[f], 64)), v[f])
        for q in range(size):
            if st.mem[k.oid].cells[q] is None:
                st.mem[k.oid].cells[q] = (t.var("pad%d" % q, 8), 0)
        st.wobj(k.oid).const = True
        o = cx.buf(st, size, "out", align=16)
        rets = cx.call("h_x_child", [k, i, o], st)
        comp = t.concat(t.concat(c(1, 7), t.extract(pub[1], 0, 0)), pub[0])
        data = t.ite(t.ult(i, c(HARDEN, 32)), t.concat(comp, i), t.concat(c(0, 8), v["priv"], i))
        qs = []
        for j, (s, _) in enumerate(rets):
            # the HMAC value used on this path
            out = {f: cx.read(s, o, n, off[f]) for f, n in FIELDS.items()}
            hs = [x for x in t.postorder([x for x in out.values()] + list(s.pc)) if x.op == "uf" and x.args[0] == "hmac512"]
            if len(hs) != 1:
                raise Undecided("HMAC not found on a path")
            h = hs[0]
            left, right = t.extract(h, 511, 256), t.extract(h, 255, 0)
            sm = t.add(t.zext(left, 257), t.zext(v["priv"], 257))
            num = t.trunc(t.ite(t.ult(sm, c(N, 257)), sm, t.sub(sm, c(N, 257))), 256)
            good = t.band(t.ult(left, c(N, 256)), t.ne(num, c(0, 256)))
            tr = tuple(cx.read(s, o, 32, off["pub"] + 32 * a) for a in range(3))
            mul = mulof(pts, tr)
            fp = t.extract(t.uf("hash160", 160, (comp,)), 159, 128)
            want = {"priv": num, "cc": flip(right), "depth": t.add(v["depth"], c(1, 8)), "index": i, "pp": flip(fp)}
            qs.append(Q("%s: HMAC inputs #%d" % (label, j), list(s.pc) + [t.disj([t.ne(h.args[1], flip(v["cc"])), t.ne(h.args[2], data) if h.args[2].w == data.w else t.TRUE])], 30))
            for f, w in want.items():
                qs.append(Q("%s: %s #%d" % (label, f, j), list(s.pc) + [t.ne(out[f], t.ite(good, w, c(0, w.w)))], 30))
            qs.append(Q("%s: public key #%d" % (label, j), list(s.pc) + [t.ne(mul, t.ite(good, num, c(0, 256)))], 30))
        qs.append(Q("%s: paths are exhaustive" % label, [t.bnot(t.disj([t.conj(list(s.pc)) for s, _ in rets]))], 30))
        solver.solve_many(qs, jobs=2)
        for q in qs:
            if q.result == "unsat":
                rep.claim(q.name, "proved", q.secs)
                continue
            bad = (q.name, q.result)
            if q.result == "sat":
                e = q.env
                x = (e.get("priv", 1), tuple(e.get("p" + a, 1) for a in "xyz"), bb(swap(e.get("cc", 0), 32), 32), e.get("depth", 0), e.get("index", 0), bb(swap(e.get("pp", 0), 4), 4), e.get("i", 0))
                cases = [(x, None)] + [(x, (l & M256) << 256 | 12345) for l in (N - x[0], N - x[0] + 1, M256 - x[0] + 1, N, N - 1, M256, 0)]
                if not run(ctx, rep, cases):
                    return
        if bad is None:
            solve_obligations(ctx, rep, M, [], label)
    except (Undecided, Unsupported) as e:
        bad = (label, str(e))
    if bad:
        if run(ctx, rep, samples(rnd, 300) + samples(rnd, 300, True)):
            rep.claim(bad[0], "undecided", 0, bad[1])


def swap(x, n):
    return int.from_bytes(x.to_bytes(n, "little"), "big")


@unit("x.child/cpp", ["ir", "cpp", "cpphm"], limit=200)
def _u(ctx, rep):
    check_child(ctx, rep)


@unit("x.new/cpp", ["ir", "cpp"], limit=120)
def _u(ctx, rep):
    """constructors"""
    label = "x.new/cpp"
    rnd = random.Random("%s/%s" % (ctx.seed, label))

    def runs(n):
        lines, want = ["x.empty"], [text((0, (0, 1, 0), bytes(32), 0, 0, bytes(4)))]
        for _ in range(n):
            k, cc, d, i, pp = rs(rnd, 1, N - 1), rb(rnd, 32), rnd.randrange(256), rnd.getrandbits(32), rb(rnd, 4)
            lines.append("x.new %064x %s %x %x %s" % (k, cc.hex(), d, i, pp.hex()))
            want.append(text((k, cr.mul(k, cr.G) + (1,), cc, d, i, pp)))
        for ln, w, g in zip(lines, want, ctx.native("cpp", lines)):
            if g != w:
                rep.violated("extended private key", "cpp", ln, w, g)
                return False
            rep.validated += 1
        return True
    if not runs(16):
        return
    bad = None
    try:
        pts = fa.Points()
        cx = machine(ctx, pts)
        M = cx.mach
        rep.use(M)
        off, size = layout(cx)
        v = {"priv": t.var("priv", 256, 1, N - 1), "cc": t.var("cc", 256), "depth": t.var("depth", 8), "index": t.var("index", 32), "pp": t.var("pp", 32)}
        qs = []
        for what in ("new", "empty"):
            st = cx.start()
            o = cx.buf(st, size, "out", align=16)
            if what == "new":
                k, cc, pp = (cx.obj(st, v[f], f, const=True) for f in ("priv", "cc", "pp"))
                rets = cx.call("h_x_new", [o, k, cc, v["depth"], v["index"], pp], st)
            else:
                rets = cx.call("h_x_empty", [o], st)
            for j, (s, _) in enumerate(rets):
                for f, n in FIELDS.items():
                    if f != "pub":
                        qs.append(Q("x.%s: %s #%d" % (what, f, j), list(s.pc) + [t.ne(cx.read(s, o, n, off[f]), v[f] if what == "new" else c(0, 8 * n))], 30))
                tr = tuple(cx.read(s, o, 32, off["pub"] + 32 * a) for a in range(3))
                qs.append(Q("x.%s: public key #%d" % (what, j), list(s.pc) + [t.ne(mulof(pts, tr), v["priv"] if what == "new" else c(0, 256))], 30))
            qs.append(Q("x.%s: paths are exhaustive" % what, [t.bnot(t.disj([t.conj(list(s.pc)) for s, _ in rets]))], 30))
        solver.solve_many(qs, jobs=2)
        for q in qs:
            if q.result == "unsat":
                rep.claim(q.name, "proved", q.secs)
            else:
                bad = (q.name, q.result)
        if bad is None:
            solve_obligations(ctx, rep, M, [], label)
    except (Undecided, Unsupported) as e:
        bad = (label, str(e))
    if bad:
        if runs(300):
            rep.claim(bad[0], "undecided", 0, bad[1])
