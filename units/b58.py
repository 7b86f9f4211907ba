"""Base58Check: the codecs are decided case by case (number of leading zero bytes, length of the text); in a case every
branch of the code is settled, and the digits are compared with the number as integer forms."""
import hashlib, random, time
import z3
from sv import term as t, solver
from sv.engine import Unsupported, Ptr
from sv.frame import unit
from sv.ops import N, solve_obligations
from sv.contracts import cpp_uint
from sv.cppx import Cpp
from sv.solver import Q
from sv.radix import Radix, Guide, guided, NotLinear

c = t.const
ALPHA = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def b58(data):
    v = int.from_bytes(data, "big")
    s = ""
    while v:
        v, r = divmod(v, 58)
        s = ALPHA[r] + s
    z = len(data) - len(data.lstrip(b"\0"))
    return "1" * z + s


def b58check(payload):
    return b58(payload + dsha(payload)[:4])


def unb58(s):
    """the bytes a text stands for, or None"""
    v = 0
    for ch in s:
        i = ALPHA.find(ch)
        if i < 0:
            return None
        v = v * 58 + i
    z = len(s) - len(s.lstrip("1"))
    return bytes(z) + v.to_bytes((v.bit_length() + 7) // 8, "big")


def unb58check(s):
    d = unb58(s)
    if d is None or len(d) < 4 or dsha(d[:-4])[:4] != d[-4:]:
        return None
    return d[:-4]


class Undecided(Exception):
    pass


class Depends(Exception):
    """a branch believed to be settled in a case may not be: it has to be followed both ways"""


def retry(f):
    """runs f(conditions to follow both ways) until no more are needed"""
    never = set()
    for _ in range(12):
        try:
            return f(never)
        except Depends as e:
            x = e.args[0]
            never |= {x, t.bnot(x)}
    raise Undecided("branches not settled")


def alpha_term(d, w):
    n = min(57, d.hi)
    r = c(ord(ALPHA[n]), w)
    for i in range(n - 1, -1, -1):
        r = t.ite(t.eq(d, c(i, d.w)), c(ord(ALPHA[i]), w), r)
    return r


class Chars:
    """the digit a character term stands for; the table lookup itself is decided by a query, once per shape"""

    def __init__(self, label):
        self.seen = {}
        self.label = label
        self.bad = None

    def digit(self, rep, ch):
        """-> digit term (or int), character being the alphabet's at that place"""
        if ch.op == "const":
            i = ALPHA.find(chr(ch.args[0]))
            if i < 0:
                raise Undecided("character outside the alphabet")
            return c(i, 8)
        top = set()
        y = ch
        while y.op == "concat" and all(k.op == "const" and not k.args[0] for k in y.args[1:]):
            y = y.args[0]
        while y.op == "ite":
            k = y.args[0]
            for e in (k.args if k.op in ("and", "or") else (k,)):
                while e.op == "not":
                    e = e.args[0]
                if e.op in ("eq", "ult"):
                    top |= {u for u in e.args if u.op != "const"}
                elif e.op != "const":
                    top.add(e)
            y = y.args[2] if y.args[2].op == "ite" or y.args[1].op == "const" else y.args[1]
        top = list(top)
        if len(top) != 1 or top[0].hi > 57:
            raise Undecided("character is not a lookup of one digit ")
        v = t.var("dig", top[0].w, top[0].lo, top[0].hi)
        y = t.substitute([ch], {top[0]: v})[0]
        if y not in self.seen:
            q = Q(self.label + ": characters of digits #%d" % len(self.seen), [t.ule(v, c(top[0].hi, v.w)), t.ne(y, alpha_term(v, y.w))], 30)
            solver.solve_many([q], jobs=1)
            self.seen[y] = q.result
            if q.result == "unsat":
                rep.claim(q.name, "proved", q.secs)
        if self.seen[y] != "unsat":
            raise Undecided("characters of digits")
        return top[0]


def comparands(x):
    return [k for y in t.postorder([x], set()) if y.op in ("eq", "ult", "slt") for k in y.args]


def settle(rep, R, G, label, facts, keep=(), close=True):
    """the obligations left by a guide"""
    seen = set()
    for pc, x in G.done:
        if (pc, x) in seen:
            continue
        r, secs = R.prove(x, facts, keep, 10, pc, close)
        if r == "sat":
            raise Depends(x)
        if r != "unsat":
            raise Undecided("%s: branch: %s %s" % (label, r, str(x)[:150]))
        seen.add((pc, x))
    return len(seen)


class Digits:
    """relates digit terms, least significant first, to a number"""

    def __init__(self, R):
        self.R = R
        self.classes = {}
        self.upto = 0

    def mod(self, f):
        g = self.R.expand(f)
        return (g[0] % 58, tuple(sorted((a, k % 58) for a, k in g[1].items() if k % 58)))

    def known(self):
        R = self.R
        while self.upto < len(R.atoms):
            key = R.atoms[self.upto]
            if isinstance(key, tuple) and key[0] == "flo" and key[2] == 58 and ("rem", key[1], 58) not in R.key:
                self.classes.setdefault(self.mod(R.thaw(key[1])), []).append(self.upto)
            self.upto += 1

    def exact(self, d, V):
        """digit term d, being V mod 58 -> form of it that V minus it is divisible, and the quotient"""
        R = self.R
        f = R.form(d)
        self.known()
        if self.mod(f) != self.mod(V):
            # the digit is in range and congruent to the number
            raise Undecided("digit is not the remainder")
        for a in self.classes.get(self.mod(V), []) + [None]:
            if a is None:
                F = R.expand(f)
            else:
                F = R.add(R.expand(R.thaw(R.atoms[a][1])), R.one(a), -58)
            D = R.add(V, F, -1)
            if D[0] % 58 == 0 and all(k % 58 == 0 for k in D[1].values()):
                return F, (D[0] // 58, {x: k // 58 for x, k in D[1].items()})
        raise Undecided("no division of the number")


def spread(rnd, lo, hi, n):
    """values of an interval, ends included"""
    vs = {lo, hi}
    if hi - lo < n:
        return sorted(range(lo, hi + 1))
    vs |= {lo + 1, hi - 1, (lo + hi) // 2}
    while len(vs) < n:
        vs.add(rnd.randrange(lo, hi + 1))
    return sorted(vs)


def edges(lo, hi, n, L):
    """numbers around which the number of bytes of an intermediate quotient changes"""
    vs = set()
    for k in range(L):
        for i in range(n):
            v = 58 ** k * 256 ** i
            if lo < v <= hi:
                vs |= {v - 1, v}
    return sorted(vs)


def cases(n, top=None):
    """(leading zero bytes, digits, least and greatest number) for n bytes; top: constant leading bytes"""
    res = []
    if top is not None:
        lo = int.from_bytes(top, "big") << 8 * (n - len(top))
        rs = [(0, lo, lo + (1 << 8 * (n - len(top))) - 1)]
    else:
        rs = [(z, 1 << 8 * (n - z - 1), (1 << 8 * (n - z)) - 1) for z in range(n)] + [(n, 0, 0)]
    for z, lo, hi in rs:
        L = 0
        while L == 0 or 58 ** (L - 1) <= hi:
            a, b = max(lo, 58 ** (L - 1) if L else 0), min(hi, 58 ** L - 1)
            if a <= b:
                res.append((z, L, a, b))
            L += 1
    return res


class Enc:
    """one encoder: how to call it symbolically for given data bytes"""


def hash_stubs(M, payload_ok, cks):
    def rd(M, st, p, n):
        if n.op != "const" or not isinstance(p, Ptr) or p.off.op != "const":
            return None
        k = t.cval(n)
        return [M.read_term(st, Ptr(p.oid, c(t.cval(p.off) + i, 64)), 1) for i in range(k)]
    h1 = [t.var("h1.%d" % i, 8) for i in range(32)]
    rest = cks + [t.var("h2.%d" % i, 8) for i in range(4, 32)]

    def out(M, st, p, bs):
        M.write_term(st, p, t.concat_lsb(bs))

    def double(M, st, a):
        m = rd(M, st, a[1], a[2])
        if m is None or not payload_ok(m):
            raise Undecided("hash of something else than the payload")
        out(M, st, a[0], rest)
        return None

    def single(M, st, a):
        m = rd(M, st, a[1], a[2])
        if m is not None and m == h1:
            out(M, st, a[0], rest)
        elif m is not None and payload_ok(m):
            out(M, st, a[0], h1)
        else:
            raise Undecided("hash of something else than the payload")
        return None
    M.stubs["Sha256::getDoubleHash(unsigned char const*, unsigned long)"] = double
    M.stubs["Sha256::getHash(unsigned char const*, unsigned long)"] = single


def cpp_encode_case(ctx, rep, label, nm, n, z, L, lo, hi, bs, envs, call, chars, never):
    cx = Cpp(ctx, "ir", feasibility=False)
    cpp_uint(cx.mach)
    G = Guide(envs)
    G.never = never
    hash_stubs(cx.mach, lambda m: m == bs[:n - 4], bs[n - 4:])
    st = cx.start()
    args, out = call(cx, st, bs)
    guided(cx.mach, G)
    rets = cx.call(args[0], args[1], st)
    rep.use(cx.mach)
    if len(rets) != 1:
        raise Undecided("%s: %d paths" % (nm, len(rets)))
    s = rets[0][0]
    cells = [cx.mach.read_term(s, Ptr(out.oid, c(i, 64)), 1) for i in range(z + L + 1)]
    R = Radix()
    V = (0, {})
    for i, b in enumerate(bs):
        V = R.add(V, R.form(b), 1 << 8 * (n - 1 - i))
    D = Digits(R)
    facts = [(V, lo, hi)]
    g, total = V, (0, {})
    ds = [chars.digit(rep, cells[z + L - 1 - k]) for k in range(L)]
    for x in ds + [y for _, x in G.done for y in comparands(x)]:
        try:
            R.form(x)
        except NotLinear:
            pass
    for k, d in enumerate(ds):
        f, g = D.exact(d, g)
        total = R.add(total, f, 58 ** k)
        lo, hi = lo // 58, hi // 58
        facts.append((g, lo, hi))
    for i in range(z):
        if cells[i] is not c(ord("1"), 8):
            raise Undecided("leading character")
    if cells[z + L] is not c(0, 8):
        raise Undecided("end of the text")
    k = settle(rep, R, G, nm, facts, (), False)
    # the digits add up to the number: what is left of it after L divisions is zero
    t0 = time.time()
    used = set()
    sv = z3.Solver()
    sv.set("timeout", 10000)
    sv.add(R.z(R.add(R.add(V, total, -1), (0, {})), used) != 0)
    r, secs = R.finish(sv, used, facts, t0, False)
    if r != "unsat":
        raise Undecided("%s: sum of the digits: %s" % (nm, r))
    rep.claim("%s: text (%d branches settled)" % (nm, k), "proved", secs)
    solve_obligations(ctx, rep, cx.mach, [], nm)


def cpp_encode(ctx, rep, label, n, top, call, fixed, part, parts):
    """call(cx, st, data bytes) -> output pointer and results. Every case of n data bytes (checksum included)."""
    rnd = random.Random("%s/%s" % (ctx.seed, label))
    chars = Chars(label)
    for z, L, lo, hi in cases(n, top)[part::parts]:
        fits = [x for x in fixed if (x < z and fixed[x]) or (x == z and not fixed[x] and z < n)]
        if fits:
            continue        # contradicts the fixed bytes of the format
        nm = "%s %d leading zero bytes, %d digits" % (label, z, L)
        bs = []
        for i in range(n):
            if i < z:
                bs.append(c(0, 8))
            elif top is not None and i < len(top):
                bs.append(c(top[i], 8))
            elif i in fixed:
                bs.append(c(fixed[i], 8))
            else:
                bs.append(t.var("b%d" % i, 8, 1 if i == z and top is None else 0))
        if z in fixed:
            w = 8 * (n - 1 - z)
            lo, hi = max(lo, fixed[z] << w), min(hi, (fixed[z] + 1 << w) - 1)
            if lo > hi:
                continue
        vs = set()
        for v in (edges(lo, hi, n, L) if n < 50 else []) + spread(rnd, lo, hi, 7):
            for i, x in fixed.items():
                w = 8 * (n - 1 - i)
                v += (x - (v >> w & 255)) << w
            if lo <= v <= hi:
                vs.add(v)
        if not vs:
            R = Radix()
            V = (0, {})
            for i, b in enumerate(bs):
                V = R.add(V, R.form(b), 1 << 8 * (n - 1 - i))
            r, secs = R.finish(z3.Solver(), set(V[1]), [(V, lo, hi)], time.time(), False)
            if r != "unsat":
                raise Undecided(nm + ": no member of the case")
            continue
        envs = [{"b%d" % i: v >> 8 * (n - 1 - i) & 255 for i in range(n)} for v in sorted(vs)]
        retry(lambda never: cpp_encode_case(ctx, rep, label, nm, n, z, L, lo, hi, bs, envs, call, chars, never))


# ---------------------------------------------------------------- formats
XHEAD = bytes.fromhex("0488ade4")


def xlayout(cx):
    from units.xkey import layout
    return layout(cx)


class Fmt:
    """payload length, native operation, texts"""
    MAXLEN = {"pkh": 35, "wif": 52, "wifc": 52, "xprv": 111}
    PAY = {"pkh": 21, "wif": 33, "wifc": 34, "xprv": 78}


def payload(fmt, rnd):
    """a payload of a format, often with unusual bytes"""
    def some(n):
        k = rnd.randrange(6)
        if k == 0:
            z = rnd.randrange(n + 1)
            return bytes(z) + rnd.randbytes(n - z)
        if k == 1:
            return bytes([255]) * n
        if k == 2:
            return bytes(n - 1) + bytes([rnd.choice([0, 1, 57, 58, 59, 255])])
        if k == 3:
            z = rnd.randrange(n + 1)
            return rnd.randbytes(n - z) + bytes(z)
        return rnd.randbytes(n)
    ver = bytes([rnd.choice([0, 0, 5, 0x6F, 0x80, 0xEF, 255, 1, rnd.randrange(256)])])
    if fmt == "pkh":
        return ver + some(20)
    if fmt in ("wif", "wifc"):
        return ver + some(32) + (b"\1" if fmt == "wifc" else b"")
    key = rnd.choice([1, 2, N - 1, rnd.randrange(1, N), rnd.randrange(1, 1 << 200)])
    return XHEAD + bytes([rnd.choice([0, 1, 255, rnd.randrange(256)])]) + some(4) + some(4) + some(32) + b"\0" + key.to_bytes(32, "big")


def encline(fmt, p):
    if fmt == "pkh":
        return "b.pkh %s %x" % (p[1:].hex(), p[0])
    if fmt in ("wif", "wifc"):
        return "b.priv %s %x %d" % (p[1:33].hex(), p[0], fmt == "wifc")
    return "b.xprv %s %s %x %x %s" % (p[46:].hex(), p[13:45].hex(), p[4], int.from_bytes(p[9:13], "big"), p[5:9].hex())


def run_encode(ctx, rep, lang, fmt, ps):
    lines = [encline(fmt, p) for p in ps]
    for p, ln, g in zip(ps, lines, ctx.native(lang, lines)):
        w = b58check(p)
        try:
            got = bytes.fromhex(g).decode()
        except ValueError:
            got = g
        if got != w:
            rep.violated("Base58Check text (%s)" % fmt, lang, ln, w, got)
            return False
        rep.validated += 1
    return True


def wrong_checksums(d, rnd):
    """the checksum of raw bytes changed in ways a sloppy comparison may not notice"""
    a, c = bytes(d[:-4]), list(d[-4:])
    res = []
    for i in range(4):
        for v in (1 << rnd.randrange(8), 0x80, 0xFF):
            res.append([c[k] ^ (v if k == i else 0) for k in range(4)])
        for j in range(i):
            m = rnd.randrange(1, 256)
            s = rnd.choice([1, -1])
            for u, w in ((m, m), (0x80, 0x80)):
                res.append([c[k] ^ (u if k == i else w if k == j else 0) for k in range(4)])
            for u, w in ((s, -s), (m, -m), (31 ** (i - j) * s, -s), (-s, 31 ** (i - j) * s), (s, -2 * s), (2 * s, -s), (s, s)):
                res.append([(c[k] + (u if k == i else w if k == j else 0)) & 255 for k in range(4)])
            x = list(c)
            x[i], x[j] = x[j], x[i]
            res.append(x)
    v = int.from_bytes(bytes(c), "big")
    res += [list(((v + e) % 2 ** 32).to_bytes(4, "big")) for e in (1, -1, 256, -256, 1 << 16, 1 << 24, 1 << 31, -v, ~v - v)]
    res += [c[::-1], c[1:] + c[:1], c[3:] + c[:3]]
    return [b58(a + bytes(x)) for x in res if x != c]


def special_payloads(fmt, n, rnd):
    """payloads chosen so that the checksum matters: texts of the least and greatest length, many leading zeros"""
    res = [payload(fmt, rnd) for _ in range(n)]
    if fmt != "xprv":
        k = Fmt.PAY[fmt]
        tail = b"\1" if fmt == "wifc" else b""
        res += [bytes(k - len(tail)) + tail, bytes([255]) * (k - len(tail)) + tail]
        res += [bytes(i) + bytes([1]) + bytes(k - len(tail) - i - 1) + tail for i in range(k - len(tail))]
    return res


def caller(fmt):
    def call(cx, st, bs):
        if fmt == "pkh":
            h = cx.bytes_obj(st, bs[1:21], "hash", const=True)
            out = cx.buf(st, 36, "out")
            return ("h_b_pkh", [h, bs[0], out]), out
        if fmt in ("wif", "wifc"):
            k = cx.obj(st, t.concat_lsb(bs[1:33][::-1]), "key", const=True)
            out = cx.buf(st, 53, "out")
            return ("h_b_priv", [k, bs[0], c(1 if fmt == "wifc" else 0, 8), out]), out
        off, size = xlayout(cx)
        k = cx.buf(st, size, "xkey", align=16)
        for nm, b in (("depth", bs[4:5]), ("pp", bs[5:9]), ("index", bs[9:13][::-1]), ("cc", bs[13:45]), ("priv", bs[46:78][::-1]),
                      ("pub", [t.var("pub%d" % i, 8) for i in range(96)])):
            cx.mach.write_term(st, Ptr(k.oid, c(off[nm], 64)), t.concat_lsb(b))
        out = cx.buf(st, 112, "out")
        return ("h_b_xprv", [k, out]), out
    return call


def enc_unit(fmt, part, parts):
    @unit("b.enc/%s/cpp%s" % (fmt, "/%d" % part if parts > 1 else ""), ["ir", "cpp"], limit=600)
    def _u(ctx, rep):
        label = "b.enc/" + fmt
        rnd = random.Random("%s/%s" % (ctx.seed, label))
        if part == 0 and not run_encode(ctx, rep, "cpp", fmt, special_payloads(fmt, 150, rnd)):
            return
        n = Fmt.PAY[fmt] + 4
        top, fixed = None, {}
        if fmt == "xprv":
            top, fixed = XHEAD, {45: 0}
        elif fmt == "wifc":
            fixed = {33: 1}
        try:
            cpp_encode(ctx, rep, label, n, top, caller(fmt), fixed, part, parts)
            rep.bound("every value of the format, the four checksum bytes any values")
            rep.assume("the double SHA-256 as decided by H01")
        except (Undecided, Unsupported, NotLinear) as e:
            if run_encode(ctx, rep, "cpp", fmt, special_payloads(fmt, 20000, rnd)):
                rep.claim(label, "undecided", 0, str(e))


for _f, _k in (("pkh", 1), ("wif", 3), ("wifc", 3), ("xprv", 1)):
    for _p in range(_k):
        enc_unit(_f, _p, _k)


# ---------------------------------------------------------------- decoders
t.UF_EVAL["b58char"] = lambda a: ord(ALPHA[a[0]]) if a[0] < 58 else 49
FOREIGN = "".join(chr([x for x in range(1, 256) if chr(x) not in ALPHA][i % 197]) for i in range(256))
t.UF_EVAL["b58bad"] = lambda a: ord(FOREIGN[a[0]])
WINDOW = {"pkh": (25, 35), "wif": (38, 52), "xprv": (111, 111)}
LENS = {"pkh": (25,), "wif": (37, 38), "xprv": (82,)}
XLO = 0x0488ADE4 << 624
XHI = XLO + (1 << 624) - 1


def decoded(fmt, s):
    """-> the fields a text stands for, or None"""
    p = unb58check(s)
    if p is None:
        return None
    if fmt == "pkh":
        return (p[1:].hex(), p[0]) if len(p) == 21 else None
    if fmt == "wif":
        if len(p) == 33 or (len(p) == 34 and p[33] == 1):
            return (p[1:33].hex(), p[0], len(p) == 34)
        return None
    k = int.from_bytes(p[46:], "big")
    if len(p) != 78 or p[:4] != XHEAD or p[45] or not 0 < k < N:
        return None
    return k, p[13:45], p[4], int.from_bytes(p[9:13], "big"), p[5:9]


def run_decode(ctx, rep, fmt, texts, lang="cpp"):
    import units.curve_ref as cr
    lines, want = [], []
    for s in texts:
        r = decoded(fmt, s)
        h = s.encode("latin1").hex() or "-"
        if fmt == "pkh":
            lines.append("b.dpkh " + h)
            want.append("1 %s %x" % r if r else "0 %s 5a" % ("a5" * 20))
        elif fmt == "wif":
            for i in (0, 1):
                lines.append("b.dpriv %s %d" % (h, i))
                want.append("1 %s %x %d" % r if r else "0 %s 5a %d" % ("a" * 64, i))
        else:
            lines.append("b.dxprv " + h)
            if r:
                k, cc, dep, idx, pp = r
                want.append(" ".join(["1", "%064x" % k] + ["%064x" % v for v in cr.mul(k, cr.G) + (1,)] + [cc.hex(), "%x" % dep, "%x" % idx, pp.hex()]))
            else:
                want.append(" ".join(["0", "a5" * 32] + ["%064x" % v for v in (0, 1, 0)] + ["5a" * 32, "77", "12345678", "33" * 4]))
    for ln, w, g in zip(lines, want, ctx.native(lang, lines)):
        if g != w:
            rep.violated("decoding a Base58Check text (%s)" % fmt, lang, ln, w, g)
            return False
        rep.validated += 1
    return True


def texts(fmt, rnd, n):
    """texts around the well-formed ones of a format"""
    fs = ("wif", "wifc") if fmt == "wif" else (fmt,)
    lo, hi = WINDOW[fmt]
    res = ["", "1" * lo, "1" * hi, "z" * hi, "1" * (hi + 1), "1" * (lo - 1)]
    while len(res) < n:
        f = rnd.choice(fs)
        p = payload(f, rnd)
        k = rnd.randrange(20)
        if k == 0 and f == "wifc":
            p = p[:33] + bytes([rnd.choice([0, 2, 255, 129])])
        if fmt == "xprv" and k < 6:
            p = bytearray(p)
            if k == 0:
                p[rnd.randrange(4)] ^= 1 << rnd.randrange(8)
            elif k == 1:
                p[45] = rnd.choice([1, 2, 3, 255])
            elif k < 5:
                p[46:] = rnd.choice([0, N, N + 1, 2 ** 256 - 1, N - 1, 1, N + rnd.getrandbits(100)]).to_bytes(32, "big")
            p = bytes(p)
        s = b58check(p)
        res.append(s)
        if k == 6:      # checksum off
            d = unb58(s)
            i = rnd.randrange(1, 5)
            res.append(b58(d[:-i] + bytes([d[-i] ^ 1 << rnd.randrange(8)]) + (d[len(d) - i + 1:] if i > 1 else b"")))
            if rnd.random() < .3:
                res += rnd.sample(wrong_checksums(d, rnd), 25)
        elif k == 7:    # number of leading ones off
            res += ["1" + s, s[1:] if s[0] == "1" else "1" + s[1:]]
        elif k == 8:    # foreign characters
            i = rnd.randrange(len(s))
            res.append(s[:i] + rnd.choice(FOREIGN) + s[i + 1:])
            res.append(s + rnd.choice("0OIl \n"))
        elif k == 9:    # one byte more or less, checksum right
            res += [b58check(p[:-1]), b58check(p + b"\1"), b58check(b"\0" + p)]
        elif k == 10:   # an equal number modulo a power of 256
            m = len(p) + 4
            v = int.from_bytes(unb58(s), "big") + (rnd.randrange(1, 4) << 8 * m)
            res.append(b58(v.to_bytes(m + 1, "big")))
        elif k == 11:
            res += [s[:i] for i in (rnd.randrange(len(s)), len(s) - 1)]
        elif k == 12:
            res.append(s + s)
            res.append(s + rnd.choice(ALPHA))
    return res


def tops(x):
    """what a condition compares"""
    res, todo = [], [x]
    while todo:
        y = todo.pop()
        if y.op in ("eq", "ult", "slt") and y.args[0].w > 1:
            res += y.args
        elif y.w == 1 and y.op in ("not", "and", "or", "xor", "eq", "ite", "ult"):
            todo += y.args
        elif y.op != "const":
            res.append(y)
    return res


class DGuide(Guide):
    def is_opaque(self, x):
        r = self.opaque.get(x)
        if r is None:
            for n in t.postorder([x], set(self.opaque)):
                self.opaque[n] = (n.op == "var" and n.args[0].startswith("hash.")) or any(self.opaque[k] for k in t.kids(n))
            r = self.opaque[x]
        return r


def cells_of(st, oid):
    """bytes of an object: terms or None"""
    res = []
    for e in st.mem[oid].cells:
        if e is None or not hasattr(e[0], "op"):
            res.append(None)
        else:
            v, k = e
            res.append(v if v.w == 8 else t.extract(v, 8 * k + 7, 8 * k))
    return res


def unwrap(y):
    while True:
        if y.op == "concat" and all(k.op == "const" and not k.args[0] for k in y.args[1:]):
            y = y.args[0]
        elif y.op == "sext":
            y = y.args[0]
        else:
            return y


class Dec:
    """one symbolic run of a decoder on a text whose first characters are 1, the others digits"""

    def __init__(self, ctx, fmt, m, z, bad=None, envs=(), never=(), nulls=False, anylen=None):
        import units.xkey as xk
        from sv import fieldabs as fa
        self.fmt, self.m, self.z = fmt, m, z
        self.ds = []
        self.hashes = {}
        self.records = []
        self.bufs = []
        self.pts = fa.Points()
        if fmt == "xprv":
            cx = xk.machine(ctx, self.pts)
            cx.mach.feasibility = False
        else:
            cx = Cpp(ctx, "ir", feasibility=False)
            cpp_uint(cx.mach)
        M = self.M = cx.mach
        self.cx = cx
        st = cx.start()
        base = set(st.mem)
        chars, known = [], {}
        for i in range(m):
            if i < z:
                ch = c(49, 8)
            elif i == bad:
                ch = t.uf("b58bad", 8, (t.var("bad", 8),), 1, 255)
            else:
                d = t.var("d%d" % i, 8, 1 if bad is None and i == z and z < m and anylen is None else 0, 57)
                ch = t.uf("b58char", 8, (d,), 49, 122)
                self.ds.append(d)
            chars.append(ch)
        s = cx.bytes_obj(st, chars + [c(0, 8)] * (anylen is None), "text", const=True)
        self.read = 0

        def strchr(st, args, name):
            ch = t.trunc(args[1], 8)
            self.read += 1
            if name == "strchr" and ch.op == "uf" and ch.args[0] in ("b58char", "b58bad") and isinstance(args[0], Ptr) and args[0].off.op == "const":
                o, b = st.mem[args[0].oid], t.cval(args[0].off)
                got = [M.load_n(st, Ptr(args[0].oid, c(b + i, 64)), 1, "strchr") for i in range(min(59, o.size - b))]
                if [x.args[0] if x.op == "const" else None for x in got] != [ord(x) for x in ALPHA] + [0]:
                    raise Undecided("another alphabet")
                if ch.args[0] == "b58bad":
                    return [(st, Ptr(0, c(0, 64), t.TRUE))]
                return [(st, Ptr(args[0].oid, t.add(args[0].off, t.zext(ch.args[1], 64))))]
            return orig(st, args, name)
        orig, M.strchr = M.strchr, strchr
        if anylen is not None:
            n0 = M.strlen
            M.strlen = lambda st, p: [(st, anylen)] if isinstance(p, Ptr) and p.oid == s.oid and t.cval(p.off) == 0 else n0(st, p)

        def hashed(M, st, p, n, put):
            if n.op != "const":
                raise Undecided("length hashed")
            k = t.cval(n)
            m_ = [M.read_term(st, Ptr(p.oid, t.add(p.off, c(i, 64))), 1) for i in range(k)]
            key = tuple(m_)
            if key not in self.hashes:
                self.hashes[key] = [t.var("hash.%d.%d" % (len(self.hashes), i), 8) for i in range(32)]
            cs = cells_of(st, p.oid)
            b = t.cval(p.off)
            self.records.append((st.pc, m_ + cs[b + k:b + k + 4], key))
            M.write_term(st, put, t.concat_lsb(self.hashes[key]))
            return None

        def double(M, st, a):
            return hashed(M, st, a[1], a[2], a[0])
        first = {}

        def single(M, st, a):
            if a[2].op == "const" and t.cval(a[2]) == 32:
                k = tuple(M.read_term(st, Ptr(a[1].oid, t.add(a[1].off, c(i, 64))), 1) for i in range(32))
                if k in first:
                    M.write_term(st, a[0], t.concat_lsb(self.hashes[first[k]]))
                    return None
            # the first of the two hashes
            r = self.records[:]
            hashed(M, st, a[1], a[2], a[0])
            key = self.records[-1][2]
            h1 = [t.var("hash.first.%d.%d" % (len(first), i), 8) for i in range(32)]
            first[tuple(h1)] = key
            M.write_term(st, a[0], t.concat_lsb(h1))
            return None
        M.stubs["Sha256::getDoubleHash(unsigned char const*, unsigned long)"] = double
        M.stubs["Sha256::getHash(unsigned char const*, unsigned long)"] = single
        self.G = G = DGuide(envs)
        G.never = never
        self.facts_at = []

        def decide(pc, x, st):
            n = len(G.done)
            r = Guide.decide(G, pc, x)
            if len(G.done) > n and self.read and self.read % max(1, m) == 0:
                for y in tops(x):
                    y = unwrap(y)
                    if y.hi < 256 and y.op not in ("const", "uf"):
                        for oid in st.mem:
                            if oid not in base and st.mem[oid].size <= 128 and (st.mem[oid].size, oid) != (m + 1, s.oid):
                                cs = cells_of(st, oid)
                                if any(k is not None and (unwrap(k) is y or whole(unwrap(k)) is y) for k in cs):
                                    self.bufs.append((n, pc, tuple(cs)))
            return r
        def branch(st, x, lazy_true=False, lazy_false=False):
            if x.op == "const":
                return [(bool(x.args[0]), st)]
            if x in st.pc:
                return [(True, st)]
            k = t.bnot(x)
            if k in st.pc:
                return [(False, st)]
            v = decide(st.pc, x, st)
            if v is not None:
                return [(v, st)]
            G.forks += 1
            if G.forks > 400:
                raise NotLinear("too many undecided branches")
            s2 = st.fork()
            st.assume(x)
            s2.assume(k)
            return [(True, st), (False, s2)]
        # outputs
        self.outs = []
        if fmt == "pkh":
            o = cx.bytes_obj(st, [t.var("o.hash%d" % i, 8) for i in range(20)], "outhash")
            v = cx.bytes_obj(st, [t.var("o.ver", 8)], "outver")
            self.outs = [(o, 0, 20), (v, 0, 1)]
            args = ("h_b_dpkh", [s, o, Ptr(0, c(0, 64), t.TRUE) if nulls else v])
        elif fmt == "wif":
            o = cx.obj(st, t.var("o.key", 256), "outkey")
            v = cx.bytes_obj(st, [t.var("o.ver", 8)], "outver")
            p = cx.bytes_obj(st, [t.var("o.comp", 8, 0, 1)], "outcomp")
            self.outs = [(o, 0, 32), (v, 0, 1), (p, 0, 1)]
            null = Ptr(0, c(0, 64), t.TRUE)
            args = ("h_b_dpriv", [s, o] + [null if nulls else k for k in (v, p)])
        else:
            self.off, size = xlayout(cx)
            o = cx.obj(st, t.var("o.xkey", 8 * size), "outkey")
            self.outs = [(o, self.off[f], n) for f, n in xk.FIELDS.items()]
            args = ("h_b_dxprv", [s, o])
        self.before = [M.read_term(st, Ptr(p.oid, c(a, 64)), n) for p, a, n in self.outs]
        # constants are looked up before branches are guided
        cx.check_constants(st, "")
        M.branch = branch
        t.keep_sums(True)
        try:
            self.rets = cx.call(args[0], args[1], st)
        finally:
            t.keep_sums(False)

    def after(self, s):
        return [self.M.read_term(s, Ptr(p.oid, c(a, 64)), n) for p, a, n in self.outs]


def has_digit(x, memo):
    for n in t.postorder([x], set(memo)):
        memo[n] = (n.op == "var" and (n.args[0][0] == "d" or n.args[0] == "bad")) or any(memo[k] for k in t.kids(n))
    return memo[x]


def zero_atoms(R, x):
    """quotients that a condition says are zero"""
    res = set()
    for y in tops(x):
        try:
            f = R.form(y)
        except NotLinear:
            continue
        if f[0] == 0 and len(f[1]) == 1:
            a = next(iter(f[1]))
            k = R.atoms[a]
            if isinstance(k, tuple) and k[0] == "flo" and a not in res:
                try:
                    used = set()
                    s = z3.Solver()
                    s.set("timeout", 2000)
                    s.add(R.cond(x, used, {a}), z3.Int("a%d" % a) >= 1)
                    if used <= {a} and s.check() == z3.unsat:
                        res.add(a)
                except NotLinear:
                    pass
    return res


def whole(b):
    """the wide term a narrow one is all of"""
    return b.args[0] if b.op == "extract" and b.args[1] == 0 and b.args[0].hi < 1 << b.w else b


def byte_ranges(bs, lo, hi):
    """bytes of a number between lo and hi -> replacements with the range each can have"""
    sub = {}
    n = len(bs)
    for j, b in enumerate(bs):
        b = unwrap(b)
        if b.op == "const":
            continue
        l, h = lo >> 8 * (n - 1 - j), hi >> 8 * (n - 1 - j)
        l, h = (l & 255, h & 255) if l >> 8 == h >> 8 else (0, 255)
        sub[b] = c(l, b.w) if l == h else t.var("X%d.%d.%d.%d" % (j, l, h, b.w), b.w, l, min(h, (1 << b.w) - 1))
        y = whole(b)
        if y is not b:
            sub[y] = t.zext(sub[b], y.w)
    return sub


def decode_case(ctx, rep, label, nm, fmt, m, z, lo, hi, envs, never, nulls=False, bad=None):
    """lo, hi: bounds of the number the text stands for (bad: of nothing)"""
    D = Dec(ctx, fmt, m, z, bad, envs, never, nulls)
    rep.use(D.M)
    R = Radix()
    R.chars = {"b58char": ALPHA, "b58bad": FOREIGN}
    V = (0, {})
    if bad is None:
        for i, d in enumerate(D.ds):
            V = R.add(V, R.form(d), 58 ** (len(D.ds) - 1 - i))
        facts = [(V, lo, hi)]
    else:
        facts = []
    # forms, oldest first
    for pc, x in D.G.done:
        for y in tops(x):
            try:
                R.form(y)
            except NotLinear:
                pass
    zmap, proven, zm = [], {}, {}
    k = 0
    t0 = time.time()

    def zeros_for(pc):
        zs = set()
        for p in pc:
            if p not in zm:
                zm[p] = zero_atoms(R, p)
            zs |= zm[p]
        for q, a in zmap:
            if a and pc[:len(q)] == q:
                zs |= a
        return zs

    def numbers(pc, bs):
        """bytes as forms, least significant last, whose value is V -> sum form, atoms"""
        fs = []
        for b in bs:
            if b is None:
                return None
            try:
                fs.append(R.form(b))
            except NotLinear:
                return None
        tot = (0, {})
        for i, f in enumerate(fs):
            tot = R.add(tot, f, 1 << 8 * (len(fs) - 1 - i))
        R.zero = zeros_for(pc)
        if R.expand(tot) != R.expand(V):
            return None
        return tot
    bmemo = {}
    bi = 0
    sums = []     # (pc, replacements of the bytes)
    for j, (pc, x) in enumerate(D.G.done):
        while bi < len(D.bufs) and D.bufs[bi][0] <= j:
            _, q, cs = D.bufs[bi]
            bi += 1
            if bad is None and (q, cs) not in bmemo:
                bmemo[q, cs] = True
                for n in LENS[fmt]:
                    if n <= len(cs):
                        if numbers(q, cs[:n]) is not None:
                            sums.append((q, byte_ranges(cs[:n], lo, hi)))
        R.zero = zeros_for(pc)
        if (pc, x) in proven:
            continue
        r = None
        for q, sub in sums:
            if pc[:len(q)] == q and any(unwrap(y) in sub for y in tops(x)):
                y = t.substitute([x], sub)[0]
                if y is t.TRUE:
                    r = "unsat"
                    break
                if not has_digit(y, {}):
                    raise Depends(x)
        if r != "unsat":
            r, _ = R.prove(x, facts, (), 10, pc)
        if r == "sat":
            raise Depends(x)
        if r != "unsat":
            raise Undecided("%s: branch: %s %s" % (nm, r, str(x)[:150]))
        proven[pc, x] = 1
        zmap.append((pc, zero_atoms(R, x)))
    settled = time.time() - t0
    # what each path returns, and what it leaves in the outputs
    nb = (hi.bit_length() + 7) // 8 if bad is None else 0
    match = [n for n in LENS[fmt] if bad is None and nb <= n and n - nb == z and hi < 1 << 8 * n]
    if fmt == "xprv" and not (XLO <= lo and hi <= XHI):
        match = []
    if not match:
        for s, r in D.rets:
            if r.op != "const" or r.args[0]:
                raise Undecided(nm + ": accepted")
            if D.after(s) != D.before:
                raise Undecided(nm + ": outputs changed")
        rep.claim("%s: rejected (%d branches settled)" % (nm, len(proven)), "proved", settled)
        solve_obligations(ctx, rep, D.M, [], nm)
        return
    n = match[0]
    recs = [(q, bs, key) for q, bs, key in D.records if len(bs) == n]
    keys = {key for _, _, key in recs}
    if len(keys) != 1 or len({tuple(bs) for _, bs, _ in recs}) != 1:
        raise Undecided(nm + ": %d hashed messages" % len(keys))
    q, bs, key = recs[0]
    f = numbers(q, bs)
    if f is None:
        raise Undecided(nm + ": decoded bytes")
    H = D.hashes[key]
    sub, Y = {}, []
    for i, b in enumerate(bs):
        if b.op == "const":
            Y.append(b)
        else:
            b = unwrap(b)
            if b in sub:
                raise Undecided(nm + ": equal bytes")
            y = t.var("Y%d.%d" % (i, b.w), b.w)
            sub[b] = y
            if whole(b) is not b:
                sub[whole(b)] = t.zext(y, whole(b).w)
            Y.append(t.zext(y, 8))
    acc = [t.eq(Y[n - 4 + i], H[i]) for i in range(4)]
    want = None
    if fmt == "pkh":
        want = [t.concat_lsb(Y[1:21]), Y[0]]
    elif fmt == "wif":
        want = [t.concat_lsb(Y[1:33][::-1]), Y[0], c(n - 37, 8)]
        if n == 38:
            acc.append(t.eq(Y[33], c(1, 8)))
    else:
        key_ = t.concat_lsb(Y[46:78][::-1])
        acc += [t.eq(Y[45], c(0, 8)), t.ne(key_, c(0, 256)), t.ult(key_, c(N, 256))]
        want = {"priv": key_, "cc": t.concat_lsb(Y[13:45]), "depth": Y[4], "index": t.concat_lsb(Y[9:13][::-1]), "pp": t.concat_lsb(Y[5:9])}
    if nulls:
        want = want[:1] + D.before[1:]
    acc = t.conj(acc)
    memo = {}
    # what the case says of leading bytes
    goals = []
    known = []
    for i, y in enumerate(Y):
        l, h = lo >> 8 * (n - 1 - i), hi >> 8 * (n - 1 - i)
        if y.op != "const" and l >> 8 == h >> 8:
            known += [t.ule(c(l & 255, 8), y), t.ule(y, c(h & 255, 8))]
    for j, (s, r) in enumerate(D.rets):
        xs = t.substitute(list(s.pc) + [r] + D.after(s), sub)
        pc, r, out = xs[:len(s.pc)], xs[len(s.pc)], xs[len(s.pc) + 1:]
        pc = [p for p in pc if not has_digit(p, memo)] + known
        ok = t.ne(r, c(0, r.w))
        goals.append(("accepted exactly if well formed #%d" % j, pc + [t.bxor(ok, acc)]))
        diff = [t.ne(a, b) for a, b in zip(out, D.before)]
        goals.append(("outputs unchanged if rejected #%d" % j, pc + [t.bnot(ok), t.disj(diff)]))
        if ok is t.FALSE:
            continue
        if fmt == "xprv":
            from units.xkey import FIELDS, mulof
            d = [t.ne(o, want[f_]) for f_, o in zip(FIELDS, out) if f_ != "pub"]
            goals.append(("fields #%d" % j, pc + [ok, t.disj(d)]))
            # the public key, by what the abstract points say
            a = D.after(s)[list(FIELDS).index("pub")]
            tr = tuple(t.extract(a, 256 * i + 255, 256 * i) for i in range(3))
            b = D.before[list(FIELDS).index("pub")]
            b = tuple(t.extract(b, 256 * i + 255, 256 * i) for i in range(3))
            leaf = D.pts.leaf
            D.pts.leaf = lambda x: ("const", (0, 1, 0)) if tuple(x) == b else leaf(x)
            mu = t.substitute([mulof(D.pts, tr)], sub)[0]
            goals.append(("public key #%d" % j, pc + [ok, t.ne(mu, key_)]))
        else:
            goals.append(("values #%d" % j, pc + [ok, t.disj([t.ne(a, b) for a, b in zip(out, want)])]))
    qs = [Q("%s: %s" % (nm, g), hy, 20) for g, hy in goals]
    solver.solve_many(qs, jobs=1)
    for qq in qs:
        if qq.result != "unsat":
            raise Undecided("%s: %s" % (qq.name, qq.result))
    rep.claim("%s: decoded (%d branches settled, %d paths)" % (nm, len(proven), len(D.rets)), "proved", settled + sum(x.secs for x in qs))
    solve_obligations(ctx, rep, D.M, [], nm)


def dec_cases(fmt):
    """(length, ones, least and greatest number)"""
    res = []
    for m in range(WINDOW[fmt][0], WINDOW[fmt][1] + 1):
        for z in range(m + 1):
            L = m - z
            lo, hi = (58 ** (L - 1), 58 ** L - 1) if L else (0, 0)
            cuts = [1 << 8 * k for k in range(max(LENS[fmt]) + 1)]
            if fmt == "xprv":
                for i in range(4):
                    k = int.from_bytes(XHEAD[:i + 1], "big")
                    cuts += [k << 8 * (81 - i), k + 1 << 8 * (81 - i)]
            cuts = [lo] + sorted(x for x in cuts if lo < x <= hi) + [hi + 1]
            res += [(m, z, a, b - 1) for a, b in zip(cuts, cuts[1:])]
    return res


def near(fmt, case):
    """how far a case is from a well-formed text"""
    m, z, lo, hi = case
    nb = (hi.bit_length() + 7) // 8
    if fmt == "xprv" and not (XLO <= lo and hi <= XHI):
        return 1 if nb >= 82 and z == 0 else 5
    return min(abs(n - nb - z) for n in LENS[fmt])


def digits(v, L):
    r = []
    for _ in range(L):
        v, x = divmod(v, 58)
        r.append(x)
    return r[::-1]


def dec_case(ctx, rep, label, fmt, case, rnd, nulls=False):
    m, z, lo, hi = case
    nm = "%s length %d, %d ones, number of %d..%d bits%s" % (label, m, z, lo.bit_length(), hi.bit_length(), ", null" if nulls else "")
    vs = set(spread(rnd, lo, hi, 8))
    if fmt == "wif":
        v = rnd.randrange(lo, hi + 1)
        v += (1 << 32) - (v & 255 << 32)
        if lo <= v <= hi:
            vs.add(v)
    if fmt == "xprv" and XLO <= lo and hi <= XHI:
        for k, o in ((0, 0), (N, 0), (N - 1, 1), (1, 255), (0, 1), (5, 0), (2 ** 256 - 1, 0)):
            v = int.from_bytes(XHEAD + rnd.randbytes(41) + bytes([o]) + k.to_bytes(32, "big") + rnd.randbytes(4), "big")
            if lo <= v <= hi:
                vs.add(v)
    envs = [{"d%d" % (z + i): x for i, x in enumerate(digits(v, m - z))} for v in sorted(vs)]
    for e in envs:
        e["bad"] = 0
    retry(lambda never: decode_case(ctx, rep, label, nm, fmt, m, z, lo, hi, envs, never, nulls))


def rejects(D, rep, nm, ctx):
    for s, r in D.rets:
        if r.op != "const" or r.args[0]:
            raise Undecided(nm + ": accepted")
        if D.after(s) != D.before:
            raise Undecided(nm + ": outputs changed")
    rep.use(D.M)
    solve_obligations(ctx, rep, D.M, [], nm)
    rep.claim(nm + ": rejected", "proved")


def dec_lengths(ctx, rep, label, fmt):
    """texts of other lengths are rejected, and encode nothing"""
    lo, hi = WINDOW[fmt]
    for m in range(lo):
        rejects(Dec(ctx, fmt, m, 0, envs=[{}]), rep, "%s length %d" % (label, m), ctx)
    n = t.var("length", 64, hi + 1, (1 << 63) - 1)
    rejects(Dec(ctx, fmt, hi + 1, 0, envs=[{}], anylen=n), rep, "%s length above %d" % (label, hi), ctx)
    # every well-formed text is within the lengths: z ones and the digits of a number of n - z bytes
    for n in LENS[fmt]:
        a = 1 << 8 * (n - 1) if fmt != "xprv" else XLO
        mx = len(digits_of((1 << 8 * n) - 1 if fmt != "xprv" else XHI))
        if mx > hi:
            raise Undecided(label + ": longest text")
        for z in range(1 if fmt == "xprv" else n + 1):
            if not short_impossible(n, z, lo, a if z == 0 else (1 << 8 * (n - z - 1) if z < n else 0)):
                raise Undecided(label + ": shortest text")
    rep.claim("%s: well-formed texts have %d to %d characters" % (label, lo, hi), "proved")


def digits_of(v):
    r = []
    while v:
        v, x = divmod(v, 58)
        r.append(x)
    return r


def short_impossible(n, z, lo, v):
    """no text of z ones and the digits of a number of n - z bytes, v at least, that carries its checksum is shorter than lo"""
    if lo - 1 - z < 0:
        return True
    top = 58 ** (lo - 1 - z) - 1        # greatest number with few enough digits
    if top < v:
        return True
    if top >> 48:
        return False
    # few payloads have such numbers
    for p in range(v >> 32, (top >> 32) + 1):
        if v <= (p << 32 | int.from_bytes(dsha(p.to_bytes(n - 4, "big"))[:4], "big")) <= top:
            return False
    return True


def dec_foreign(ctx, rep, label, fmt, m, p, rnd):
    nm = "%s length %d, first foreign character at %d" % (label, m, p)
    envs = [{"d%d" % i: f(i) for i in range(m)} for f in [lambda i: 0, lambda i: 57, lambda i: 0 if i < 4 else 57] + [lambda i: rnd.randrange(58)] * 4]
    for e in envs:
        e["bad"] = rnd.randrange(256)
    retry(lambda never: decode_case(ctx, rep, label, nm, fmt, m, 0, 0, 0, envs, never, bad=p))


def dec_work(fmt, tier, rnd):
    """what to decide -> list of (kind, arguments)"""
    cs = dec_cases(fmt)
    lo, hi = WINDOW[fmt]
    rest = [x for x in cs if near(fmt, x) > 1]
    rnd.shuffle(rest)
    if tier == "quick":
        rest = rest[:24 if fmt != "xprv" else 4]
    res = [("case", x) for x in cs if near(fmt, x) <= 1] + [("case", x) for x in rest]
    ps = list(range(hi))
    if tier == "quick" and fmt == "xprv":
        ps = [0, 1, 55, 110] + rnd.sample(range(2, 110), 8)
    for p in ps:
        res.append(("foreign", (max(lo, p + 1) if tier == "quick" and p % 2 else hi, p)))
        if tier != "quick" and p + 1 < hi and fmt != "xprv":
            res.append(("foreign", (max(lo, p + 1), p)))
    first = [x for x in cs if near(fmt, x) == 0]
    if fmt != "xprv":
        res += [("null", x) for x in (first if tier != "quick" else rnd.sample(first, 6))]
    return res


def directed(fmt, kind, x, rnd, n):
    """texts of a case, their checksums right for the bytes a decoder can take them for"""
    res = []
    if kind == "foreign":
        for _ in range(n):
            s = "".join(rnd.choice(ALPHA) for _ in range(x[0]))
            res.append(s[:x[1]] + FOREIGN[rnd.randrange(256)] + s[x[1] + 1:])
        return res
    m, z, lo, hi = x
    for _ in range(n):
        k = rnd.choice(LENS[fmt])
        v = rnd.choice(spread(rnd, lo, hi, 9))
        if fmt == "wif" and k == 38 and rnd.random() < .8:
            v += (1 << 32) - (v & 255 << 32)
        if fmt == "xprv":
            v &= ~(255 << 8 * 36)
            if rnd.random() < .3:
                v &= ~((2 ** 256 - 1) << 32)
                v |= rnd.choice([0, N, N - 1, 1, N + 1]) << 32
        w = v % (1 << 8 * k) >> 32
        v = v >> 32 << 32 | int.from_bytes(dsha(w.to_bytes(k - 4, "big"))[:4], "big")
        res.append("1" * z + "".join(ALPHA[d] for d in digits_of(v)[::-1]))
        if rnd.random() < .3:
            res.append("1" * z + "".join(ALPHA[d] for d in digits_of(v ^ 1 << rnd.randrange(32))[::-1]))
        if rnd.random() < .05:
            res += wrong_checksums((v % (1 << 8 * k)).to_bytes(k, "big"), rnd)
    return res


def dec_unit(fmt, part, parts):
    @unit("b.dec/%s/cpp%s" % (fmt, "/%d" % part if parts > 1 else ""), ["ir", "cpp"], limit=780)
    def _u(ctx, rep):
        label = "b.dec/" + fmt
        rnd = random.Random("%s/%s" % (ctx.seed, label))
        if part == 0 and not run_decode(ctx, rep, fmt, texts(fmt, rnd, 250)):
            return
        work = dec_work(fmt, ctx.tier, rnd)
        bad = kind = None
        try:
            if part == 0:
                dec_lengths(ctx, rep, label, fmt)
            for kind, x in work[part::parts]:
                if kind == "foreign":
                    dec_foreign(ctx, rep, label, fmt, x[0], x[1], rnd)
                else:
                    dec_case(ctx, rep, label, fmt, x, rnd, kind == "null")
            rep.bound("texts of %d to %d characters (%s of the cases by length, leading ones and bytes of the number), every shorter and longer text" % (WINDOW[fmt] + ("all" if ctx.tier != "quick" else "all well-formed or nearly so, and some other,",)))
            rep.assume("the double SHA-256 as decided by H01")
        except (Undecided, Unsupported, NotLinear) as e:
            bad = str(e)
        except Exception as e:
            from sv.fieldabs import Undecided as U2
            if not isinstance(e, U2):
                raise
            bad = str(e)
        if bad and kind and not run_decode(ctx, rep, fmt, directed(fmt, kind, x, rnd, 1000)):
            return
        if bad and run_decode(ctx, rep, fmt, texts(fmt, rnd, 6000)):
            rep.claim(label, "undecided", 0, bad)


for _f, _k in (("pkh", 2), ("wif", 4), ("xprv", 2)):
    for _p in range(_k):
        dec_unit(_f, _p, _k)


# ---------------------------------------------------------------- Java
ALPHA16 = {ord(x) for x in ALPHA}
FOREIGN16 = [x for x in range(65536) if x not in ALPHA16]
FOREIGN16 = "".join(map(chr, FOREIGN16 + FOREIGN16[:58]))
t.UF_EVAL["b58bad16"] = lambda a: ord(FOREIGN16[a[0]])
IAE = "java/lang/IllegalArgumentException"


def jhash(M, sums):
    """sums(list of byte terms) -> first and second hash, as byte terms, or None"""
    from sv.jvm import JArr
    first = {}

    def make(M, st, bs):
        return M.construct(st, "Sha256Hash", "([B)V", [M.bytes(st, bs)])

    def double(M, st, a):
        return make(M, st, sums(list(st.mem[a[0].oid].cells))[1])

    def single(M, st, a):
        m = tuple(st.mem[a[0].oid].cells)
        if m in first:
            return make(M, st, first[m])
        h1, h2 = sums(list(m))
        first[tuple(h1)] = h2
        return make(M, st, h1)
    R = "Lio/nayuki/bitcoin/crypto/Sha256Hash;"
    M.stubs["Sha256.getDoubleHash([B)" + R] = double
    M.stubs["Sha256.getHash([B)" + R] = single


def java_run(ctx, rep, lines, want):
    for ln, w, g in zip(lines, want, ctx.native("java", lines)):
        if g != w:
            rep.violated("Base58Check", "java", ln, w, g)
            return False
        rep.validated += 1
    return True


def java_payload(rnd):
    k = rnd.randrange(8)
    n = rnd.choice([0, 1, 2, 3, 4, 5, 20, 21, 33, 34, 78, rnd.randrange(100)])
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k < 4:
        z = rnd.randrange(n + 1)
        return bytes(z) + rnd.randbytes(n - z)
    if k == 4:
        return rnd.choice([58 ** rnd.randrange(100), 256 ** rnd.randrange(60) * rnd.choice([1, 127, 128, 255])]).to_bytes(90, "big").lstrip(b"\0")
    if k == 5:
        return bytes([0] * rnd.randrange(3) + [rnd.choice([127, 128, 255, 1])]) + rnd.randbytes(n)
    return rnd.randbytes(n)


def java_enc_runs(ctx, rep, rnd, n):
    ps = [java_payload(rnd) for _ in range(n)]
    return java_run(ctx, rep, ["b.enc " + (p.hex() or "-") for p in ps], [b58check(p).encode("utf-16be").hex() for p in ps])


def java_dec_want(s):
    p = unb58check(s)
    return "!java.lang.IllegalArgumentException" if p is None else (p.hex() or "-")


def java_texts(rnd, n):
    res = ["", "1", "11", "111", "1111", "z", "zzzzzz", "zzzzz", "zzzz", "2", "21", "12", "0", "1l", "3yQ", "3QJmnh"]
    while len(res) < n:
        s = b58check(java_payload(rnd))
        k = rnd.randrange(10)
        res.append(s)
        if k == 0:
            d = bytearray(unb58(s))
            d[-rnd.randrange(1, 5)] ^= 1 << rnd.randrange(8)
            res.append(b58(bytes(d)))
            if rnd.random() < .3:
                res += rnd.sample(wrong_checksums(unb58(s), rnd), 25)
        elif k == 1:
            res += ["1" + s, s[1:]]
        elif k < 5:
            i = rnd.randrange(len(s) + 1)
            ch = rnd.choice(["0", "O", "I", "l", " ", "\n", "+", "\u0131", "\uff11", "\u4e2d", chr(rnd.randrange(1, 0xD800)), chr(ord(rnd.choice(ALPHA)) + 256 * rnd.randrange(1, 200))])
            res.append(s[:i] + ch + s[i + rnd.randrange(2):])
        elif k == 5:
            res.append(s[:rnd.randrange(len(s))])
        elif k == 6:
            res.append("".join(rnd.choice(ALPHA) for _ in range(rnd.randrange(12))))
    return res


def java_dec_runs(ctx, rep, rnd, n, more=()):
    ts = java_texts(rnd, n) + list(more)
    return java_run(ctx, rep, ["b.dec " + (s.encode("utf-16be", "surrogatepass").hex() or "-") for s in ts], [java_dec_want(s) for s in ts])


def java_encode_case(ctx, rep, nm, n, z, L, lo, hi, bs, envs, chars, never):
    from sv.jvm import Java, JExc, JStr
    M = Java(ctx, feasibility=False).mach
    G = Guide(envs)
    G.never = never
    h1 = [t.var("h1.%d" % i, 8) for i in range(32)]

    def sums(m):
        if m != bs[:n - 4]:
            raise Undecided("hash of something else than the payload")
        return h1, bs[n - 4:] + [t.var("h2.%d" % i, 8) for i in range(4, 32)]
    jhash(M, sums)
    st = M.start()
    arr = M.bytes(st, bs[:n - 4])
    guided(M, G)
    rets = M.call("Base58Check", "bytesToBase58", [arr], st)
    rep.use(M)
    if len(rets) != 1 or not isinstance(rets[0][1], JStr):
        raise Undecided("%s: %d paths" % (nm, len(rets)))
    s, r = rets[0]
    if s.mem[arr.oid].cells != bs[:n - 4]:
        raise Undecided(nm + ": argument modified")
    if len(r.ch) != z + L:
        raise Undecided(nm + ": length of the text")
    text_check(rep, nm, n, z, L, lo, hi, bs, list(r.ch), G, chars, 16)
    solve_obligations(ctx, rep, M, [], nm)


def text_check(rep, nm, n, z, L, lo, hi, bs, cells, G, chars, w):
    R = Radix()
    V = (0, {})
    for i, b in enumerate(bs):
        V = R.add(V, R.form(b), 1 << 8 * (n - 1 - i))
    D = Digits(R)
    facts = [(V, lo, hi)]
    g, total = V, (0, {})
    ds = [chars.digit(rep, cells[z + L - 1 - k]) for k in range(L)]
    for x in ds + [y for _, x in G.done for y in comparands(x)]:
        try:
            R.form(x)
        except NotLinear:
            pass
    for k, d in enumerate(ds):
        f, g = D.exact(d, g)
        total = R.add(total, f, 58 ** k)
        lo, hi = lo // 58, hi // 58
        facts.append((g, lo, hi))
    for i in range(z):
        if cells[i] is not c(ord("1"), w):
            raise Undecided("leading character")
    k = settle(rep, R, G, nm, facts, (), False)
    t0 = time.time()
    used = set()
    sv = z3.Solver()
    sv.set("timeout", 10000)
    sv.add(R.z(R.add(R.add(V, total, -1), (0, {})), used) != 0)
    r, secs = R.finish(sv, used, facts, t0, False)
    if r != "unsat":
        raise Undecided("%s: sum of the digits: %s" % (nm, r))
    rep.claim("%s: text (%d branches settled)" % (nm, k), "proved", secs)


def java_encode(ctx, rep, label, n, rnd, chars):
    """every payload of n - 4 bytes"""
    for z, L, lo, hi in cases(n):
        nm = "%s %d bytes: %d leading zero bytes, %d digits" % (label, n - 4, z, L)
        bs = [c(0, 8) if i < z else t.var("b%d" % i, 8, 1 if i == z else 0) for i in range(n)]
        vs = spread(rnd, lo, hi, 7)
        envs = [{"b%d" % i: v >> 8 * (n - 1 - i) & 255 for i in range(n)} for v in sorted(vs)]
        retry(lambda never: java_encode_case(ctx, rep, nm, n, z, L, lo, hi, bs, envs, chars, never))


class JDec:
    def __init__(self, ctx, m, z, bad, envs, never):
        from sv.jvm import Java, JStr
        from sv import jlib
        M = self.M = Java(ctx, feasibility=False).mach
        self.ds, chars = [], []
        for i in range(m):
            if i < z:
                chars.append(c(49, 16))
            elif i == bad:
                chars.append(t.uf("b58bad16", 16, (t.var("bad", 16),)))
            else:
                d = t.var("d%d" % i, 8, 1 if bad is None and i == z else 0, 57)
                self.ds.append(d)
                chars.append(t.zext(t.uf("b58char", 8, (d,), 49, 122), 16))
        self.hashes, self.records = {}, []

        def sums(ms):
            k = tuple(ms)
            if k not in self.hashes:
                n = len(self.hashes)
                self.hashes[k] = [[t.var("hash.%d.%d.%d" % (j, n, i), 8) for i in range(32)] for j in (1, 2)]
            self.records.append(ms)
            return self.hashes[k]
        jhash(M, sums)
        old = M.library

        def library(fn, pc, cls, name, desc, args, st):
            if cls == "java/lang/String" and name == "indexOf" and isinstance(args[0], JStr) and len(args) == 2 and hasattr(args[1], "op"):
                ch = unwrap(args[1])
                if ch.op == "uf" and ch.args[0] in ("b58char", "b58bad16"):
                    if args[0].const() != ALPHA:
                        raise Undecided("another alphabet")
                    return [(st, t.zext(ch.args[1], 32) if ch.args[0] == "b58char" else c(-1, 32))]
            return old(fn, pc, cls, name, desc, args, st)
        M.library = library
        self.G = G = DGuide(envs)
        G.never = never
        st = M.start()
        guided(M, G)
        t.keep_sums(True)
        try:
            self.rets = M.call("Base58Check", "base58ToBytes", [JStr(chars)], st)
        finally:
            t.keep_sums(False)


def java_decode_case(ctx, rep, nm, m, z, lo, hi, envs, never, bad=None):
    from sv.jvm import JExc, Ref
    D = JDec(ctx, m, z, bad, envs, never)
    rep.use(D.M)
    R = Radix()
    R.flat = True
    R.chars = {"b58char": ALPHA, "b58bad16": FOREIGN16}
    V = (0, {})
    if bad is None:
        for i, d in enumerate(D.ds):
            V = R.add(V, R.form(d), 58 ** (len(D.ds) - 1 - i))
    facts = [(V, lo, hi)] if bad is None else []
    seen = set()
    t0 = time.time()
    for pc, x in D.G.done:
        if (pc, x) in seen:
            continue
        seen.add((pc, x))
        r, _ = R.prove(x, facts, (), 10, pc)
        if r == "sat":
            raise Depends(x)
        if r != "unsat":
            raise Undecided("%s: branch: %s %s" % (nm, r, str(x)[:100]))
    secs = time.time() - t0
    n = z + (hi.bit_length() + 7) // 8 if bad is None else 0
    if bad is not None or n < 4:
        for s, r in D.rets:
            if not isinstance(r, JExc) or not D.M.subclass(r.cls, IAE):
                raise Undecided(nm + ": not rejected")
        rep.claim("%s: rejected (%d branches settled)" % (nm, len(seen)), "proved", secs)
        solve_obligations(ctx, rep, D.M, [], nm)
        return
    # the bytes: those hashed, and those they are compared with
    goals = []
    if not D.records or any(r != D.records[0] for r in D.records) or len(D.records[0]) != n - 4:
        raise Undecided(nm + ": bytes hashed")
    msg = D.records[0]
    H = D.hashes[tuple(msg)][1]
    # the last four bytes are those of the number
    W = max(x.w for x in [t.concat(*msg)] + [t.const(hi, hi.bit_length() + 1)]) + 64
    num = t.linear(0, [(58 ** (len(D.ds) - 1 - i), t.zext(d, W)) for i, d in enumerate(D.ds)], W)
    # forms of the bytes must add up
    t.keep_sums(True)
    tail = [t.extract(num, 8 * i + 7, 8 * i) for i in (3, 2, 1, 0)]
    t.keep_sums(False)
    tot = (0, {})
    for i, b in enumerate(msg + tail):
        tot = R.add(tot, R.form(b), 1 << 8 * (n - 1 - i))
    for a, k in enumerate(R.atoms):
        if isinstance(k, tuple) and k[0] == "flo" and k[1] == R.freeze(V) and hi < k[2]:
            R.zero.add(a)
    if R.expand(tot) != V:
        raise Undecided(nm + ": decoded bytes")
    tf = [R.freeze(R.form(b)) for b in tail]
    memo = {}
    ok = []
    sub = {}
    Y, known = [], []
    for i, b in enumerate(tail):
        l, h = lo >> 8 * (3 - i), hi >> 8 * (3 - i)
        l, h = (l & 255, h & 255) if l >> 8 == h >> 8 else (0, 255)
        Y.append(t.var("Y%d" % i, 8) if b.op != "const" else b)
        known += [t.ule(c(l, 8), Y[-1]), t.ule(Y[-1], c(h, 8))]
    for s, r in D.rets:
        # bytes of the checksum in the conditions
        pc = []
        for p in s.pc:
            for x in t.postorder([p], set()):
                if x.hi < 256 and x not in sub and x.op != "const" and x.op != "uf" and not (x.op == "var" and x.args[0][0] == "h"):
                    try:
                        f = R.freeze(R.form(x))
                    except NotLinear:
                        continue
                    if f in tf:
                        y = Y[tf.index(f)]
                        sub[x] = t.zext(y, x.w) if x.w >= 8 else t.extract(y, x.w - 1, 0)
                        if x.w < 8:
                            known.append(t.ult(y, c(1 << x.w, 8)))
            pc.append(p)
        pc = [p for p in t.substitute(pc, sub) if not has_digit(p, memo)] if pc else []
        acc = t.conj([t.eq(a, b) for a, b in zip(Y, H)])
        if isinstance(r, JExc):
            if not D.M.subclass(r.cls, IAE):
                raise Undecided(nm + ": exception " + r.cls)
            goals.append(pc + known + [acc])
        else:
            if not isinstance(r, Ref) or r.oid == 0 or s.mem[r.oid].cells != msg:
                raise Undecided(nm + ": returned bytes")
            goals.append(pc + known + [t.bnot(acc)])
    qs = [Q("%s: accepted exactly if the checksum is right #%d" % (nm, j), g, 20) for j, g in enumerate(goals)]
    solver.solve_many(qs, jobs=1)
    for q in qs:
        if q.result != "unsat":
            raise Undecided("%s: %s" % (q.name, q.result))
    rep.claim("%s: decoded (%d branches settled, %d paths)" % (nm, len(seen), len(D.rets)), "proved", secs + sum(q.secs for q in qs))
    solve_obligations(ctx, rep, D.M, [], nm)


def java_dec_cases(m):
    for z in range(m + 1):
        L = m - z
        lo, hi = (58 ** (L - 1), 58 ** L - 1) if L else (0, 0)
        cuts = sorted(x for k in range(1, m + 2) for x in (1 << 8 * k, 1 << 8 * k - 1) if lo < x <= hi)
        cuts = [lo] + cuts + [hi + 1]
        for a, b in zip(cuts, cuts[1:]):
            yield m, z, a, b - 1


def java_dec_case(ctx, rep, label, x, rnd):
    m, z, lo, hi = x
    nm = "%s length %d, %d ones, number of %d..%d bits" % (label, m, z, lo.bit_length(), hi.bit_length())
    envs = [{"d%d" % (z + i): d for i, d in enumerate(digits(v, m - z))} for v in spread(rnd, lo, hi, 5)]
    for e in envs:
        e["bad"] = rnd.randrange(65536)
    retry(lambda never: java_decode_case(ctx, rep, nm, m, z, lo, hi, envs, never))


def java_foreign(ctx, rep, label, m, p, rnd):
    nm = "%s length %d, first foreign character at %d" % (label, m, p)
    envs = [dict([("d%d" % i, rnd.randrange(58)) for i in range(m)] + [("bad", rnd.randrange(65536))]) for _ in range(5)]
    retry(lambda never: java_decode_case(ctx, rep, nm, m, 0, 0, 0, envs, never, p))


def java_lengths(ctx, rnd):
    if ctx.tier == "quick":
        return sorted(set(range(26)) | {33, 34, 78} | {rnd.randrange(26, 78)}), sorted(set(range(40)) | {51, 52, 111} | {rnd.randrange(40, 110)})
    return list(range(100)), list(range(140))


def juenc(part, parts):
    @unit("b.enc/java/%d" % part, ["java"], limit=780)
    def _u(ctx, rep):
        rnd = random.Random("%s/b.enc/java" % ctx.seed)
        if part == 0 and not java_enc_runs(ctx, rep, rnd, 400):
            return
        ns, _ = java_lengths(ctx, rnd)
        chars = Chars("b.enc/java")
        try:
            for n in ns[::-1][part::parts]:
                java_encode(ctx, rep, "b.enc/java", n + 4, rnd, chars)
            rep.bound("payloads of %s bytes, every value" % ", ".join(map(str, ns)))
            rep.assume("BigInteger, StringBuilder, Arrays as documented; the double SHA-256 as decided by H01")
        except (Undecided, Unsupported, NotLinear) as e:
            if java_enc_runs(ctx, rep, rnd, 8000):
                rep.claim("b.enc/java", "undecided", 0, str(e))


def judec(part, parts):
    @unit("b.dec/java/%d" % part, ["java"], limit=780)
    def _u(ctx, rep):
        rnd = random.Random("%s/b.dec/java" % ctx.seed)
        if part == 0 and not java_dec_runs(ctx, rep, rnd, 600):
            return
        _, ms = java_lengths(ctx, rnd)
        work = [("case", x) for m in ms for x in java_dec_cases(m)] + [("foreign", (m, p)) for m in ms for p in range(m)]
        if ctx.tier == "quick":
            big = [w for w in work if w[1][0] > 24]
            rnd.shuffle(big)
            work = [w for w in work if w[1][0] <= 24] + big[:300]
        kind = None
        try:
            for kind, x in work[part::parts]:
                if kind == "case":
                    java_dec_case(ctx, rep, "b.dec/java", x, rnd)
                else:
                    java_foreign(ctx, rep, "b.dec/java", x[0], x[1], rnd)
            rep.bound("texts of %s characters, every content%s" % (", ".join(map(str, ms)), "; above 24 characters a selection of the cases by leading ones and length in bytes" if ctx.tier == "quick" else ""))
            rep.assume("BigInteger, String, Arrays as documented; the double SHA-256 as decided by H01")
        except (Undecided, Unsupported, NotLinear) as e:
            more = []
            if kind == "case":
                m, z, lo, hi = x
                for _ in range(300):
                    v = rnd.choice(spread(rnd, lo, hi, 9))
                    k = z + (v.bit_length() + 7) // 8
                    if k >= 4:
                        b = v.to_bytes(k, "big")
                        v = int.from_bytes(b[:-4] + dsha(b[:-4])[:4], "big")
                        if rnd.random() < .1:
                            more += wrong_checksums(v.to_bytes(k, "big"), rnd)
                    more.append("1" * z + "".join(ALPHA[d] for d in digits_of(v)[::-1]))
            elif kind == "foreign":
                for _ in range(300):
                    s = "".join(rnd.choice(ALPHA) for _ in range(x[0]))
                    more.append(s[:x[1]] + rnd.choice(FOREIGN16[1:0xD700]) + s[x[1] + 1:])
            if java_dec_runs(ctx, rep, rnd, 8000, more):
                rep.claim("b.dec/java", "undecided", 0, str(e))


for _p in range(4):
    juenc(_p, 4)
    judec(_p, 4)
