"""Bech32 and segwit addresses (Java)."""
import random
from sv import term as t, solver
from sv.engine import Unsupported
from sv.frame import unit
from sv.gf2 import Gf2
from sv.ops import Op, Param, check_op
from sv.jvm import Java, JExc, JStr, JBox
from units.conv import TAG, cs

c = t.const
ALPHA = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
GEN = [0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]


# ---------------------------------------------------------------- concrete reference

def pmod(vals):
    chk = 1
    for v in vals:
        top = chk >> 25
        chk = (chk & 0x1FFFFFF) << 5 ^ v
        for i in range(5):
            if top >> i & 1:
                chk ^= GEN[i]
    return chk


def hexp(h):
    return [ord(x) >> 5 for x in h] + [0] + [ord(x) & 31 for x in h]


def encode(h, data):
    k = pmod(hexp(h) + list(data) + [0] * 6) ^ 1
    return h + "1" + "".join(ALPHA[d] for d in data) + "".join(ALPHA[k >> 5 * (5 - i) & 31] for i in range(6))


def repack(prog):
    x = int.from_bytes(bytes(prog), "big") if prog else 0
    n = 8 * len(prog)
    pad = -n % 5
    x <<= pad
    return [x >> 5 * i & 31 for i in reversed(range((n + pad) // 5))]


# ---------------------------------------------------------------- symbolic specification

def between(x, a, b):
    return t.band(t.ule(c(a, x.w), x), t.ule(x, c(b, x.w)))


def polymod(vals):
    """vals: 5-bit terms"""
    r = c(1, 30)
    for v in vals:
        r2 = t.concat_lsb([v, t.extract(r, 24, 0)])
        for i in range(5):
            b = t.extract(r, 25 + i, 25 + i)
            r2 = t.bxor(r2, t.ite(b, c(GEN[i], 30), c(0, 30)))
        r = r2
    return r


def expand(h):
    """the characters are below 128"""
    return [t.zext(t.extract(x, 6, 5), 5) for x in h] + [c(0, 5)] + [t.extract(x, 4, 0) for x in h]


def human_ok(h):
    return t.conj([t.band(between(x, 33, 126), t.bnot(between(x, 65, 90))) for x in h]) if 1 <= len(h) <= 83 else t.FALSE


def alpha_char(v, w=16):
    """character of a 5-bit value"""
    r = c(ord(ALPHA[31]), w)
    for i in range(30, -1, -1):
        r = t.ite(t.eq(v, c(i, 5)), c(ord(ALPHA[i]), w), r)
    return r


def alpha_index(ch):
    """(is in the alphabet, 5-bit index)"""
    ok, r = [], c(0, 5)
    for i in range(31, -1, -1):
        e = t.eq(ch, c(ord(ALPHA[i]), ch.w))
        ok.append(e)
        r = t.ite(e, c(i, 5), r)
    return t.disj(ok), r


def bits_to(groups, w, m, pad):
    """regroup terms of w bits (first most significant) into m-bit terms; pad with zeros or drop the rest.
    Returns (groups, the dropped bits or None)"""
    x = t.concat_lsb(list(reversed(groups))) if groups else None
    n = w * len(groups)
    if pad and n % m:
        k = -n % m
        x = t.concat_lsb([c(0, k), x])
        n += k
    out = []
    while n >= m:
        out.append(t.extract(x, n - 1, n - m))
        n -= m
    return out, (t.extract(x, n - 1, 0) if n else None)


def cat(xs, w):
    """first element most significant; an empty list as one zero bit"""
    return t.concat_lsb(list(reversed(xs))) if xs else c(0, 1)


def masked(ok, x):
    return t.ite(ok, x, c(0, x.w))


def dec_spec(s, p):
    """(valid, human part, 5-bit data with checksum) of a string with the last '1' at p"""
    n = len(s)
    lower = t.disj([between(x, 97, 122) for x in s])
    upper = t.disj([between(x, 65, 90) for x in s])
    f = [t.ite(between(x, 65, 90), t.add(x, c(32, 16)), x) for x in s]
    if p < 0 or n - p - 1 < 6 or not 1 <= p <= 83 or n > 90:
        return t.FALSE, [], []
    h, d = f[:p], f[p + 1:]
    idx = [alpha_index(x) for x in d]
    ok = t.conj([t.bnot(t.band(lower, upper)), human_ok(h)] + [i[0] for i in idx] + [t.eq(polymod(expand(h) + [i[1] for i in idx]), c(1, 30))])
    return ok, h, [i[1] for i in idx]


def dec_out(s, p):
    ok, h, d = dec_spec(s, p)
    return {"tag": t.ite(ok, c(0, 8), c(1, 8)), "hrp": masked(ok, cat(h, 16)), "data": masked(ok, cat([t.zext(x, 8) for x in d[:-6]], 8))}


def seg_out(s, p):
    ok, h, d = dec_spec(s, p)
    d = d[:-6]
    if len(d) < 1:
        return {"tag": c(1, 8), "hrp": c(0, 1), "ver": c(0, 32), "prog": c(0, 1)}
    prog, rest = bits_to(d[1:], 5, 8, False)
    if not 2 <= len(prog) <= 40 or (rest is not None and rest.w >= 5):
        ok = t.FALSE
    else:
        ok = t.conj([ok, t.ule(d[0], c(16, 5))] + ([t.eq(rest, c(0, rest.w))] if rest is not None else []))
    return {"tag": t.ite(ok, c(0, 8), c(1, 8)), "hrp": masked(ok, cat(h, 16)), "ver": masked(ok, t.zext(d[0], 32)), "prog": masked(ok, cat(prog, 8))}


# ---------------------------------------------------------------- samples

HCH = [chr(x) for x in range(33, 127) if not 65 <= x <= 90]


def rand_human(rnd, p):
    return "".join(rnd.choice(HCH) if rnd.randrange(4) else rnd.choice("!~1a@[`{zbc") for _ in range(p))


def rand_string(rnd, n, p, segwit):
    """mostly valid strings of this layout"""
    if p < 0 or p >= n:
        return "".join(rnd.choice(HCH + list(ALPHA)) for _ in range(n)).replace("1", "2")
    if n - p - 1 < 6 or p == 0:
        return "".join(rnd.choice(ALPHA) for _ in range(p)) + "1" + "".join(rnd.choice(ALPHA) for _ in range(n - p - 1))
    h = rand_human(rnd, p)
    k = n - p - 7
    data = [rnd.randrange(32) for _ in range(k)]
    if segwit and k:
        data[0] = rnd.choice([0, 1, 16, 15, 17, 31, rnd.randrange(17)])
        rest = 5 * (k - 1) % 8
        m = rnd.randrange(4)
        if k > 1 and rest and m:
            x = data[-1] & ~((1 << min(rest, 5)) - 1)
            if m == 3 and rest <= 5:
                x |= 1 << rnd.randrange(rest)
            data[-1] = x
            if rest > 5:
                data[-2] &= ~((1 << rest - 5) - 1)
    s = encode(h, data)
    r = rnd.randrange(12)
    q = list(s)
    if r == 0:
        q = list(s.upper())
    elif r == 1:
        i = rnd.randrange(n)
        q[i] = q[i].upper()
    elif r == 2:
        i = rnd.randrange(n)
        q[i] = rnd.choice([chr(32), chr(127), chr(0), "b", "i", "o", "B", "\u0130", "\u212a", "\u0161", "\uff11", "Q", chr(ord(q[i]) + 128)])
    elif r == 3:
        i = rnd.randrange(p + 1, n)
        q[i] = rnd.choice(ALPHA)
    elif r == 4:
        i = rnd.randrange(p)
        q[i] = rnd.choice(HCH)
    elif r == 5:
        q = list(s.upper())
        i = rnd.randrange(n)
        q[i] = q[i].lower()
    elif r == 6:      # checksum constant of the other variant
        k2 = pmod(hexp(h) + data + [0] * 6) ^ 0x2BC830A3
        q[-6:] = [ALPHA[k2 >> 5 * (5 - i) & 31] for i in range(6)]
    return "".join(q)


LOOK = {"k": "\u212a", "s": "\u017f", "i": "\u0130\u0131"}


def look_alikes(s, rnd, p=None):
    """the text with letters replaced by characters that case mapping, digit values or narrowing would identify with them"""
    k = rnd.randrange(6)
    pick = (lambda i: True) if rnd.randrange(2) else (lambda i: (i < p) == bool(rnd.randrange(2))) if p is not None and rnd.randrange(2) else (lambda i: rnd.randrange(2))
    if rnd.randrange(3) == 0:
        s = s.upper()
    q = list(s)
    for i, x in enumerate(q):
        l = x.lower()
        if not pick(i):
            continue
        if k < 3 and l in LOOK:
            q[i] = rnd.choice(LOOK[l])
        elif k == 3 and x != "1":
            q[i] = chr(ord(x) + 0xFEE0)
        elif k == 4 and x != "1":
            q[i] = chr(ord(x) + 256 * rnd.randrange(1, 255))
        elif k == 5 and x.isdigit() and x != "1":
            q[i] = chr(0x660 + int(x))
    return "".join(q)


class DecOp(Op):
    def __init__(self, name, n, p, segwit, fixed, encoded=False):
        self.n, self.p, self.segwit, self.fixed, self.encoded = n, p, segwit, fixed, encoded
        spec = (lambda v: seg_out(self.chars(v), p)) if segwit else (lambda v: dec_out(self.chars(v), p))
        outs = ["tag", "hrp", "ver", "prog"] if segwit else ["tag", "hrp", "data"]
        Op.__init__(self, "%s/%d.%d" % (name, n, p), [Param("c%d" % i, 16) for i in range(n) if not (fixed and i == p)], outs, spec, self.allowed,
                    line=lambda vals: "%s %s" % (name, "".join("%04x" % (49 if i == p and fixed else vals["c%d" % i]) for i in range(n)) or "-"))
        self.excs = True
        self.outs_n = len(outs)

    def chars(self, v):
        return [c(49, 16) if self.fixed and i == self.p else v["c%d" % i] for i in range(self.n)]

    def layout(self, v):
        s = self.chars(v)
        q = [t.bnot(t.eq(x, c(49, 16))) for x in s[self.p + 1:]] if self.p >= 0 else [t.bnot(t.eq(x, c(49, 16))) for x in s]
        if self.p >= 0 and not self.fixed:
            q.append(t.eq(s[self.p], c(49, 16)))
        return q

    def allowed(self, v):
        q = self.layout(v)
        s = self.chars(v)
        if self.encoded:      # only what the encoder writes
            q += [t.bnot(between(x, 65, 90)) for x in s] + [t.eq(self.spec(v)["tag"], c(0, 8))]
        return q

    def parse(self, s):
        if s.startswith("!"):
            return [TAG.get(s[1:], 2)] + [0] * (self.outs_n - 1)
        f = s.split()
        hx = lambda x: 0 if x == "-" else int(x, 16)
        return [0] + [hx(x) for x in f]

    def samples(self, rnd, k):
        res = []
        while len(res) < k:
            s = rand_string(rnd, self.n, self.p, self.segwit)
            if len(res) % 4 == 3 and not self.encoded:
                s = look_alikes(s, rnd, self.p)
            vals = {"c%d" % i: ord(s[i]) for i in range(self.n) if not (self.fixed and i == self.p)}
            if self.fixed and s[self.p] != "1":
                continue
            if not self.ok_pre(vals):
                continue
            res.append(vals)
        return res




def arr_cat(s, ref, w=8):
    cells = s.mem[ref.oid].cells
    return cat([t.trunc(x, w) for x in cells], w)


def fit(x, w):
    """a result of another size than specified can never be equal: give it a distinguishable value"""
    return x if x.w == w else None


def dec_paths(ctx, op, v):
    M = Java(ctx, max_states=200).mach
    rnd = random.Random(op.name)
    M.feas.wit = solver.Witnesses(op.samples(rnd, 24))
    M.feas.s.set("timeout", 150)
    st = M.start()
    for q in op.layout(v):
        st.assume(q)
    sp = op.spec(v)
    ws = [sp[o].w for o in op.outs]
    paths = []
    for s, rv in M.call("Bech32", "bech32ToSegwit" if op.segwit else "bech32ToBitGroups", [JStr(op.chars(v))], st):
        if isinstance(rv, JExc):
            paths.append((s.pc, [c(TAG.get(rv.cls, 2), 8)] + [c(0, w) for w in ws[1:]]))
            continue
        cells = s.mem[rv.oid].cells
        outs = [c(0, 8)]
        vals = []
        for x in cells:
            if isinstance(x, JStr):
                vals.append(cat(x.ch, 16))
            elif isinstance(x, JBox):
                vals.append(x.v)
            else:
                vals.append(arr_cat(s, x))
        if len(vals) != len(ws) - 1 or any(a.w != w for a, w in zip(vals, ws[1:])):
            outs = [c(3, 8)] + [c(0, w) for w in ws[1:]]
        else:
            outs += vals
        paths.append((s.pc, outs))
    return M, paths


def dec_unit(ctx, rep, cmd, layouts, segwit, encoded=False):
    for n, p in layouts:
        op = DecOp(cmd, n, p, segwit, p >= 0, encoded)
        check_op(ctx, rep, op, "java", lambda v: dec_paths(ctx, op, v), nval=24, timeout=60, prep=lambda xs: Gf2().run(xs))
        if rep.violations:
            return


def register(name, segwit, groups):
    for g, layouts in groups.items():
        unit("%s/%s" % (name, g), ["java"], limit=200, cost=3, cmd=name, layouts=layouts, segwit=segwit)(dec_unit)


register("c.dec", False, {
    "short": [(n, p) for n in (0, 1, 2, 7) for p in range(-1, n)],
    "small": [(8, p) for p in range(-1, 8)] + [(9, 1), (9, 2), (9, 3), (10, 1), (10, 2), (11, 1), (11, 3)],
    "mid": [(20, 3), (14, 7), (42, 2)],
    "long": [(90, 2)], "long83": [(90, 83)], "long84": [(90, 82), (91, 2), (91, 84), (92, 83), (120, 3)],
})
register("c.segdec", True, {
    "small": [(n, 1) for n in (8, 9, 10, 11, 12, 13, 14, 15)] + [(14, 2), (16, 2), (10, 5)],
    "p2wpkh": [(42, 2)], "p2wsh": [(62, 2)], "max": [(74, 2)], "over": [(75, 2), (76, 2), (77, 2)], "mid": [(18, 1), (20, 1), (21, 1), (23, 1), (24, 3)],
})


for _cmd, _groups in {
    "c.dec": {"small": [(8, 1), (9, 2), (11, 2)], "mid": [(30, 3), (42, 2)], "long": [(90, 2), (90, 83)]},
    "c.segdec": {"small": [(13, 1), (14, 1), (18, 2), (22, 1), (25, 1)], "p2wpkh": [(42, 2)], "p2wsh": [(62, 2)], "max": [(74, 2), (90, 18)]},
}.items():
    for _g, _l in _groups.items():
        unit("c.rt%s/%s" % (_cmd[1:], _g), ["java"], limit=200, cost=3, cmd=_cmd, layouts=_l, segwit="seg" in _cmd, encoded=True)(dec_unit)


# ---------------------------------------------------------------- encoding

def enc_spec(h, data, ok):
    """(valid, text) for human characters h and 5-bit groups"""
    if len(h) + len(data) + 7 > 90:
        ok = t.FALSE
    ok = t.band(ok, human_ok(h))
    k = t.bxor(polymod(expand(h) + data + [c(0, 5)] * 6), c(1, 30))
    text = list(h) + [c(49, 16)] + [alpha_char(x) for x in data] + [alpha_char(t.extract(k, 5 * i + 4, 5 * i)) for i in range(5, -1, -1)]
    return {"tag": t.ite(ok, c(0, 8), c(1, 8)), "text": masked(ok, cat(text, 16))}


class EncOp(Op):
    def __init__(self, name, h, d):
        self.h, self.d, self.segwit = h, d, name == "c.segenc"
        ps = [Param("h%d" % i, 16) for i in range(h)] + ([Param("ver", 32)] if self.segwit else []) + [Param("d%d" % i, 8) for i in range(d)]
        hx = lambda vals: "".join("%04x" % vals["h%d" % i] for i in range(h)) or "-"
        dx = lambda vals: "".join("%02x" % vals["d%d" % i] for i in range(d)) or "-"
        line = (lambda vals: "c.segenc %s %x %s" % (hx(vals), vals["ver"], dx(vals))) if self.segwit else (lambda vals: "c.enc %s %s" % (hx(vals), dx(vals)))
        Op.__init__(self, "%s/%d.%d" % (name, h, d), ps, ["tag", "text"], self.define, line=line)
        self.excs = True

    def parts(self, v):
        return [v["h%d" % i] for i in range(self.h)], [v["d%d" % i] for i in range(self.d)]

    def define(self, v):
        h, d = self.parts(v)
        if not self.segwit:
            return enc_spec(h, [t.extract(x, 4, 0) for x in d], t.conj([t.eq(t.extract(x, 7, 5), c(0, 3)) for x in d]))
        ok = t.ule(v["ver"], c(16, 32)) if 2 <= self.d <= 40 else t.FALSE
        return enc_spec(h, [t.extract(v["ver"], 4, 0)] + bits_to(d, 8, 5, True)[0], ok)

    def parse(self, s):
        if s.startswith("!"):
            return [TAG.get(s[1:], 2), 0]
        n = self.h + 7 + (1 + (8 * self.d + 4) // 5 if self.segwit else self.d)
        return [0, int(s, 16)] if len(s) == 4 * n else [3, 0]

    def samples(self, rnd, k):
        res = []
        for _ in range(k):
            h = [ord(x) for x in rand_human(rnd, self.h)]
            d = [rnd.randrange(256 if self.segwit else 32) for _ in range(self.d)]
            ver = rnd.randrange(17)
            r = rnd.randrange(10)
            if r == 0 and h:
                h[rnd.randrange(self.h)] = rnd.choice([32, 127, 65, 90, 64, 91, 0, 128, 256 + 97, 0xFF41, 33, 126])
            elif r == 1 and d and not self.segwit:
                d[rnd.randrange(self.d)] = rnd.choice([32, 128, 255, 31, 64, 33])
            elif r == 1:
                ver = rnd.choice([17, 31, 32, 0xFFFFFFFF, 0x80000000, 16, 256, 48])
            elif r == 2:
                d = [rnd.choice([0, 255 if self.segwit else 31])] * self.d
            vals = {"h%d" % i: x for i, x in enumerate(h)}
            vals.update({"d%d" % i: x for i, x in enumerate(d)})
            if self.segwit:
                vals["ver"] = ver
            res.append(vals)
        return res


def enc_paths(ctx, op, v):
    M = Java(ctx, max_states=200).mach
    M.feas.wit = solver.Witnesses(op.samples(random.Random(op.name), 24))
    M.feas.s.set("timeout", 150)
    st = M.start()
    h, d = op.parts(v)
    w = op.spec(v)["text"].w
    paths = []
    args = [JStr(h)] + ([v["ver"]] if op.segwit else []) + [M.bytes(st, d)]
    for s, rv in M.call("Bech32", "segwitToBech32" if op.segwit else "bitGroupsToBech32", args, st):
        if isinstance(rv, JExc):
            paths.append((s.pc, [c(TAG.get(rv.cls, 2), 8), c(0, w)]))
        else:
            x = cat(rv.ch, 16)
            paths.append((s.pc, [c(0, 8), x] if x.w == w else [c(3, 8), c(0, w)]))
    return M, paths


def enc_unit(ctx, rep, cmd, layouts):
    for h, d in layouts:
        op = EncOp(cmd, h, d)
        check_op(ctx, rep, op, "java", lambda v: enc_paths(ctx, op, v), nval=24, timeout=60, prep=lambda xs: Gf2().run(xs))
        if rep.violations:
            return


for _cmd, _groups in {
    "c.enc": {"small": [(h, d) for h in (0, 1, 2, 3) for d in (0, 1, 2, 5)], "mid": [(2, 33), (10, 20), (5, 40)], "max": [(1, 82), (2, 81)], "max83": [(83, 0), (40, 43)], "over": [(1, 83), (2, 82), (83, 1), (84, 0), (90, 3)]},
    "c.segenc": {"small": [(h, d) for h in (1, 2) for d in (0, 1, 2, 3, 4, 5, 6)] + [(0, 2)], "p2wpkh": [(2, 20)], "p2wsh": [(2, 32), (4, 32)], "max": [(2, 40), (17, 40)], "over": [(2, 41), (18, 40), (19, 40), (31, 32), (30, 32)]},
}.items():
    for _g, _l in _groups.items():
        unit("%s/%s" % (_cmd, _g), ["java"], limit=300, cost=4, cmd=_cmd, layouts=_l)(enc_unit)
