"""Hash functions written from their published definitions, over terms (and over integers through term constants)."""
from . import term as t

c = t.const


def _primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def _root(x, k):
    """floor(x^(1/k))"""
    lo, hi = 0, 1 << (x.bit_length() // k + 2)
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m
    return lo


def _frac(p, k, bits):
    return _root(p << k * bits, k) & ((1 << bits) - 1)


K256 = [_frac(p, 3, 32) for p in _primes(64)]
H256 = [_frac(p, 2, 32) for p in _primes(8)]
K512 = [_frac(p, 3, 64) for p in _primes(80)]
H512 = [_frac(p, 2, 64) for p in _primes(8)]


def _sha2(state, block, w, rounds, K, s0, s1, S0, S1):
    """state: 8 words; block: bytes"""
    B = w // 8
    r = lambda x, n: t.rotr(x, n)
    W = [t.concat_lsb(block[B * i:B * i + B][::-1]) for i in range(16)]
    sg = lambda x, q: t.bxor(r(x, q[0]), r(x, q[1]), t.lshr(x, c(q[2], w)))
    SG = lambda x, q: t.bxor(r(x, q[0]), r(x, q[1]), r(x, q[2]))
    for i in range(16, rounds):
        W.append(t.add_many(sg(W[i - 2], s1), W[i - 7], sg(W[i - 15], s0), W[i - 16]))
    a, b, cc, d, e, f, g, h = state
    for i in range(rounds):
        t1 = t.add_many(h, SG(e, S1), t.bxor(t.band(e, f), t.band(t.bnot(e), g)), c(K[i], w), W[i])
        t2 = t.add(SG(a, S0), t.bxor(t.band(a, b), t.band(a, cc), t.band(b, cc)))
        a, b, cc, d, e, f, g, h = t.add(t1, t2), a, b, cc, t.add(d, t1), e, f, g
    return [t.add(x, y) for x, y in zip(state, (a, b, cc, d, e, f, g, h))]


def sha256_block(state, block):
    return _sha2(state, block, 32, 64, K256, (7, 18, 3), (17, 19, 10), (2, 13, 22), (6, 11, 25))


def sha512_block(state, block):
    return _sha2(state, block, 64, 80, K512, (1, 8, 7), (19, 61, 6), (28, 34, 39), (14, 18, 41))


# RIPEMD-160: message orders from the permutations rho and pi of the specification
_RHO = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
_SH = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],      # shift amount of word i in each round
       [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
       [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
       [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
       [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
_KL = [0] + [_root(p << 60, 2) for p in (2, 3, 5, 7)]
_KR = [_root(p << 90, 3) for p in (2, 3, 5, 7)] + [0]
HRMD = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]


def rmd160_block(state, block):
    X = [t.concat_lsb(block[4 * i:4 * i + 4]) for i in range(16)]
    F = [lambda x, y, z: t.bxor(x, y, z),
         lambda x, y, z: t.bor(t.band(x, y), t.band(t.bnot(x), z)),
         lambda x, y, z: t.bxor(t.bor(x, t.bnot(y)), z),
         lambda x, y, z: t.bor(t.band(x, z), t.band(y, t.bnot(z))),
         lambda x, y, z: t.bxor(x, t.bor(y, t.bnot(z)))]
    outs = []
    for side in (0, 1):
        order = list(range(16)) if side == 0 else [(9 * i + 5) % 16 for i in range(16)]
        a, b, cc, d, e = state
        for j in range(5):
            f = F[j] if side == 0 else F[4 - j]
            k = (_KL if side == 0 else _KR)[j]
            for i in range(16):
                w = order[i]
                s = _SH[j][w]
                x = t.add(t.rotl(t.add_many(a, f(b, cc, d), X[w], c(k, 32)), s), e)
                a, e, d, cc, b = e, d, t.rotl(cc, 10), b, x
            order = [_RHO[i] if False else i for i in order]
            order = [_RHO[x] for x in order]
        outs.append((a, b, cc, d, e))
    L, R = outs
    h = state
    return [t.add_many(h[1], L[2], R[3]), t.add_many(h[2], L[3], R[4]), t.add_many(h[3], L[4], R[0]), t.add_many(h[4], L[0], R[1]), t.add_many(h[0], L[1], R[2])]


# Keccak-f[1600]: lanes A[x + 5 y]
def _keccak_consts():
    rot = {(0, 0): 0}
    x, y = 1, 0
    for i in range(24):
        rot[x, y] = (i + 1) * (i + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    rc, lf = [], 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if lf & 1:
                v |= 1 << (1 << j) - 1
            lf <<= 1
            if lf & 0x100:
                lf ^= 0x171
        rc.append(v)
    return rot, rc


_ROT, _RC = _keccak_consts()


def keccak_f(A):
    A = list(A)
    for rnd in range(24):
        C = [t.bxor(*[A[x + 5 * y] for y in range(5)]) for x in range(5)]
        D = [t.bxor(C[(x + 4) % 5], t.rotl(C[(x + 1) % 5], 1)) for x in range(5)]
        A = [t.bxor(A[x + 5 * y], D[x]) for y in range(5) for x in range(5)]
        B = [None] * 25
        for x in range(5):
            for y in range(5):
                B[y + 5 * ((2 * x + 3 * y) % 5)] = t.rotl(A[x + 5 * y], _ROT[x, y])
        A = [t.bxor(B[x + 5 * y], t.band(t.bnot(B[(x + 1) % 5 + 5 * y]), B[(x + 2) % 5 + 5 * y])) for y in range(5) for x in range(5)]
        A[0] = t.bxor(A[0], c(_RC[rnd], 64))
    return A


class Algo:
    """name, word width, initial state, block bytes, block function (state, bytes) -> state"""

    def __init__(self, name, w, init, bl, fn, lenbytes, big):
        self.name, self.w, self.init, self.bl, self.fn, self.lenbytes, self.big = name, w, init, bl, fn, lenbytes, big

    def start(self):
        return [c(x, self.w) for x in self.init]

    def pad(self, tail, bits):
        """final blocks for the bytes after the last whole block; bits: 64-bit term"""
        k = len(tail)
        z = (self.bl - self.lenbytes - 1 - k) % self.bl
        ln = [t.extract(bits, 8 * i + 7, 8 * i) for i in range(8)]
        ln += [c(0, 8)] * (self.lenbytes - 8)
        if self.big:
            ln = ln[::-1]
        return list(tail) + [c(0x80, 8)] + [c(0, 8)] * z + ln

    def out(self, state):
        r = []
        for s in state:
            b = [t.extract(s, 8 * i + 7, 8 * i) for i in range(self.w // 8)]
            r += b[::-1] if self.big else b
        return r

    def digest(self, msg, fn=None, state=None, done=0):
        """msg: byte terms. state/done: state after `done` bytes (a multiple of the block length)"""
        fn = fn or self.fn
        s = state or self.start()
        n = len(msg)
        whole = n // self.bl * self.bl
        tail = self.pad(msg[whole:], c((n + done) * 8, 64))
        data = list(msg[:whole]) + tail
        for i in range(0, len(data), self.bl):
            s = fn(s, data[i:i + self.bl])
        return self.out(s)


SHA256 = Algo("sha256", 32, H256, 64, sha256_block, 8, True)
SHA512 = Algo("sha512", 64, H512, 128, sha512_block, 16, True)
RMD160 = Algo("rmd160", 32, HRMD, 64, rmd160_block, 8, False)


def keccak256(msg, fn=None):
    fn = fn or keccak_f
    A = [c(0, 64)] * 25
    k = len(msg)
    pad = 136 - k % 136
    p = [c(0x01, 8)] + [c(0, 8)] * (pad - 2) + [c(0x80, 8)] if pad > 1 else [c(0x81, 8)]
    data = list(msg) + p
    for i in range(0, len(data), 136):
        b = data[i:i + 136]
        for j in range(17):
            A[j] = t.bxor(A[j], t.concat_lsb(b[8 * j:8 * j + 8]))
        A = fn(A)
    return [t.extract(A[i // 8], i % 8 * 8 + 7, i % 8 * 8) for i in range(32)]


def hmac(algo_digest, bl, key, msg):
    """algo_digest: bytes -> bytes"""
    if len(key) > bl:
        key = algo_digest(key)
    key = list(key) + [c(0, 8)] * (bl - len(key))
    inner = algo_digest([t.bxor(k, c(0x36, 8)) for k in key] + list(msg))
    return algo_digest([t.bxor(k, c(0x5C, 8)) for k in key] + inner)


def concrete(fn, *bufs):
    """fn over bytes"""
    r = fn(*[[c(x, 8) for x in b] for b in bufs])
    return bytes(t.cval(x) for x in r)
