"""Self-test: the simplifying constructors agree with direct evaluation on random expressions."""
import random, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from sv import term as t

def run(seed, n=60):
    rnd = random.Random(seed)
    env = {}
    pool = []  # (term, value)
    for w in (1, 1, 1, 8, 8, 32, 32, 32, 64, 64, 16, 5):
        for i in range(2):
            nm = "v%d_%d_%d" % (w, i, len(pool))
            v = rnd.choice([rnd.getrandbits(w), 0, (1 << w) - 1, 1])
            env[nm] = v
            pool.append((t.var(nm, w), v))
    for _ in range(n):
        m = lambda w: (1 << w) - 1
        k = rnd.randrange(22)
        a, av = rnd.choice(pool)
        w = a.w
        same = [(x, xv) for x, xv in pool if x.w == w]
        b, bv = rnd.choice(same)
        if rnd.random() < 0.25:
            bv = rnd.choice([0, 1, m(w), rnd.getrandbits(w), 0xff & m(w), 1 << rnd.randrange(w)]) 
            b = t.const(bv, w)
        c, cv = rnd.choice([p for p in pool if p[0].w == 1])
        if k == 0: r, rv = t.add(a, b), (av + bv) & m(w)
        elif k == 1: r, rv = t.sub(a, b), (av - bv) & m(w)
        elif k == 2: r, rv = t.band(a, b), av & bv
        elif k == 3: r, rv = t.bor(a, b), av | bv
        elif k == 4: r, rv = t.bxor(a, b), av ^ bv
        elif k == 5: r, rv = t.bnot(a), ~av & m(w)
        elif k == 6:
            s = rnd.randrange(w); r, rv = t.shl(a, t.const(s, w)), av << s & m(w)
        elif k == 7:
            s = rnd.randrange(w); r, rv = t.lshr(a, t.const(s, w)), av >> s
        elif k == 8:
            s = rnd.randrange(w); r, rv = t.ashr(a, t.const(s, w)), t.to_signed(av, w) >> s & m(w)
        elif k == 9:
            l = rnd.randrange(w); h = rnd.randrange(l, w); r, rv = t.extract(a, h, l), av >> l & m(h - l + 1)
        elif k == 10 and w <= 64:
            x, xv = rnd.choice(pool)
            if x.w + w > 128: continue
            r, rv = t.concat(x, a), xv << w | av
        elif k == 11 and w < 64:
            w2 = rnd.choice([v for v in (8, 16, 32, 64) if v > w]); r, rv = t.zext(a, w2), av
        elif k == 12 and w < 64:
            w2 = rnd.choice([v for v in (8, 16, 32, 64) if v > w]); r, rv = t.sext(a, w2), t.to_signed(av, w) & m(w2)
        elif k == 13: r, rv = t.ite(c, a, b), av if cv else bv
        elif k == 14: r, rv = t.eq(a, b), int(av == bv)
        elif k == 15: r, rv = t.ult(a, b), int(av < bv)
        elif k == 16: r, rv = t.slt(a, b), int(t.to_signed(av, w) < t.to_signed(bv, w))
        elif k == 17: r, rv = t.mul(a, b), av * bv & m(w)
        elif k == 18: r, rv = t.udiv(a, b), (av // bv if bv else m(w))
        elif k == 19: r, rv = t.urem(a, b), (av % bv if bv else av)
        elif k == 20: r, rv = t.neg(a), -av & m(w)
        elif k == 21:
            r, rv = (t.sdiv, t.srem)[rnd.randrange(2)](a, b), None
            if bv == 0: continue
            x, y = t.to_signed(av, w), t.to_signed(bv, w)
            q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            got = t.evaluate([r], env)[0]
            assert got in (q & m(w), (x - q * y) & m(w)), (seed, x, y, got)
            continue
        else: continue
        got = t.evaluate([r], env)[0]
        assert got == rv, (seed, k, a, b, r, hex(got), hex(rv))
        assert r.lo <= rv <= r.hi, (seed, k, a, b, r, rv, r.lo, r.hi)
        pool.append((r, rv))

if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 3000
    for s in range(n):
        run(s)
    print("ok", n)
