"""Affine secp256k1 arithmetic on concrete integers (oracle for replays)."""
from sv.ops import P, N

G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    """affine points as pairs, None the identity"""
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def neg(a):
    return None if a is None else (a[0], -a[1] % P)


def mul(k, a):
    r = None
    while k:
        if k & 1:
            r = add(r, a)
        a = add(a, a)
        k >>= 1
    return r


def lift(x):
    """a point with this x coordinate, or None"""
    y2 = (x * x * x + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    return (x, y) if y * y % P == y2 else None
