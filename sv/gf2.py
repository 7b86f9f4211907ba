"""Canonical form of bit vectors that are linear over GF(2) in their non-linear subterms (checksums): every bit becomes an
exclusive-or of atoms in a fixed order, so that differently written but equal linear circuits become identical terms."""
from . import term as t
from .sweep import rebuild


class Gf2:
    def __init__(self):
        self.index = {}        # atom (term of width 1) -> bit position; position 0 is the constant one
        self.atoms = [None]
        self.memo = {}         # term -> list of masks
        self.canon = {}        # term -> canonical term

    def atom(self, x):
        if x.op == "const":
            return x.args[0]
        if x.op == "not":
            return self.atom(x.args[0]) ^ 1
        i = self.index.get(x)
        if i is None:
            i = self.index[x] = len(self.atoms)
            self.atoms.append(x)
        return 1 << i

    def opaque(self, y):
        return [self.atom(t.extract(y, i, i)) for i in range(y.w)]

    def bits(self, x):
        return self.memo[x]

    def run(self, roots):
        for x in t.postorder(roots):
            self.memo[x] = None if x in self.memo and self.memo[x] is None else self.node(x) if x not in self.memo else self.memo[x]
        return [self.term(x) for x in roots]

    def node(self, x):
        op, w = x.op, x.w
        B = self.memo
        if op == "const":
            v = x.args[0]
            return [v >> i & 1 for i in range(w)]
        if op in ("var", "uf"):
            y = x if op == "var" else rebuild(x, {k: self.term(k) for k in t.kids(x)})
            self.canon[x] = y
            return self.opaque(y)
        if op == "concat":
            return [b for p in x.args for b in B[p]]
        if op == "extract":
            l = x.args[1]
            return B[x.args[0]][l:l + w]
        if op == "sext":
            b = B[x.args[0]]
            return b + [b[-1]] * (w - len(b))
        if op == "xor":
            r = list(B[x.args[0]])
            for y in x.args[1:]:
                r = [a ^ b for a, b in zip(r, B[y])]
            return r
        if op == "not":
            return [a ^ 1 for a in B[x.args[0]]]
        if op in ("or", "and"):
            r = self.orand(op, x)
            if r is not None:
                return r
        if op == "add" and x.args[0] == 0 and len(x.args[1]) == 1:
            k, y = x.args[1][0]
            if y.hi <= 1:
                return [B[y][0] if k >> i & 1 else 0 for i in range(w)]
        if op == "ite":
            cnd, a, b = x.args
            d = [p ^ q for p, q in zip(B[a], B[b])]
            if all(z <= 1 for z in d):
                k = B[cnd][0]
                return [q ^ (k if z else 0) for q, z in zip(B[b], d)]
        m = {k: self.term(k) for k in t.kids(x)}
        if op == "ite" and m[x.args[0]].op == "or":
            y = t.ite(t.band(*[t.bnot(k) for k in m[x.args[0]].args]), m[x.args[2]], m[x.args[1]])
        else:
            y = rebuild(x, m)
        self.canon[x] = y
        if y.op in ("const", "xor", "concat") and y is not x and y not in self.memo:
            for z in t.postorder([y]):
                if z not in self.memo:
                    self.memo[z] = self.node(z)
            return self.memo[y]
        return self.opaque(y)

    def orand(self, op, x):
        B = self.memo
        zero, one = (0, 1) if op == "or" else (1, 0)     # neutral, absorbing
        res = []
        for i in range(x.w):
            live = []
            val = zero
            for y in x.args:
                b = B[y][i]
                if b == one:
                    val = one
                    break
                if b != zero and b not in live:
                    live.append(b)
            if val == one:
                res.append(one)
            elif not live:
                res.append(zero)
            elif len(live) == 1:
                res.append(live[0])
            else:
                return None
        return res

    def bit_term(self, m):
        k = m & 1
        m >>= 1
        xs = []
        i = 1
        while m:
            z = (m & -m).bit_length()
            xs.append(self.atoms[i + z - 1])
            m >>= z
            i += z
        if not xs:
            return t.const(k, 1)
        r = xs[0] if len(xs) == 1 else t.bxor(*xs)
        return t.bnot(r) if k else r

    def term(self, x):
        y = self.canon.get(x)
        if y is not None:
            return y
        ks = t.kids(x)
        bs = self.memo[x]
        if not ks:
            y = x
        elif all(m & (m - 1) == 0 or (m & 1 and (m ^ 1) & ((m ^ 1) - 1) == 0) for m in bs):
            y = rebuild(x, {k: self.term(k) for k in ks}) if x.op not in ("xor",) else self.build(bs)
        else:
            y = self.build(bs)
        self.canon[x] = y
        return y

    def build(self, bs):
        return t.concat_lsb([self.bit_term(m) for m in bs])
