"""Direct integer reading of straight-line bit-vector terms (sums, concatenations, slices, comparisons): every sum is
taken apart as value + 2^w * quotient, every sliced value into its slices. Decided by z3's linear integer arithmetic."""
import time, z3
from . import term as t
from .solver import STATS


class Ints:
    def __init__(self, roots):
        """roots: all conditions to be asserted; cut points of slices are collected from them"""
        self.n = 0
        self.cons = []
        self.memo = {}
        self.cuts = {}
        self.pieces = {}
        for x in t.postorder(roots, set()):
            if x.op == "extract":
                self.cuts.setdefault(x.args[0], set()).update((x.args[1], x.args[1] + x.w))

    def fresh(self, lo, hi):
        v = z3.Int("i%d" % self.n)
        self.n += 1
        self.cons += [v >= lo, v <= hi]
        return v

    def split(self, x):
        """-> [(offset, width, integer)]"""
        if x not in self.pieces:
            cs = sorted((self.cuts.get(x, set()) | {0, x.w}))
            ps = [(a, b - a, self.fresh(0, (1 << b - a) - 1)) for a, b in zip(cs, cs[1:])]
            self.pieces[x] = ps
            if x.op != "var":
                self.cons.append(self.raw(x) == z3.Sum([p * (1 << o) for o, _, p in ps]))
        return self.pieces[x]

    def val(self, x):
        if x not in self.memo:
            if x.op == "var" or x in self.cuts:
                self.memo[x] = z3.Sum([p * (1 << o) for o, _, p in self.split(x)])
            else:
                self.memo[x] = self.raw(x)
        return self.memo[x]

    def raw(self, x):
        op = x.op
        if op == "const":
            return z3.IntVal(x.args[0])
        if op == "concat":
            o, r = 0, []
            for k in x.args:
                r.append(self.val(k) * (1 << o))
                o += k.w
            return z3.Sum(r)
        if op == "extract":
            lo = x.args[1]
            return z3.Sum([p * (1 << o - lo) for o, w, p in self.split(x.args[0]) if lo <= o and o + w <= lo + x.w])
        if op == "add":
            w = x.w
            s, lo, hi = z3.IntVal(x.args[0]), x.args[0], x.args[0]
            for c, k in x.args[1]:
                if c >> w - 1:
                    c -= 1 << w
                s = s + c * self.val(k)
                m = c * ((1 << k.w) - 1)
                lo, hi = lo + min(m, 0), hi + max(m, 0)
            q = self.fresh(lo >> w, hi >> w)
            r = s - q * (1 << w)
            self.cons += [r >= 0, r < 1 << w]
            return r
        if op == "not":
            return (1 << x.w) - 1 - self.val(x.args[0])
        if op == "ite":
            return z3.If(self.cond(x.args[0]), self.val(x.args[1]), self.val(x.args[2]))
        if x.w == 1 and op in ("eq", "ult", "and", "or", "xor"):
            return z3.If(self.cond(x), z3.IntVal(1), z3.IntVal(0))
        raise ValueError("operation " + op)

    def cond(self, x):
        op = x.op
        if op == "const":
            return z3.BoolVal(bool(x.args[0]))
        if op == "eq":
            return self.val(x.args[0]) == self.val(x.args[1])
        if op == "ult":
            return self.val(x.args[0]) < self.val(x.args[1])
        if op == "not":
            return z3.Not(self.cond(x.args[0]))
        if op in ("and", "or", "xor"):
            f = {"and": z3.And, "or": z3.Or}.get(op)
            ks = [self.cond(k) for k in x.args]
            if f:
                return f(*ks)
            r = ks[0]
            for k in ks[1:]:
                r = z3.Xor(r, k)
            return r
        if op == "ite":
            return z3.If(*[self.cond(k) for k in x.args])
        return self.val(x) == 1


def decide(conds, timeout=20, env=None):
    """-> ("unsat" | "sat" | "unknown", seconds); a model goes into env"""
    t0 = time.time()
    if any(c is t.FALSE for c in conds):
        STATS["structural"] += 1
        return "unsat", 0.0
    try:
        e = Ints(conds)
        zs = [e.cond(c) for c in conds]
    except ValueError as ex:
        return "unknown", 0.0
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(*e.cons)
    s.add(*zs)
    r = str(s.check())
    if r == "sat" and env is not None:
        m = s.model()
        for x in e.pieces:
            if x.op == "var":
                env[x.args[0]] = sum(m.eval(p, model_completion=True).as_long() << o for o, _, p in e.pieces[x])
    STATS["queries"] += 1
    STATS[r] += 1
    STATS["solver_s"] += time.time() - t0
    return r, time.time() - t0
