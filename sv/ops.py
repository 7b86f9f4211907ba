"""Operations as (parameters, precondition, specification, entry points, native command) and the generic
equivalence check between the encoded implementation and the specification."""
import random, time
from . import term as t, solver
from .engine import Unsupported, Ptr
from .solver import Q

P = (1 << 256) - (1 << 32) - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
M256 = (1 << 256) - 1


def fmt(v, w):
    return "%064x" % v if w == 256 else "%x" % v if w <= 64 else "%0*x" % (w // 4, v)


class Param:
    def __init__(self, name, w, lo=0, hi=None, kind=None):
        self.name, self.w, self.lo, self.hi = name, w, lo, (1 << w) - 1 if hi is None else hi
        self.kind = kind

    def var(self):
        return t.var(self.name, self.w, self.lo, self.hi)


class Op:
    """spec(v) maps parameter terms to a dict of output terms; outs lists the outputs in native order."""

    def __init__(self, name, params, outs, spec, pre=None, special=None, line=None, parse=None):
        self.name, self.params, self.outs, self.spec, self.pre = name, params, outs, spec, pre
        self.special = special or []
        self._line, self._parse = line, parse

    def vars(self):
        return {p.name: p.var() for p in self.params}

    def precond(self, v):
        return [c for c in (self.pre(v) if self.pre else []) if c is not t.TRUE]

    def line(self, vals):
        if self._line:
            return self._line(vals)
        return " ".join([self.name] + [fmt(vals[p.name], p.w) for p in self.params])

    def parse(self, s):
        if self._parse:
            return self._parse(s)
        return [int(x, 16) for x in s.split()]

    excs = False     # whether "!exception" results are parsed by the operation itself

    def parse_out(self, s):
        try:
            return self.parse(s) if self.excs or not s.startswith("!") else None
        except (ValueError, IndexError):
            return None

    def expected(self, vals):
        v = self.vars()
        sp = self.spec(v)
        terms = [sp[o] for o in self.outs]
        return t.evaluate(terms, vals)

    def ok_pre(self, vals):
        for p in self.params:
            if not p.lo <= vals[p.name] <= p.hi:
                return False
        cs = self.precond(self.vars())
        return all(x == 1 for x in t.evaluate(cs, vals)) if cs else True

    def samples(self, rnd, n):
        """boundary and random inputs for validating the encoding"""
        res = []
        i = 0
        while len(res) < n and i < 20 * n:
            i += 1
            vals = {}
            for p in self.params:
                vals[p.name] = sample(rnd, p)
            for k in self.special:
                if i % 3 == 0:
                    vals.update(k(rnd, vals))
            if self.ok_pre(vals):
                res.append(vals)
        return res


INTERESTING = [0, 1, 2, P, P - 1, P + 1, N, N - 1, N + 1, M256, M256 - 1, 1 << 255, (1 << 255) - 1, (1 << 128) - 1, 1 << 128, (1 << 32) - 1, 1 << 32, (1 << 64) - 1, 1 << 64, P - 2, (P - 1) // 2, (P + 1) // 2, N // 2, N // 2 + 1, M256 - P, M256 - P + 1, M256 ^ ((1 << 128) - 1), 977 + (1 << 32)]


def sample(rnd, p):
    if p.w == 256:
        k = rnd.randrange(6)
        if k == 0:
            v = rnd.choice(INTERESTING)
        elif k == 1:
            v = 0
            for i in range(8):
                v |= rnd.choice([0, 0xFFFFFFFF, 1, 0x80000000, 0x7FFFFFFF, rnd.getrandbits(32)]) << (32 * i)
        elif k == 2:
            v = (rnd.choice(INTERESTING) + rnd.choice([-2, -1, 1, 2, 1 << 32, -(1 << 32)])) & M256
        elif k == 3:
            v = rnd.getrandbits(rnd.randrange(1, 257))
        else:
            v = rnd.getrandbits(256)
    elif p.hi - p.lo < 4:
        v = rnd.randint(p.lo, p.hi)
    else:
        k = rnd.randrange(4)
        if k == 0:
            v = rnd.choice([p.lo, p.hi, p.lo + 1, p.hi - 1, (p.lo + p.hi) // 2])
        else:
            v = rnd.randint(p.lo, p.hi)
    if v < p.lo or v > p.hi:
        v = p.lo + v % (p.hi - p.lo + 1)
    return v


class Counterexample(Exception):
    pass


def replay(ctx, rep, op, lang, vals, what, line=None):
    """Runs the real code on vals; records a violation if it deviates from the specification."""
    exp = op.expected(vals)
    ln = (line or op.line)(vals)
    got = ctx.native(lang, [ln])[0]
    if got == "?":
        raise Unsupported("the replay driver does not know this operation")
    g = op.parse_out(got)
    if g != exp:
        rep.violated(what, lang, ln, " ".join(fmt(e, 256 if e > 1 << 64 else 64) for e in exp), got)
        return True
    return False


def validate(ctx, rep, op, lang, paths=None, n=24, mach=None, extra=()):
    """Concrete inputs through the real code, the specification and (when paths are given) the encoding."""
    rnd = random.Random(ctx.seed * 7919 + hash(op.name) % 1000003 if False else "%s/%s/%s" % (ctx.seed, op.name, lang))
    samples = list(extra) + op.samples(rnd, n)
    lines = [op.line(s) for s in samples]
    got = ctx.native(lang, lines)
    if "?" in got:
        raise Unsupported("the replay driver does not know this operation")
    bad = False
    for s, ln, g in zip(samples, lines, got):
        exp = op.expected(s)
        gv = op.parse_out(g)
        if gv != exp:
            rep.violated("%s deviates from its specification (validation input)" % op.name, lang, ln, " ".join(fmt(e, 256 if e > 1 << 64 else 64) for e in exp), g)
            return False
        rep.validated += 1
        if paths is not None:
            hit = 0
            for pc, outs in paths:
                r = t.evaluate(list(pc) + list(outs), s)
                if all(x == 1 for x in r[:len(pc)]):
                    hit += 1
                    if r[len(pc):] != exp:
                        bad = True
                        rep.notes.append("encoding of %s disagrees with the real code on %s" % (op.name, ln))
            if hit:
                rep.witness += 1
            else:
                bad = True
                rep.notes.append("no encoded path of %s for %s" % (op.name, ln))
        if bad:
            break
    if bad:
        rep.claim(op.name + "/encoding", "undecided", 0, "encoding disagrees with the real code")
        return False
    return True


def solve_obligations(ctx, rep, mach, pre, name, on_cex=None, timeout=30, jobs=4, skip=()):
    """Safety conditions collected during symbolic execution. on_cex(env, obligation) -> True if confirmed."""
    obs = [o for o in mach.obligations if o.kind not in skip]
    mach.obligations = []
    seen = {}
    for o in obs:
        key = (o.pc, o.cond)
        if key not in seen:
            seen[key] = o
    obs = list(seen.values())
    total = sum(mach.obkinds.values())
    if not obs:
        rep.claim("%s: %d safety conditions (structural)" % (name, total), "proved")
        return True
    groups = [obs[i:i + 40] for i in range(0, len(obs), 40)]
    qs = [Q("safety", list(pre) + [t.disj([t.conj(list(o.pc) + [t.bnot(o.cond)]) for o in g])], timeout) for g in groups]
    solver.solve_many(qs, jobs=jobs)
    ok = True
    for q, g in zip(qs, groups):
        if q.result == "unsat":
            continue
        q1 = [Q("safety1", list(pre) + list(o.pc) + [t.bnot(o.cond)], timeout, meta=o) for o in g]
        solver.solve_many(q1, jobs=jobs)
        for x in q1:
            if x.result == "unsat":
                continue
            ok = False
            o = x.meta
            if x.result == "sat" and on_cex is not None and on_cex(x.env, o):
                return False
            rep.claim("%s: %s in %s" % (name, o.kind, o.where), "undecided", x.secs, x.result if x.result != "sat" else "counterexample not reproduced on the real code")
    if ok:
        rep.claim("%s: %d safety conditions (%d by solver)" % (name, total, len(obs)), "proved", sum(q.secs for q in qs))
    return ok


def fill(op, env):
    """a full assignment of the parameters from a solver model (unconstrained ones take their lower bound)"""
    return {p.name: env.get(p.name, p.lo) for p in op.params}


def coverage(label, pre, paths, timeout):
    """the encoded paths cover every permitted input"""
    return Q("%s: paths are exhaustive" % label, list(pre) + [t.bnot(t.disj([t.conj(list(p[0])) for p in paths]))], timeout)


def check_paths(ctx, rep, op, lang, paths, mach=None, timeout=40, tactics=("default",), jobs=4, what=None, pre_extra=(), prep=None):
    """paths: list of (pc, [output terms]). Proves outputs == spec on every path."""
    v = op.vars()
    pre = op.precond(v) + list(pre_extra)
    sp = op.spec(v)
    exp = [sp[o] for o in op.outs]
    label = "%s/%s" % (op.name, lang)
    if prep:      # an equivalence-preserving rewriting of the terms of every query
        flat = prep(list(pre) + list(exp) + [x for pc, outs in paths for x in list(pc) + list(outs)])
        it = iter(flat)
        pre, exp = [next(it) for _ in pre], [next(it) for _ in exp]
        paths = [([next(it) for _ in pc], [next(it) for _ in outs]) for pc, outs in paths]
    qs = []
    for i, (pc, outs) in enumerate(paths):
        for o, a, b in zip(op.outs, outs, exp):
            g = t.eq(a, b)
            qs.append(Q("%s.%s#%d" % (label, o, i), pre + list(pc) + [t.bnot(g)], timeout, tactics))
    qs.append(coverage(label, pre, paths, timeout))
    solver.solve_many(qs, jobs=jobs)
    ok = True
    for q in qs:
        if q.result == "unsat":
            rep.claim(q.name, "proved", q.secs)
            continue
        ok = False
        if q.result == "sat":
            vals = fill(op, q.env)
            if replay(ctx, rep, op, lang, vals, what or "%s deviates from its specification" % op.name):
                return False
            rep.claim(q.name, "undecided", q.secs, "counterexample not reproduced on the real code: " + op.line(vals))
        else:
            rep.claim(q.name, "undecided", q.secs, "solver: unknown")
    if mach is not None:
        def on_cex(env, o):
            return replay(ctx, rep, op, lang, fill(op, env), "%s: %s in %s" % (op.name, o.kind, o.where))
        if not solve_obligations(ctx, rep, mach, pre, label, on_cex, jobs=jobs):
            ok = False
    return ok


def check_op(ctx, rep, op, lang, run, timeout=40, tactics=("default",), nval=24, jobs=4, prep=None):
    """run(v) -> (machine, [(pc, outs)])"""
    v = op.vars()
    try:
        mach, paths = run(v)
    except Unsupported as e:
        rep.notes.append("%s/%s not encoded: %s" % (op.name, lang, e))
        rep.claim("%s/%s" % (op.name, lang), "undecided", 0, "not encoded: %s" % e)
        validate(ctx, rep, op, lang, None, n=400)
        return False
    rep.use(mach)
    if not paths:
        rep.notes.append("no return path")
    if not validate(ctx, rep, op, lang, paths, n=nval):
        if rep.violations:
            return False
    return check_paths(ctx, rep, op, lang, paths, mach, timeout, tactics, jobs, prep=prep)
