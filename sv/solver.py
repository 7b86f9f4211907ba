"""SMT back end: translation of terms to z3 and query execution (in process or in forked workers)."""
import os, pickle, select, signal, sys, time
import z3
from . import term as t
from .term import T

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "structural": 0, "solver_s": 0.0, "feasibility": 0}


class Tr:
    """Translates terms to z3; width-1 terms become Bools."""

    def __init__(self, ctx=None):
        self.ctx = ctx
        self.cache = {}
        self.side = []   # range assumptions of variables
        self.vars = {}
        self.ufs = {}

    def bv(self, x):
        """x as a bit-vector expression"""
        z = self.cache[x]
        if x.w == 1:
            return z3.If(z, z3.BitVecVal(1, 1, self.ctx), z3.BitVecVal(0, 1, self.ctx))
        return z

    def tr(self, root):
        for x in t.postorder([root], set(self.cache)):
            self.cache[x] = self.one(x)
        return self.cache[root]

    def one(self, x):
        op, w, a = x.op, x.w, x.args
        c = self.cache
        if op == "const":
            return z3.BoolVal(bool(a[0]), self.ctx) if w == 1 else z3.BitVecVal(a[0], w, self.ctx)
        if op == "var":
            if w == 1:
                v = z3.Bool(a[0], self.ctx)
            else:
                v = z3.BitVec(a[0], w, self.ctx)
                if x.lo > 0:
                    self.side.append(z3.UGE(v, x.lo))
                if x.hi < (1 << w) - 1:
                    self.side.append(z3.ULE(v, x.hi))
            self.vars[a[0]] = v
            return v
        if op == "uf":
            name = a[0]
            f = z3.Function("%s/%s" % (name, ",".join(str(k.w) for k in a[1:])),
                            *([z3.BitVecSort(k.w, self.ctx) for k in a[1:]] + [z3.BitVecSort(w, self.ctx)]))
            r = f(*[self.bv(k) for k in a[1:]])
            self.ufs[x] = r
            if x.lo > 0:
                self.side.append(z3.UGE(r, x.lo))
            if x.hi < (1 << w) - 1:
                self.side.append(z3.ULE(r, x.hi))
            return r == 1 if w == 1 else r
        if w == 1:
            if op == "and":
                return z3.And(*[c[k] for k in a])
            if op == "or":
                return z3.Or(*[c[k] for k in a])
            if op == "xor":
                r = c[a[0]]
                for k in a[1:]:
                    r = z3.Xor(r, c[k])
                return r
            if op == "not":
                return z3.Not(c[a[0]])
            if op == "ite":
                return z3.If(c[a[0]], c[a[1]], c[a[2]])
            if op == "eq":
                return c[a[0]] == c[a[1]]
            if op == "ult":
                return z3.ULT(c[a[0]], c[a[1]])
            if op == "slt":
                return c[a[0]] < c[a[1]]
            if op == "extract":
                return z3.Extract(a[1], a[1], c[a[0]]) == 1
            if op == "mul":
                return z3.And(c[a[0]], c[a[1]])
            raise Exception("bool op " + op)
        if op == "concat":
            ps = [self.bv(k) for k in a[::-1]]
            return z3.Concat(*ps)
        if op == "extract":
            return z3.Extract(a[1] + w - 1, a[1], c[a[0]])
        if op == "add":
            r = None
            m = (1 << w) - 1
            pos = []
            negs = []
            for k, y in a[1]:
                if k <= m >> 1:
                    pos.append((k, c[y]))
                else:
                    negs.append((m + 1 - k, c[y]))
            for k, y in pos:
                e = y if k == 1 else y * z3.BitVecVal(k, w, self.ctx)
                r = e if r is None else r + e
            if a[0] or r is None:
                e = z3.BitVecVal(a[0], w, self.ctx)
                r = e if r is None else r + e
            for k, y in negs:
                e = y if k == 1 else y * z3.BitVecVal(k, w, self.ctx)
                r = r - e
            return r
        if op == "and":
            r = c[a[0]]
            for k in a[1:]:
                r = r & c[k]
            return r
        if op == "or":
            r = c[a[0]]
            for k in a[1:]:
                r = r | c[k]
            return r
        if op == "xor":
            r = c[a[0]]
            for k in a[1:]:
                r = r ^ c[k]
            return r
        if op == "not":
            return ~c[a[0]]
        if op == "ite":
            return z3.If(c[a[0]], c[a[1]], c[a[2]])
        if op == "sext":
            return z3.SignExt(w - a[0].w, self.bv(a[0]))
        if op == "mul":
            return c[a[0]] * c[a[1]]
        if op == "udiv":
            return z3.UDiv(c[a[0]], c[a[1]])
        if op == "urem":
            return z3.URem(c[a[0]], c[a[1]])
        if op == "shl":
            return c[a[0]] << c[a[1]]
        if op == "lshr":
            return z3.LShR(c[a[0]], c[a[1]])
        if op == "ashr":
            return c[a[0]] >> c[a[1]]
        raise Exception("z3 op " + op)


def _model_env(m, tr):
    env = {}
    for name, v in tr.vars.items():
        val = m.eval(v, model_completion=True)
        env[name] = int(z3.is_true(val)) if z3.is_bool(val) else val.as_long()
    uf = {}
    for x, e in tr.ufs.items():
        val = m.eval(e, model_completion=True)
        args = tuple(m.eval(tr.bv(k), model_completion=True).as_long() for k in x.args[1:])
        uf[(x.args[0], args)] = val.as_long()
    return env, uf


def _solve_z3(conds, timeout, tactic=None):
    tr = Tr()
    s = z3.Solver() if tactic is None else z3.Then(*tactic).solver()
    s.set("timeout", max(1, int(timeout * 1000)))
    for c in conds:
        s.add(tr.tr(c))
    for c in tr.side:
        s.add(c)
    r = s.check()
    if r == z3.unsat:
        return ("unsat", None, None)
    if r == z3.sat:
        env, uf = _model_env(s.model(), tr)
        return ("sat", env, uf)
    return ("unknown", None, None)


def smt2(conds):
    tr = Tr()
    s = z3.Solver()
    for c in conds:
        s.add(tr.tr(c))
    for c in tr.side:
        s.add(c)
    return s.to_smt2()


TACTICS = {
    "default": None,
    "bb": ("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "max-bv-sharing", "ackermannize_bv", "bit-blast", "sat"),
    "qfufbv": ("qfufbv",),
}


class Q:
    """A query: is there an assignment satisfying all conds?"""
    __slots__ = ("name", "conds", "timeout", "tactics", "result", "env", "uf", "secs", "meta")

    def __init__(self, name, conds, timeout=20, tactics=("default",), meta=None):
        self.name = name
        self.conds = list(conds)
        self.timeout = timeout
        self.tactics = tactics
        self.result = None
        self.env = None
        self.uf = None
        self.secs = 0.0
        self.meta = meta


def _trivial(q):
    if any(c is t.FALSE for c in q.conds):
        q.result = "unsat"
        STATS["structural"] += 1
        return True
    if all(c is t.TRUE for c in q.conds):
        q.result, q.env, q.uf = "sat", {}, {}
        STATS["structural"] += 1
        return True
    return False


def _child(q, tac, wfd):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        r = _solve_z3(q.conds, q.timeout, TACTICS[tac])
    except BaseException as e:  # noqa
        r = ("unknown", repr(e), None)
    data = pickle.dumps(r)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def solve_many(queries, jobs=8, stop_on_sat=False, deadline=None):
    """Runs the queries in forked workers; each query may race several tactics. Fills q.result/env."""
    sys.stdout.flush()
    sys.stderr.flush()
    pending = []
    for q in queries:
        if q.result is None and not _trivial(q):
            for tac in q.tactics:
                pending.append((q, tac))
    pending.reverse()
    running = {}   # fd -> (pid, q, tac, start, buf)
    left = {}
    for q, _ in pending:
        left[q] = left.get(q, 0) + 1
    found = False

    def reap(fd, kill=False):
        pid, q, tac, st, buf = running.pop(fd)
        if kill:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(fd)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        STATS["solver_s"] += time.time() - st
        return q, buf, time.time() - st

    def settle(q, res, secs):
        q.result, q.env, q.uf = res
        if q.result == "unknown":
            q.env = None
        q.secs = secs
        STATS["queries"] += 1
        STATS[q.result] += 1

    while pending or running:
        if deadline is not None and time.time() > deadline:
            for fd in list(running):
                q, _, secs = reap(fd, True)
                if q.result is None:
                    settle(q, ("unknown", None, None), secs)
            for q, _ in pending:
                if q.result is None:
                    settle(q, ("unknown", None, None), 0)
            break
        while pending and len(running) < jobs:
            q, tac = pending.pop()
            if q.result is not None:
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in running:
                    os.close(fd)
                _child(q, tac, w)
            os.close(w)
            running[r] = (pid, q, tac, time.time(), bytearray())
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for fd in list(running):
            if fd not in running:
                continue
            pid, q, tac, st, buf = running[fd]
            done = False
            res = None
            if fd in rd:
                chunk = os.read(fd, 1 << 16)
                if chunk:
                    buf.extend(chunk)
                    continue
                done = True
                try:
                    res = pickle.loads(bytes(buf))
                except Exception:
                    res = ("unknown", None, None)
            elif now - st > q.timeout * 1.5 + 5:
                done = True
                res = ("unknown", None, None)
            if done:
                _, _, secs = reap(fd, kill=True)
                left[q] -= 1
                if q.result is None and (res[0] != "unknown" or left[q] == 0):
                    settle(q, res, secs)
                    if res[0] != "unknown":
                        for fd2 in [f for f, v in running.items() if v[1] is q]:
                            reap(fd2, True)
                    if res[0] == "sat" and stop_on_sat:
                        found = True
        if found:
            for fd in list(running):
                reap(fd, True)
            pending.clear()
    return queries


class Witnesses:
    """Concrete assignments that settle satisfiability questions positively without a solver."""

    def __init__(self, envs, ufs=None):
        self.envs, self.ufs = envs, ufs
        self.caches = [{} for _ in envs]
        self.masks = {}
        self.all = (1 << len(envs)) - 1

    def mask(self, cond):
        """bit i: assignment i satisfies cond"""
        m = self.masks.get(cond)
        if m is None:
            m = 0
            order = None
            for i, (env, cache) in enumerate(zip(self.envs, self.caches)):
                if cond not in cache:
                    if order is None:
                        order = []
                        stack = [(cond, False)]
                        seen = set()
                        while stack:
                            x, done = stack.pop()
                            if done:
                                order.append(x)
                            elif x not in seen and x not in cache:
                                seen.add(x)
                                stack.append((x, True))
                                for k in t.kids(x):
                                    if k not in seen and k not in cache:
                                        stack.append((k, False))
                    get = cache.__getitem__
                    for x in order:
                        if x.op == "var":
                            cache[x] = env.get(x.args[0], x.args[1]) & ((1 << x.w) - 1)
                        else:
                            cache[x] = t.ev1(x, get, self.ufs)
                if cache[cond]:
                    m |= 1 << i
            self.masks[cond] = m
        return m

    def sat(self, pc, cond):
        m = self.mask(cond)
        for p in pc:
            if not m:
                return False
            m &= self.mask(p)
        return m != 0


class Inc:
    """In-process solver for many small feasibility questions under a growing set of facts."""

    def __init__(self, timeout=2.0):
        self.tr = Tr()
        self.s = z3.Solver()
        self.s.set("timeout", int(timeout * 1000))
        self.nside = 0
        self.cache = {}
        self.wit = None

    def check_slice(self, pc, cond):
        """feasibility of cond under pc, itself taken to be satisfiable: only the conditions connected to cond
        by shared unknowns matter"""
        if self.wit is not None and self.wit.sat(pc, cond):
            STATS["witnessed"] = STATS.get("witnessed", 0) + 1
            return "sat"
        m = t.support(cond)
        rest = [(x, t.support(x)) for x in pc]
        keep = []
        while True:
            nxt = []
            for x, k in rest:
                if k & m:
                    keep.append(x)
                else:
                    nxt.append((x, k))
            if len(nxt) == len(rest):
                break
            for x in keep:
                m |= t.support(x)
            rest = nxt
        return self.check(tuple(keep) + (cond,))

    def check(self, conds):
        conds = [c for c in conds if c is not t.TRUE]
        if any(c is t.FALSE for c in conds):
            return "unsat"
        if not conds:
            return "sat"
        key = frozenset(conds)
        r = self.cache.get(key)
        if r is not None:
            return r
        zs = [self.tr.tr(c) for c in conds]
        while self.nside < len(self.tr.side):
            self.s.add(self.tr.side[self.nside])
            self.nside += 1
        t0 = time.time()
        self.s.push()
        for z in zs:
            self.s.add(z)
        r = str(self.s.check())
        self.s.pop()
        STATS["solver_s"] += time.time() - t0
        STATS["feasibility"] += 1
        self.cache[key] = r
        return r
