"""Equality of two large word-level circuits by sweeping: nodes of the implementation that agree with a node of the
specification on random inputs are proved equal to it by small solver queries cut at already matched nodes, bottom up,
until the outputs coincide. Random inputs only propose the pairs; equality always rests on the solver."""
import hashlib, random, time
import z3
from . import term as t, solver

LEMMAS = {}         # (implementation cone, specification cone) -> bool
STAT = dict(lemmas=0, reused=0, secs=0.0)


def ufs(seed):
    def f(name, vals, w, node):
        h = hashlib.shake_128(repr((seed, name, vals, w)).encode()).digest((w + 7) // 8)
        v = int.from_bytes(h, "little") & ((1 << w) - 1)
        return v if node.lo <= v <= node.hi else node.lo + v % (node.hi - node.lo + 1)
    return f


def random_env(rnd, vs):
    return {v.args[0]: rnd.randint(v.lo, v.hi) for v in vs}


def rebuild(x, m):
    """x with its kids replaced by m"""
    ks = t.kids(x)
    if all(m[k] is k for k in ks):
        return x
    op = x.op
    if op == "concat":
        return t.concat_lsb([m[k] for k in ks])
    if op == "extract":
        return t.extract(m[x.args[0]], x.args[1] + x.w - 1, x.args[1])
    if op == "add":
        return t.linear(x.args[0], [(c, m[k]) for c, k in x.args[1]], x.w)
    if op == "sext":
        return t.sext(m[x.args[0]], x.w)
    if op == "uf":
        return t._mk("uf", x.w, (x.args[0],) + tuple(m[k] for k in ks), x.lo, x.hi)
    return t._rebuild[op](*[m[k] for k in ks])


def _cone(root, stop, depth):
    """leaves (in order of first visit) and size of the cone of root cut at `stop`, the latter expanded `depth` levels"""
    leaves, seen, n = [], {}, 0
    stack = [(root, depth, True)]
    while stack:
        x, d, top = stack.pop()
        if seen.get(x, -1) >= d:
            continue
        first = x not in seen
        seen[x] = d
        if x.op == "const":
            continue
        ks = t.kids(x)
        cut = not top and stop(x)
        if not ks or (cut and d <= 0):
            if first:
                leaves.append(x)
            continue
        n += 1
        if n > 3000:
            return None, n
        for k in ks:
            stack.append((k, d - 1 if cut else d, False))
    # a leaf reached again with a larger budget was expanded: drop it
    return [x for x in leaves if not t.kids(x) or seen[x] <= 0], n


def prove(n, s, inS, timeout=3.0):
    if n is s:
        return True
    for e, d in ((0, 3), (0, 6), (1, 8), (2, 12), (4, 30)):
        ln, size = _cone(n, inS, e)
        if ln is None:
            break
        lset = set(ln)
        sdepth = {}
        # specification side: stop at the implementation's leaves, else at depth d
        leaves, seen = [], {}
        stack = [(s, d)]
        while stack:
            x, k = stack.pop()
            if x in seen and seen[x] >= k:
                continue
            seen[x] = k
            if x.op == "const" or x in lset or t.bnot(x) in lset:
                continue
            if k > 0:
                for y in t.kids(x):
                    stack.append((y, k - 1))
        cut = set(lset)
        cut.update(x for x in seen if t.bnot(x) in lset)
        for x, k in seen.items():
            if k <= 0 and x.op != "const":
                cut.add(x)
        if s in cut or n in cut:
            continue
        # canonical numbering: by first visit from n, then from s
        num, names = {}, {}

        def visit(root):
            st = [root]
            vis = set()
            while st:
                x = st.pop()
                if x in vis:
                    continue
                vis.add(x)
                if x in cut or not t.kids(x):
                    if x.op != "const" and x not in num:
                        nx = t.bnot(x)
                        num[x] = t.bnot(num[nx]) if nx in num else t.var("cut!%d:%d" % (len(num), x.w), x.w)
                    continue
                st.extend(reversed(t.kids(x)))
            return len(vis)
        if visit(n) + visit(s) > 4000:
            break
        a, b = t.substitute([n, s], num)
        key = (a.id, b.id)
        r = LEMMAS.get(key)
        if r is None:
            t0 = time.time()
            if a is b:
                r = True
                solver.STATS["structural"] += 1
            else:
                res, env, _ = solver._solve_z3([t.ne(a, b)], timeout)
                r = res == "unsat"
                solver.STATS["queries"] += 1
                solver.STATS[res if res in ("sat", "unsat") else "unknown"] += 1
            STAT["lemmas"] += 1
            STAT["secs"] += time.time() - t0
            solver.STATS["solver_s"] += time.time() - t0
            LEMMAS[key] = r
        else:
            STAT["reused"] += 1
        if r:
            return True
    return False


class Sweep:
    """equal(pairs): 'proved', ('differ', env, k) or ('open', k)"""

    def __init__(self, seed=1, nsig=3, special=()):
        self.rnd = random.Random(seed)
        self.nsig = nsig
        self.special = list(special)

    def equal(self, pairs, pre=(), deadline=None):
        impl = [a for a, _ in pairs]
        spec = [b for _, b in pairs]
        if all(a is b for a, b in pairs):
            solver.STATS["structural"] += 1
            return ("proved",)
        nodes = t.postorder(impl + spec)
        vs = [x for x in nodes if x.op == "var"]
        sigs = {}
        tries = 0
        done = 0
        while done < self.nsig and tries < 60:
            tries += 1
            env = random_env(self.rnd, vs)
            if tries <= len(self.special):
                env.update(self.special[tries - 1])
            cache = {}
            t.evaluate(impl + spec + list(pre), env, ufs(tries), cache)
            if not all(cache[p] for p in pre):
                continue
            done += 1
            for k, (a, b) in enumerate(pairs):
                if cache[a] != cache[b]:
                    return ("differ", env, k)
            for x in nodes:
                sigs[x] = sigs.get(x, ()) + (cache[x],)
        snodes = t.postorder(spec)
        S = set(snodes)
        bysig = {}
        for x in snodes:
            if t.kids(x):
                bysig.setdefault((x.w,) + sigs[x], x)
        inS = S.__contains__
        m = {}
        for x in t.postorder(impl):
            if deadline and time.time() > deadline:
                return ("open", "time")
            if x in S:
                m[x] = x
                continue
            y = rebuild(x, m)
            if y not in S and x.w >= 8 and t.kids(y):
                c = bysig.get((x.w,) + sigs[x])
                if c is not None and prove(y, c, inS):
                    y = c
            m[x] = y
        bad = [k for k, (a, b) in enumerate(pairs) if m[a] is not b]
        for k in bad:
            if not prove(m[pairs[k][0]], pairs[k][1], inS, 20.0):
                return ("open", k)
        return ("proved",)
