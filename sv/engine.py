"""Language-independent symbolic execution core: states, forking, merging at control-flow joins."""
import heapq
import itertools
from . import term as t
from .term import T
from .solver import Inc


class Unsupported(Exception):
    """The code uses something the encoder does not model: no verdict from this encoding."""


class Ptr:
    __slots__ = ("oid", "off", "isnull")

    def __init__(self, oid, off, isnull=t.FALSE):
        self.oid = oid
        self.off = off
        self.isnull = isnull   # condition under which this is the null pointer

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.oid == self.oid and o.off is self.off and o.isnull is self.isnull

    def __hash__(self):
        return hash((self.oid, self.off, self.isnull))

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.oid, self.off)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PtrIte) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class NoMerge(Exception):
    pass


def merge_values(c, a, b):
    """value equal to a if c else b"""
    if a is b or (not isinstance(a, T) and a == b):
        return a
    if isinstance(a, T) and isinstance(b, T) and a.w == b.w:
        return t.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid:
        return Ptr(a.oid, t.ite(c, a.off, b.off), t.ite(c, a.isnull, b.isnull))
    if isinstance(a, (Ptr, PtrIte)) and isinstance(b, (Ptr, PtrIte)):
        return PtrIte(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    if a is None or b is None:
        if getattr(b if a is None else a, "is_exception", False):
            raise NoMerge()
        return a if b is None else b      # dead or undefined on one side
    m = getattr(a, "merge_with", None)
    if m is not None:
        return m(c, b)
    raise NoMerge()


def peel(st, x):
    """x with outer choices resolved that the path condition decides"""
    while x.op == "ite":
        k = x.args[0]
        if k in st.pc:
            x = x.args[1]
        elif t.bnot(k) in st.pc:
            x = x.args[2]
        else:
            break
    return x


def narrow(st, v):
    """v (part of a term x) with the leading bits written as zero that the path condition (x < constant) makes zero"""
    x, l = (v.args[0], v.args[1]) if v.op == "extract" else (v, 0)
    hi = x.hi
    for p in st.pc:
        if p.op == "ult" and p.args[0] is x and p.args[1].op == "const":
            hi = min(hi, p.args[1].args[0] - 1)
        elif p.op == "slt" and p.args[0] is x and p.args[1].op == "const" and t.bnot(t.extract(x, x.w - 1, x.w - 1)) in st.pc and 0 < p.args[1].args[0] < 1 << (x.w - 1):
            hi = min(hi, p.args[1].args[0] - 1)
        elif p.op == "eq" and p.args[1].op == "const" and p.args[1].args[0] == 0 and p.args[0].op == "extract":
            y = p.args[0]
            if y.args[0] is x and y.args[1] + y.w == x.w:
                hi = min(hi, (1 << y.args[1]) - 1)
    k = hi.bit_length() - l
    if hi == x.hi or k >= v.w:
        return v
    return t.zext(t.extract(v, k - 1, 0), v.w) if k > 0 else t.const(0, v.w)


class State:
    __slots__ = ("pc", "mem", "owned", "facts", "data")

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.owned = set()
        self.data = {}

    def fork(self):
        s = State()
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.data = dict(self.data)
        return s

    def assume(self, c):
        if c is t.TRUE or c in self.pc:
            return
        self.pc = self.pc + (c,)

    def obj(self, oid):
        return self.mem[oid]

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.owned:
            o = o.copy()
            self.mem[oid] = o
            self.owned.add(oid)
        return o


def merge_states(a, b):
    """Returns (merged state, condition selecting a)."""
    n = 0
    for x, y in zip(a.pc, b.pc):
        if x is not y:
            break
        n += 1
    ra, rb = a.pc[n:], b.pc[n:]
    ca, cb = t.conj(ra), t.conj(rb)
    s = State()
    s.pc = a.pc[:n]
    d = t.bor(ca, cb)
    if d is not t.TRUE:
        # common facts in the suffixes
        sb = set(rb)
        common = tuple(x for x in ra if x in sb)
        s.pc = s.pc + common
        if common:
            ca2 = t.conj([x for x in ra if x not in common])
            cb2 = t.conj([x for x in rb if x not in common])
            d = t.bor(ca2, cb2)
            ca = ca2
        if d is not t.TRUE:
            s.pc = s.pc + (d,)
    for oid in a.mem.keys() & b.mem.keys():
        oa, ob = a.mem[oid], b.mem[oid]
        if oa is ob:
            s.mem[oid] = oa
        else:
            s.mem[oid] = oa.merge(ca, ob)
    for oid in a.mem.keys() ^ b.mem.keys():
        s.mem[oid] = a.mem[oid] if oid in a.mem else b.mem[oid]
    for k in a.data.keys() | b.data.keys():
        va, vb = a.data.get(k), b.data.get(k)
        s.data[k] = va if va is vb else merge_values(ca, va, vb)
    return s, ca


class Obligation:
    __slots__ = ("pc", "cond", "kind", "where")

    def __init__(self, pc, cond, kind, where):
        self.pc, self.cond, self.kind, self.where = pc, cond, kind, where


class Machine:
    """Front-end independent scheduler. A front end supplies functions with
    .entry, .key(block, iters) ordering, .livein[block], .sensitive, and exec_block()."""

    def __init__(self, feasibility=True, max_states=48, check_timeout=1.0):
        self.obligations = []
        self.aborts = []          # (pc, message): paths that end in a failed assertion / exception
        self.feas = Inc(check_timeout) if feasibility else None
        self.max_states = max_states
        self.steps = 0
        self.forks = 0
        self.merges = 0
        self.oids = itertools.count(1)
        self.lazy_asserts = True
        self.step_limit = 6000000
        self.functions_used = set()
        self.obkinds = {}
        self.deadline = None
        self.on_header = None     # called at every visit of a loop header

    # -- obligations
    def oblige(self, st, cond, kind, where):
        self.obkinds[kind] = self.obkinds.get(kind, 0) + 1
        if cond is t.TRUE:
            return
        self.obligations.append(Obligation(st.pc, cond, kind, where))

    def feasible(self, pc, c):
        if c is t.FALSE or t.bnot(c) in pc:
            return False
        if c is t.TRUE or c in pc:
            return True
        if self.feas is None:
            return True
        return self.feas.check_slice(pc, c) != "unsat"

    def branch(self, st, c, lazy_true=False, lazy_false=False):
        """Splits st on condition c: list of (bool, state). lazy sides are not checked for feasibility."""
        if c.op == "const":
            return [(bool(c.args[0]), st)]
        n = t.bnot(c)
        if c in st.pc:
            return [(True, st)]
        if n in st.pc:
            return [(False, st)]
        ft = True if lazy_true else self.feasible(st.pc, c)
        if not ft:
            st.assume(n)
            return [(False, st)]
        ff = True if lazy_false else self.feasible(st.pc, n)
        if not ff:
            st.assume(c)
            return [(True, st)]
        self.forks += 1
        s2 = st.fork()
        st.assume(c)
        s2.assume(n)
        return [(True, st), (False, s2)]

    # -- running one function activation
    def run_activation(self, fn, regs, st):
        """Returns list of (state, return value)."""
        counter = itertools.count()
        heap = []
        bykey = {}
        rets = []

        def push(block, iters, regs, st):
            key = fn.key(block, iters)
            b = bykey.get(key)
            if b is None:
                bykey[key] = [(block, iters, regs, st)]
                heapq.heappush(heap, key)
            else:
                b.append((block, iters, regs, st))

        push(fn.entry, {}, regs, st)
        while heap:
            key = heapq.heappop(heap)
            items = bykey.pop(key)
            if len(items) > 1:
                items = self.merge_items(fn, items)
            for block, iters, regs, st in items:
                if self.on_header is not None and block in fn.cfg.loops:
                    self.on_header(fn, block, iters, regs, st)
                for out in self.exec_block(fn, block, regs, st):
                    if out[0] == "br":
                        _, nb, regs2, st2 = out
                        it2 = fn.next_iters(block, nb, iters)
                        push(nb, it2, regs2, st2)
                    elif out[0] == "ret":
                        rets.append((out[1], out[2]))
                    else:
                        raise Unsupported(out[0])
        return self.merge_returns(fn, rets)

    def merge_items(self, fn, items):
        groups = []
        force = len(items) > self.max_states
        for it in items:
            placed = False
            for i, g in enumerate(groups):
                m = self.try_merge_items(fn, g, it, force)
                if m is not None:
                    groups[i] = m
                    placed = True
                    self.merges += 1
                    break
            if not placed:
                groups.append(it)
        return groups

    def try_merge_items(self, fn, x, y, force):
        block = x[0]
        live = fn.livein(block)
        rx, ry = x[2], y[2]
        sens = fn.sensitive
        if isinstance(sens, dict):
            sens = sens[block]
        for r in live:
            a, b = rx.get(r), ry.get(r)
            if a is b:
                continue
            if isinstance(a, T) and isinstance(b, T):
                if a.w != b.w:
                    return None
                if not force and a.op == "const" and b.op == "const" and r in sens:
                    return None
        try:
            st, c = merge_states(x[3], y[3])
            regs = {}
            for r in live:
                a, b = rx.get(r), ry.get(r)
                if a is None and b is None:
                    continue
                regs[r] = merge_values(c, a, b)
        except NoMerge:
            return None
        return (block, x[1], regs, st)

    def merge_returns(self, fn, rets):
        if len(rets) <= 1:
            return rets
        force = len(rets) > self.max_states
        groups = []
        for st, v in rets:
            placed = False
            for i, (s0, v0) in enumerate(groups):
                if not force and isinstance(v, T) and isinstance(v0, T) and v.op == "const" and v0.op == "const" and v is not v0 and v.w >= 32 and not fn.retbool:
                    continue
                try:
                    s, c = merge_states(s0, st)
                    mv = None if v is None and v0 is None else merge_values(c, v0, v)
                except NoMerge:
                    continue
                groups[i] = (s, mv)
                self.merges += 1
                placed = True
                break
            if not placed:
                groups.append((st, v))
        return groups


# ---------------------------------------------------------------- control-flow helpers

class Cfg:
    """Reverse postorder and natural loops; gives the scheduling keys."""

    def __init__(self, entry, succs):
        self.entry = entry
        self.succs = succs
        order = []
        seen = {entry}
        # iterative DFS
        stack = [(entry, iter(succs[entry]))]
        onstack = {entry}
        back = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    back.add((b, s))
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(succs[s])))
                    break
            else:
                stack.pop()
                onstack.discard(b)
                order.append(b)
        self.blocks = order[::-1]
        self.back = back
        preds = {b: [] for b in self.blocks}
        for b in self.blocks:
            for s in succs[b]:
                preds[s].append(b)
        self.preds = preds
        # natural loops
        loops = {}
        for (src, hdr) in back:
            body = loops.setdefault(hdr, {hdr})
            work = [src]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(preds[x])
        self.loops = loops
        # loop-aware RPO: visit so that loop bodies are contiguous and precede the exits
        self.index = {}
        self._number()
        self.nest = {}
        for b in self.blocks:
            hs = [h for h, body in loops.items() if b in body]
            hs.sort(key=lambda h: -len(loops[h]))
            self.nest[b] = hs

    def _number(self):
        order = []
        seen = set()
        loops = self.loops

        def depth_common(b, s):
            # number of loops containing b but not s (leaving loops): visit those first in the DFS => later in RPO
            return -sum(1 for body in loops.values() if b in body and s not in body)

        entry = self.entry
        seen.add(entry)
        stack = [(entry, iter(sorted(self.succs[entry], key=lambda s: depth_common(entry, s))))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(sorted(self.succs[s], key=lambda q, s=s: depth_common(s, q)))))
                    break
            else:
                stack.pop()
                order.append(b)
        for i, b in enumerate(order[::-1]):
            self.index[b] = i

    def key(self, block, iters):
        k = []
        for h in self.nest[block]:
            k.append(self.index[h])
            k.append(iters.get(h, 0))
        k.append(self.index[block])
        return tuple(k)

    def next_iters(self, b, nb, iters):
        nest = self.nest[nb]
        res = {h: iters.get(h, 0) for h in nest if h in iters or h == nb}
        if (b, nb) in self.back:
            res[nb] = iters.get(nb, 0) + 1
        elif nb in self.loops and nb not in self.nest[b]:
            res[nb] = 0
        return res


def liveness(blocks, succs, use, define):
    """use/define: dict block -> set. Returns livein."""
    livein = {b: set(use[b]) for b in blocks}
    changed = True
    order = list(blocks)[::-1]
    while changed:
        changed = False
        for b in order:
            out = set()
            for s in succs[b]:
                out |= livein[s]
            n = use[b] | (out - define[b])
            if n != livein[b]:
                livein[b] = n
                changed = True
    return livein
