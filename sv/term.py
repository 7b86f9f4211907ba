"""Hash-consed bit-vector terms with eager, semantics-preserving simplification.

A Boolean is a term of width 1.  Every term carries an unsigned interval [lo, hi].
Shifts by constants, byte packing, masks and rotations all normalise to concat/extract,
sums are kept as linear forms with coefficients, so that differently written but equal
code usually yields identical terms; whatever does not is left to the SMT solver.
"""
import itertools

RAW = False         # keep the shape of Boolean word operations (used for circuits compared by sweeping)
_table = {}
_counter = itertools.count(1)


class T:
    __slots__ = ("op", "w", "args", "id", "lo", "hi", "__weakref__")

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)


def _mk(op, w, args, lo=0, hi=None):
    key = (op, w, args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.w = w
    t.args = args
    t.id = next(_counter)
    m = (1 << w) - 1
    t.lo = lo
    t.hi = m if hi is None or hi > m else hi
    _table[key] = t
    return t


def show(t, depth=4):
    if t.op == "const":
        return hex(t.args[0]) + ":" + str(t.w)
    if t.op == "var":
        return t.args[0]
    if depth == 0:
        return "…%d" % t.id
    if t.op == "add":
        return "(add" + "".join(" %d*%s" % (c, show(x, depth - 1)) for c, x in t.args[1]) + " +%x" % t.args[0] + ":%d)" % t.w
    return "(" + t.op + " " + " ".join(show(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args) + ":%d)" % t.w


_constcache = {}


def const(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    t = _constcache.get(k)
    if t is None:
        t = _mk("const", w, (v,), v, v)
        _constcache[k] = t
    return t


TRUE = const(1, 1)
FALSE = const(0, 1)


def boolc(b):
    return TRUE if b else FALSE


def var(name, w, lo=0, hi=None):
    """A free variable; a non-default range is an assumption that the solver is told too."""
    return _mk("var", w, (name, lo, hi if hi is not None else (1 << w) - 1), lo, hi)


_fresh = itertools.count()


def fresh(prefix, w, lo=0, hi=None):
    return var("%s!%d" % (prefix, next(_fresh)), w, lo, hi)


def uf(name, w, args, lo=0, hi=None):
    return _mk("uf", w, (name,) + tuple(args), lo, hi)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- concat / extract

def _pieces(t):
    """Pieces, least significant first."""
    if t.op == "concat":
        return t.args
    return (t,)


def concat_lsb(parts):
    """Concatenates parts, least significant first."""
    out = []
    for p in parts:
        for q in _pieces(p):
            if out:
                r = out[-1]
                if r.op == "const" and q.op == "const":
                    out[-1] = const(r.args[0] | q.args[0] << r.w, r.w + q.w)
                    continue
                # adjacent extracts of the same base
                if r.op == "extract":
                    base, rl = r.args
                    if q.op == "extract" and q.args[0] is base and q.args[1] == rl + r.w:
                        out[-1] = extract(base, rl + r.w + q.w - 1, rl)
                        continue
                    if q.op == "const" and q.args[0] == 0 and base.hi >> (rl + r.w) == 0:
                        # bits of base above r are zero: could extend, keep constants canonical
                        pass
                if r.op == "ite" and q.op == "ite" and r.args[0] is q.args[0]:
                    out[-1] = ite(r.args[0], concat_lsb([r.args[1], q.args[1]]), concat_lsb([r.args[2], q.args[2]]))
                    continue
            out.append(q)
    # splitting: the result of a merge could be itself a concat
    if any(o.op == "concat" for o in out):
        return concat_lsb(out)
    if len(out) == 1:
        return out[0]
    # single low piece with a zero high constant, low piece being an extract of a base whose remaining bits are zero
    w = 0
    lo = hi = 0
    for o in out:
        lo |= o.lo << w
        hi |= o.hi << w
        w += o.w
    # lo/hi sums are valid since pieces are disjoint
    if len(out) == 2 and out[1].op == "const" and out[1].args[0] == 0 and out[0].op == "extract":
        base, l = out[0].args
        if l == 0 and base.w == w and base.hi >> out[0].w == 0:
            return base
    return _mk("concat", w, tuple(out), lo, hi)


def concat(*parts):
    """Most significant first."""
    return concat_lsb(parts[::-1])


def zext(t, w):
    if t.w == w:
        return t
    assert w > t.w
    return concat_lsb((t, const(0, w - t.w)))


def sext(t, w):
    if t.w == w:
        return t
    if t.op == "const":
        v = t.args[0]
        if v >> (t.w - 1):
            v -= 1 << t.w
        return const(v, w)
    if t.hi >> (t.w - 1) == 0:
        return zext(t, w)
    if t.w == 1:
        return ite(t, const(-1, w), const(0, w))
    if t.op == "ite" and (t.args[1].op == "const" or t.args[2].op == "const"):
        return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    if t.op == "sext":
        return sext(t.args[0], w)
    return _mk("sext", w, (t,))


_shallow = {"const", "concat", "sext", "extract", "var", "uf"}
_exmemo = {}


def _pushable(x):
    return x.op in _shallow or (x.op == "ite" and x.args[1].op == "const" and x.args[2].op == "const")


KEEP_SUMS = False       # low bits of a sum stay what they are: remainders of the sum


def keep_sums(on):
    global KEEP_SUMS
    KEEP_SUMS = on
    _exmemo.clear()


def extract(t, h, l):
    if h - l + 1 == t.w:
        return t
    key = (t.id, h, l)
    r = _exmemo.get(key)
    if r is None:
        r = _exmemo[key] = _extract(t, h, l)
    return r


def _extract(t, h, l):
    w = h - l + 1
    assert 0 <= l <= h < t.w, (h, l, t.w)
    op = t.op
    if op == "const":
        return const(t.args[0] >> l, w)
    if t.hi >> l == 0:
        return const(0, w)
    if op == "concat":
        res = []
        pos = 0
        for p in t.args:
            if pos > h:
                break
            if pos + p.w > l:
                a = max(l - pos, 0)
                b = min(h - pos, p.w - 1)
                res.append(extract(p, b, a))
            pos += p.w
        return concat_lsb(res)
    if op == "extract":
        base, bl = t.args
        return extract(base, bl + h, bl + l)
    if op == "sext":
        x = t.args[0]
        if h < x.w:
            return extract(x, h, l)
        if l >= x.w - 1:
            return sext(extract(x, x.w - 1, x.w - 1), w)
        if w <= 64 or l == 0:
            return sext(extract(x, x.w - 1, l), w)
    if op == "ite":
        c, a, b = t.args
        if a.op in ("const", "concat") and b.op in ("const", "concat", "extract"):
            return ite(c, extract(a, h, l), extract(b, h, l))
        if b.op in ("const", "concat") and a.op in ("const", "concat", "extract"):
            return ite(c, extract(a, h, l), extract(b, h, l))
    if not RAW and op in ("and", "or", "xor") and len(t.args) <= 8 and (any(a.op in ("const", "concat", "sext") for a in t.args) or all(_pushable(a) for a in t.args)):
        f = {"and": band, "or": bor, "xor": bxor}[op]
        return f(*[extract(a, h, l) for a in t.args])
    if op == "not" and not RAW:
        return bnot(extract(t.args[0], h, l))
    if op == "add" and l == 0 and not KEEP_SUMS and all(_pushable(x) for c, x in t.args[1]):
        # low bits of a sum only depend on low bits
        return linear(t.args[0], [(c, extract(x, h, 0)) for c, x in t.args[1]], w)
    if op == "mul" and l == 0 and all(_pushable(x) for x in t.args) and not all(x.op == "concat" for x in t.args):
        return mul(extract(t.args[0], h, 0), extract(t.args[1], h, 0))
    # known-zero high bits
    if t.hi >> h == 0 and t.hi.bit_length() > l:
        k = t.hi.bit_length()
        if k <= h:
            return concat_lsb((extract(t, k - 1, l), const(0, h - k + 1)))
    lo, hi = 0, None
    if t.hi >> l <= (1 << w) - 1:
        lo, hi = t.lo >> l, t.hi >> l
    return _mk("extract", w, (t, l), lo, hi)


def trunc(t, w):
    return t if t.w == w else extract(t, w - 1, 0)


# ---------------------------------------------------------------- bitwise

def _cuts(t):
    res = []
    pos = 0
    for p in _pieces(t):
        if p.op == "const" and p.w <= 4096:
            # runs inside the constant
            v = p.args[0]
            m = (1 << p.w) - 1
            if v != 0 and v != m:
                d = v ^ (v >> 1)
                i = 0
                d &= m >> 1
                while d:
                    low = d & -d
                    b = low.bit_length()
                    res.append(pos + b)
                    d ^= low
        pos += p.w
        res.append(pos)
    return res


def _has_const(t):
    return t.op == "const" or (t.op == "concat" and any(p.op == "const" for p in t.args))


def _segmented(op, a, b):
    """Try to apply the bitwise op piecewise when constants let pieces simplify."""
    if RAW and (a.op != "concat" and a.op != "const" or b.op != "concat" and b.op != "const"):
        return None
    if not (_has_const(a) or _has_const(b)):
        if not (a.op == "concat" and b.op == "concat"):
            return None
        ca = _cuts(a)
        cb = _cuts(b)
        if ca != cb:
            return None
    cuts = sorted(set(_cuts(a)) | set(_cuts(b)))
    if len(cuts) > 16 and a.w <= 64:
        return None
    if len(cuts) <= 1:
        return None
    parts = []
    l = 0
    for c in cuts:
        parts.append(op(extract(a, c - 1, l), extract(b, c - 1, l)))
        l = c
    return concat_lsb(parts)


def bnot(t):
    if t.op == "const":
        return const(~t.args[0], t.w)
    if t.op == "not":
        return t.args[0]
    if t.op == "ite" and (t.args[1].op == "const" or t.args[2].op == "const"):
        return ite(t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    if t.op == "concat":
        return concat_lsb([bnot(p) for p in t.args])
    if t.op == "xor":
        # push into constant if any
        a = t.args
        if a[0].op == "const":
            return bxor(const(~a[0].args[0], t.w), *a[1:])
    if t.w > 1 and t.op == "add":
        # ~x = -x - 1
        return linear(-t.args[0] - 1, [(-c, x) for c, x in t.args[1]], t.w)
    m = (1 << t.w) - 1
    return _mk("not", t.w, (t,), m - t.hi, m - t.lo)


def _same_cond_ites(a, b):
    return a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]


def _neg_ite(a, b):
    """a, b ites under complementary conditions"""
    if a.op == "ite" and b.op == "ite":
        ca, cb = a.args[0], b.args[0]
        if (ca.op == "not" and ca.args[0] is cb) or (cb.op == "not" and cb.args[0] is ca):
            return True
    return False


def _mask_ite(t):
    return t.op == "ite" and (t.args[1].op == "const" or t.args[2].op == "const")


def _absorb(a, b, op, make):
    """a op b where b is a combination of the dual operation: a or (a and x), a or (not a and x)"""
    for x, y in ((a, b), (b, a)):
        if y.op == op and len(y.args) <= 8:
            if x in y.args:
                return x
            n = bnot(x)
            if n in y.args:
                rest = [k for k in y.args if k is not n]
                return make(x, rest)
    return None


def _bin_and(a, b):
    w = a.w
    m = (1 << w) - 1
    if a is b:
        return a
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if b.args[0] == 0:
            return b
        if b.args[0] == m:
            return a
        if a.op == "const":
            return const(a.args[0] & b.args[0], w)
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return const(0, w)
    if w == 1 and not RAW and (a.op == "or" or b.op == "or"):
        return _absorb(a, b, "or", lambda x, rest: band(x, rest[0] if len(rest) == 1 else bor(*rest)))
    if w > 1:
        for x, y in ((a, b), (b, a)):
            if _mask_ite(x):
                p, q = x.args[1], x.args[2]
                if p.op == "const" and q.op == "const" and p.args[0] in (0, m) and q.args[0] in (0, m):
                    return ite(x.args[0], band(p, y), band(q, y))
        if _same_cond_ites(a, b) and (_mask_ite(a) or _mask_ite(b)):
            return ite(a.args[0], band(a.args[1], b.args[1]), band(a.args[2], b.args[2]))
        s = _segmented(band, a, b)
        if s is not None:
            return s
    return None


def _bin_or(a, b):
    w = a.w
    m = (1 << w) - 1
    if a is b:
        return a
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if b.args[0] == 0:
            return a
        if b.args[0] == m:
            return b
        if a.op == "const":
            return const(a.args[0] | b.args[0], w)
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return const(m, w)
    if w == 1 and not RAW and (a.op == "and" or b.op == "and"):
        return _absorb(a, b, "and", lambda x, rest: bor(x, rest[0] if len(rest) == 1 else band(*rest)))
    if w > 1:
        if _neg_ite(a, b):
            b = ite(bnot(b.args[0]), b.args[2], b.args[1])
        if _same_cond_ites(a, b):
            za = [is_const(x) and x.args[0] in (0, m) for x in (a.args[1], a.args[2])]
            zb = [is_const(x) and x.args[0] in (0, m) for x in (b.args[1], b.args[2])]
            if (za[0] or zb[0]) and (za[1] or zb[1]):
                return ite(a.args[0], bor(a.args[1], b.args[1]), bor(a.args[2], b.args[2]))
        s = _segmented(bor, a, b)
        if s is not None:
            return s
    return None


def _bin_or2(a, b):
    return bor(a, b)


def _bin_xor(a, b):
    w = a.w
    m = (1 << w) - 1
    if a is b:
        return const(0, w)
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if b.args[0] == 0:
            return a
        if b.args[0] == m:
            return bnot(a)
        if a.op == "const":
            return const(a.args[0] ^ b.args[0], w)
    if a.op == "not" and b.op == "not":
        return bxor(a.args[0], b.args[0])
    if w > 1:
        if _same_cond_ites(a, b) and (_mask_ite(a) or _mask_ite(b)):
            return ite(a.args[0], bxor(a.args[1], b.args[1]), bxor(a.args[2], b.args[2]))
        if b.op == "const" and a.op not in ("concat", "sext", "ite"):
            return None
        s = _segmented(bxor, a, b)
        if s is not None:
            return s
    return None


def _nary(op, binop, args, w, dedupe):
    if RAW:
        r = args[0]
        for x in args[1:]:
            y = binop(r, x)
            if y is None:
                a, b = (r, x) if r.id <= x.id else (x, r)
                if b.op == "const":
                    a, b = b, a
                y = _mk(op, w, (a, b))
            r = y
        return r
    # flatten
    flat = []
    for a in args:
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    if op == "xor" and len(flat) > 4:
        # cancel duplicates; operands without constant structure cannot combine further
        cnt = {}
        for x in flat:
            cnt[x] = cnt.get(x, 0) ^ 1
        flat = [x for x, k in cnt.items() if k]
        if not flat:
            return const(0, w)
        if len(flat) > 1 and not any(x.op in ("const", "concat", "ite", "not") for x in flat):
            flat.sort(key=lambda t: t.id)
            return flat
    # repeatedly combine
    done = []
    work = flat
    while work:
        x = work.pop()
        combined = False
        for i, y in enumerate(done):
            r = binop(x, y)
            if r is not None:
                done.pop(i)
                if r.op == op:
                    # pieces of r could combine again with others
                    if set(r.args) == {x, y}:
                        done.insert(i, y)
                        continue
                    work.extend(r.args)
                else:
                    work.append(r)
                combined = True
                break
        if not combined:
            done.append(x)
    if len(done) == 1:
        return done[0]
    done.sort(key=lambda t: (t.op != "const", t.id))
    return done


def band(*args):
    w = args[0].w
    if len(args) == 2:
        a, b = args
        if a.op != "and" and b.op != "and":
            r = _bin_and(a, b)
            if r is not None:
                return r
            if a.id > b.id:
                a, b = b, a
            if b.op == "const":
                a, b = b, a
            return _mk("and", w, (a, b), 0, min(a.hi, b.hi))
    d = _nary("and", _bin_and, args, w, True)
    if isinstance(d, T):
        return d
    return _mk("and", w, tuple(d), 0, min(x.hi for x in d))


def bor(*args):
    w = args[0].w
    if len(args) == 2:
        a, b = args
        if a.op != "or" and b.op != "or":
            r = _bin_or(a, b)
            if r is not None:
                return r
            if a.id > b.id:
                a, b = b, a
            if b.op == "const":
                a, b = b, a
            return _mk("or", w, (a, b), max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)
    d = _nary("or", _bin_or, args, w, True)
    if isinstance(d, T):
        return d
    return _mk("or", w, tuple(d), max(x.lo for x in d), (1 << max(x.hi.bit_length() for x in d)) - 1)


def bxor(*args):
    w = args[0].w
    if len(args) == 1:
        return args[0]
    d = _nary("xor", _bin_xor, args, w, False)
    if isinstance(d, T):
        return d
    # pull negations into the constant
    inv = False
    out = []
    for x in d:
        if x.op == "not":
            inv = not inv
            out.append(x.args[0])
        else:
            out.append(x)
    if inv:
        return bnot(bxor(*out))
    return _mk("xor", w, tuple(d), 0, (1 << max(x.hi.bit_length() for x in d)) - 1)


# ---------------------------------------------------------------- ite / predicates

def ite(c, a, b):
    if c.op == "const":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
    if a.op == "ite":
        if a.args[0] is c:
            return ite(c, a.args[1], b)
        if a.args[2] is b and False:
            return ite(band(c, a.args[0]), a.args[1], b)
    if b.op == "ite":
        if b.args[0] is c:
            return ite(c, a, b.args[2])
        if b.args[1] is a:
            return ite(bor(c, b.args[0]), a, b.args[2])
    if a.op == "concat" and b.op == "concat" and False:
        pass
    return _mk("ite", a.w, (c, a, b), min(a.lo, b.lo), max(a.hi, b.hi))


def eq(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return TRUE
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if a.op == "const":
        a, b = b, a
    if a.w == 1:
        if b.op == "const":
            return a if b.args[0] else bnot(a)
        return bnot(bxor(a, b))
    if b.op == "const":
        v = b.args[0]
        if a.op == "const":
            return boolc(a.args[0] == v)
        if a.op == "ite":
            c, p, q = a.args
            if p.op == "const" or q.op == "const":
                return ite(c, eq(p, b), eq(q, b))
        if a.op == "concat":
            pos = 0
            res = []
            for p in a.args:
                r = eq(p, const(v >> pos, p.w))
                if r is FALSE:
                    return FALSE
                res.append(r)
                pos += p.w
            return band(*res) if len(res) > 1 else res[0]
        if a.op == "sext":
            x = a.args[0]
            y = const(v, x.w)
            return eq(x, y) if sext(y, a.w) is b else FALSE
        if a.op == "not":
            return eq(a.args[0], const(~v, a.w))
        if a.op == "xor" and a.args[0].op == "const":
            return eq(bxor(*a.args[1:]), const(v ^ a.args[0].args[0], a.w))
        if a.op == "xor" and v == 0 and len(a.args) == 2:
            return eq(a.args[0], a.args[1])
        if a.op == "or" and v == 0:
            return band(*[eq(x, const(0, x.w)) for x in a.args])
        if a.op == "add":
            if a.args[0] != 0:
                return eq(linear(0, a.args[1], a.w), const(v - a.args[0], a.w))
            if len(a.args[1]) == 1:
                c, x = a.args[1][0]
                if c == (1 << a.w) - 1:
                    return eq(x, const(-v, a.w))
            if v == 0 and len(a.args[1]) == 2:
                (c1, x1), (c2, x2) = a.args[1]
                if (c1 + c2) & ((1 << a.w) - 1) == 0 and c1 & 1:
                    return eq(x1, x2)
    else:
        if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
            return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
        if a.op == "concat" and b.op == "concat":
            ca, cb = [], []
            pos = 0
            for p in a.args:
                pos += p.w
                ca.append(pos)
            pos = 0
            for p in b.args:
                pos += p.w
                cb.append(pos)
            if ca == cb:
                r = []
                for p, q in zip(a.args, b.args):
                    e = eq(p, q)
                    if e is FALSE:
                        return FALSE
                    r.append(e)
                return band(*r)
        if a.op == "add" and b.op == "add" or (a.op == "add" or b.op == "add"):
            d = sub(a, b)
            if d.op == "const":
                return boolc(d.args[0] == 0)
            if d.op != "add":
                return eq(d, const(0, d.w))
    if a.id > b.id and b.op != "const":
        a, b = b, a
    return _mk("eq", 1, (a, b))


def ne(a, b):
    return bnot(eq(a, b))


def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if b.op == "const" and a.lo < b.args[0] and a.lo + 1 == b.args[0]:
        return eq(a, const(a.lo, a.w))
    if a.op == "const" and a.args[0] + 1 == b.hi:
        return eq(b, const(b.hi, b.w))
    if a.op == "ite" and b.op == "const" and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if b.op == "ite" and a.op == "const" and (is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    if a.w == 1:
        return band(bnot(a), b)
    # common zero-extension
    k = max(a.hi.bit_length(), b.hi.bit_length())
    if k < a.w and k > 0:
        return ult(extract(a, k - 1, 0), extract(b, k - 1, 0))
    if a.op == "const" or a.op == "not" or (b.op == "const" and False):
        # canonical: const < b  ==  not (b <= const) == not (b < const+1)
        if a.op == "const":
            return bnot(ult(b, const(a.args[0] + 1, a.w)))
    return _mk("ult", 1, (a, b))


def ule(a, b):
    return bnot(ult(b, a))


def _flip(t):
    w = t.w
    s = 1 << (w - 1)
    return bxor(t, const(s, w))


def slt(a, b):
    w = a.w
    s = 1 << (w - 1)
    if a is b:
        return FALSE
    if a.hi < s and b.hi < s:
        return ult(a, b)
    if a.lo >= s and b.lo >= s:
        return ult(a, b)
    if a.lo >= s and b.hi < s:
        return TRUE
    if a.hi < s and b.lo >= s:
        return FALSE
    if b.op == "const" and b.args[0] == 0:
        return extract(a, w - 1, w - 1)
    if a.op == "const" and a.args[0] == (1 << w) - 1:
        return bnot(extract(b, w - 1, w - 1))
    if a.op == "ite" and b.op == "const" and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if b.op == "ite" and a.op == "const" and (is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    if a.op == "const" and a.args[0] != s - 1:
        return bnot(slt(b, const(a.args[0] + 1, w)))
    # both non-negative after common sign extension
    if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    return _mk("slt", 1, (a, b))


def sle(a, b):
    return bnot(slt(b, a))


# ---------------------------------------------------------------- arithmetic

def _as_linear(t, coeff, acc, w):
    """adds coeff*t into acc (dict term->coeff), returns constant contribution"""
    if t.op == "const":
        return coeff * t.args[0]
    if t.op == "add":
        k = coeff * t.args[0]
        for c, x in t.args[1]:
            k += _as_linear(x, coeff * c, acc, w)
        return k
    if t.op == "not":
        # ~x = -1 - x
        return -coeff + _as_linear(t.args[0], -coeff, acc, w)
    if t.op == "concat" and t.args[0].op == "const" and t.args[0].args[0] != 0 and len(t.args) <= 4:
        low = t.args[0]
        return coeff * low.args[0] + _as_linear(concat_lsb((const(0, low.w),) + t.args[1:]), coeff, acc, w)
    if t.op == "concat" and t.args[0].op == "const" and t.args[0].args[0] == 0:
        k = t.args[0].w
        rest = t.args[1:]
        if len(rest) == 1:
            r = rest[0]
            if r.op == "extract" and r.args[1] == 0 and r.args[0].w == w:
                return _as_linear(r.args[0], coeff << k, acc, w)
            # 2^k * zext(r): canonical as is, but expose coefficient so that sums of shifted things cancel
        z = concat_lsb(rest + (const(0, k),)) if True else None
        if z is not t:
            return _as_linear(z, coeff << k, acc, w)
    if t.op == "ite" and is_const(t.args[1]) and is_const(t.args[2]):
        c, a, b = t.args
        a0, b0 = a.args[0], b.args[0]
        if b0 != 0 or a0 != 1:
            bit = ite(c, const(1, w), const(0, w)) if w > 1 else c
            bit = zext(c, w)
            acc[bit] = acc.get(bit, 0) + coeff * (a0 - b0)
            return coeff * b0
    acc[t] = acc.get(t, 0) + coeff
    return 0


def linear(k, terms, w):
    """k + sum coeff*term, modulo 2^w"""
    m = (1 << w) - 1
    acc = {}
    for c, x in terms:
        k += _as_linear(x, c, acc, w)
    k &= m
    items = []
    for x, c in acc.items():
        c &= m
        if c:
            items.append((c, x))
    if not items:
        return const(k, w)
    if len(items) == 1:
        c, x = items[0]
        if k == 0:
            if c == 1:
                return x
            if c & (c - 1) == 0:
                s = c.bit_length() - 1
                return concat_lsb((const(0, s), extract(x, w - 1 - s, 0)))
        if w > 1 and x.op == "concat" and len(x.args) == 2 and x.args[0].w == 1 and is_const(x.args[1]) and x.args[1].args[0] == 0:
            # linear in one bit: a two-valued constant
            return ite(x.args[0], const(k + c, w), const(k, w))
    if w == 1:
        xs = [x for c, x in items]
        r = bxor(*xs) if len(xs) > 1 else xs[0]
        return bnot(r) if k else r
    # disjoint bit ranges -> concat/or
    if all(c == 1 or c & (c - 1) == 0 for c, x in items) and len(items) <= 8:
        used = 0
        ok = True
        vals = []
        for c, x in items:
            s = c.bit_length() - 1
            mask = _maybe_ones(x) << s
            if mask > m or used & mask:
                ok = False
                break
            used |= mask
            vals.append(x if s == 0 else concat_lsb((const(0, s), extract(x, w - 1 - s, 0))))
        if ok and k & used == 0 and (k == 0 or k.bit_length() <= w):
            if k:
                vals.append(const(k, w))
            if len(vals) > 1:
                r = vals[0]
                for v in vals[1:]:
                    r = bor(r, v)
                return r
    items.sort(key=lambda cx: cx[1].id)
    # interval: try as true integers with signed coefficients
    best = None
    lo = hi = k
    for c, x in items:
        cs = c if c <= m >> 1 else c - m - 1
        if cs >= 0:
            lo += cs * x.lo
            hi += cs * x.hi
        else:
            lo += cs * x.hi
            hi += cs * x.lo
    if lo >= 0 and hi <= m:
        best = (lo, hi)
    else:
        # shift by 2^w
        q = lo >> w
        if hi >> w == q:
            best = (lo & m, hi & m)
    if best is None and k > m >> 1:
        lo -= m + 1
        hi -= m + 1
        if lo >= 0 and hi <= m:
            best = (lo, hi)
    if best is None:
        return _mk("add", w, (k, tuple(items)))
    return _mk("add", w, (k, tuple(items)), best[0], best[1])


def _maybe_ones(x):
    if x.op == "concat":
        r = 0
        pos = 0
        for p in x.args:
            r |= _maybe_ones(p) << pos
            pos += p.w
        return r
    if x.op == "const":
        return x.args[0]
    return (1 << x.hi.bit_length()) - 1


def add(a, b):
    return linear(0, ((1, a), (1, b)), a.w)


def add_many(*ts):
    return linear(0, [(1, t) for t in ts], ts[0].w)


def sub(a, b):
    return linear(0, ((1, a), (-1, b)), a.w)


def neg(a):
    if a.op == "ite" and (is_const(a.args[1]) and is_const(a.args[2])):
        return ite(a.args[0], neg(a.args[1]), neg(a.args[2]))
    return linear(0, ((-1, a),), a.w)


def mul(a, b):
    w = a.w
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        return linear(0, ((b.args[0], a),), w)
    if a.id > b.id:
        a, b = b, a
    lo, hi = a.lo * b.lo, a.hi * b.hi
    if hi > (1 << w) - 1:
        lo, hi = 0, None
    return _mk("mul", w, (a, b), lo, hi)


def udiv(a, b):
    w = a.w
    if b.op == "const" and b.args[0] != 0:
        d = b.args[0]
        if a.op == "const":
            return const(a.args[0] // d, w)
        if d & (d - 1) == 0:
            return lshr(a, const(d.bit_length() - 1, w))
        if a.hi < d:
            return const(0, w)
        k = a.hi.bit_length()
        if k < w and d.bit_length() <= k:
            return zext(udiv(extract(a, k - 1, 0), const(d, k)), w)
        return _mk("udiv", w, (a, b), a.lo // d, a.hi // d)
    if a.op == "const" and b.op == "const":
        return const((1 << w) - 1, w)
    return _mk("udiv", w, (a, b))


def urem(a, b):
    w = a.w
    if b.op == "const" and b.args[0] != 0:
        d = b.args[0]
        if a.op == "const":
            return const(a.args[0] % d, w)
        if d & (d - 1) == 0:
            s = d.bit_length() - 1
            if s == 0:
                return const(0, w)
            return zext(extract(a, s - 1, 0), w)
        if a.hi < d:
            return a
        k = a.hi.bit_length()
        if k < w and d.bit_length() <= k:
            return zext(urem(extract(a, k - 1, 0), const(d, k)), w)
        return _mk("urem", w, (a, b), 0, d - 1)
    if a.op == "const" and b.op == "const":
        return a
    return _mk("urem", w, (a, b), 0, a.hi)


def sdiv(a, b):
    s = 1 << (a.w - 1)
    if a.hi < s and b.hi < s:
        return udiv(a, b)
    if is_const(a) and is_const(b) and b.args[0] != 0:
        x, y = to_signed(a.args[0], a.w), to_signed(b.args[0], b.w)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    na, nb = extract(a, a.w - 1, a.w - 1), extract(b, a.w - 1, a.w - 1)
    q = udiv(ite(na, neg(a), a), ite(nb, neg(b), b))
    return ite(bxor(na, nb), neg(q), q)


def srem(a, b):
    s = 1 << (a.w - 1)
    if a.hi < s and b.hi < s:
        return urem(a, b)
    if is_const(a) and is_const(b) and b.args[0] != 0:
        x, y = to_signed(a.args[0], a.w), to_signed(b.args[0], b.w)
        r = abs(x) % abs(y)
        return const(r if x >= 0 else -r, a.w)
    na, nb = extract(a, a.w - 1, a.w - 1), extract(b, a.w - 1, a.w - 1)
    r = urem(ite(na, neg(a), a), ite(nb, neg(b), b))
    return ite(na, neg(r), r)


def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def shl(a, b):
    w = a.w
    if b.op == "const":
        s = b.args[0]
        if s == 0:
            return a
        if s >= w:
            return const(0, w)
        return concat_lsb((const(0, s), extract(a, w - 1 - s, 0)))
    if b.op == "ite" and (is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    return _mk("shl", w, (a, b))


def lshr(a, b):
    w = a.w
    if b.op == "const":
        s = b.args[0]
        if s == 0:
            return a
        if s >= w:
            return const(0, w)
        return zext(extract(a, w - 1, s), w)
    if b.op == "ite" and (is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], lshr(a, b.args[1]), lshr(a, b.args[2]))
    return _mk("lshr", w, (a, b), 0, a.hi)


def ashr(a, b):
    w = a.w
    if a.hi >> (w - 1) == 0:
        return lshr(a, b)
    if b.op == "const":
        s = b.args[0]
        if s == 0:
            return a
        if s >= w:
            s = w - 1
        return sext(extract(a, w - 1, s), w)
    if b.op == "ite" and (is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], ashr(a, b.args[1]), ashr(a, b.args[2]))
    return _mk("ashr", w, (a, b))


def rotl(a, n):
    n %= a.w
    if n == 0:
        return a
    return concat(extract(a, a.w - n - 1, 0), extract(a, a.w - 1, a.w - n))


def rotr(a, n):
    return rotl(a, a.w - n % a.w)


def bswap(a):
    n = a.w // 8
    return concat_lsb([extract(a, 8 * i + 7, 8 * i) for i in range(n)][::-1])


def conj(ts):
    ts = [t for t in ts if t is not TRUE]
    if not ts:
        return TRUE
    if any(t is FALSE for t in ts):
        return FALSE
    if len(ts) == 1:
        return ts[0]
    return band(*ts)


def disj(ts):
    ts = [t for t in ts if t is not FALSE]
    if not ts:
        return FALSE
    if any(t is TRUE for t in ts):
        return TRUE
    if len(ts) == 1:
        return ts[0]
    return bor(*ts)


def implies(a, b):
    return bor(bnot(a), b)


# ---------------------------------------------------------------- traversal / evaluation

def kids(t):
    op = t.op
    if op == "const" or op == "var":
        return ()
    if op == "add":
        return tuple(x for _, x in t.args[1])
    if op == "extract":
        return (t.args[0],)
    if op == "uf":
        return t.args[1:]
    return t.args


def postorder(roots, seen=None):
    seen = set() if seen is None else seen
    out = []
    for r in roots:
        if r in seen:
            continue
        stack = [(r, iter(kids(r)))]
        seen.add(r)
        while stack:
            t, it = stack[-1]
            for k in it:
                if k not in seen:
                    seen.add(k)
                    stack.append((k, iter(kids(k))))
                    break
            else:
                stack.pop()
                out.append(t)
    return out


def variables(roots):
    return [t for t in postorder(roots) if t.op == "var"]


def ev1(t, get, ufs=None):
    """evaluates one node given a getter for its kids' values"""
    op = t.op
    w = t.w
    m = (1 << w) - 1
    a = t.args
    if op == "const":
        return a[0]
    if op == "concat":
        r = 0
        pos = 0
        for p in a:
            r |= get(p) << pos
            pos += p.w
        return r
    if op == "extract":
        return get(a[0]) >> a[1] & m
    if op == "add":
        r = a[0]
        for c, x in a[1]:
            r += c * get(x)
        return r & m
    if op == "ite":
        return get(a[1]) if get(a[0]) else get(a[2])
    if op == "and":
        r = m
        for x in a:
            r &= get(x)
        return r
    if op == "or":
        r = 0
        for x in a:
            r |= get(x)
        return r
    if op == "xor":
        r = 0
        for x in a:
            r ^= get(x)
        return r
    if op == "not":
        return ~get(a[0]) & m
    if op == "eq":
        return int(get(a[0]) == get(a[1]))
    if op == "ult":
        return int(get(a[0]) < get(a[1]))
    if op == "slt":
        return int(to_signed(get(a[0]), a[0].w) < to_signed(get(a[1]), a[0].w))
    if op == "sext":
        return to_signed(get(a[0]), a[0].w) & m
    if op == "mul":
        return get(a[0]) * get(a[1]) & m
    if op == "udiv":
        d = get(a[1])
        return get(a[0]) // d if d else m
    if op == "urem":
        d = get(a[1])
        return get(a[0]) % d if d else get(a[0])
    if op == "shl":
        s = get(a[1])
        return get(a[0]) << s & m if s < w else 0
    if op == "lshr":
        s = get(a[1])
        return get(a[0]) >> s if s < w else 0
    if op == "ashr":
        s = min(get(a[1]), w - 1)
        return to_signed(get(a[0]), w) >> s & m
    if op == "uf":
        if ufs is None:
            f = UF_EVAL.get(a[0])
            if f is None:
                raise KeyError("no interpretation of " + a[0])
            return f([get(x) for x in a[1:]]) & m
        return ufs(a[0], [get(x) for x in a[1:]], w, t) & m
    raise Exception("eval " + op)


UF_EVAL = {}      # interpretations of uninterpreted functions standing for library tables
_support = {}
_suppbit = {}


def support(x):
    """bit mask of the variables and uninterpreted functions occurring in x"""
    r = _support.get(x)
    if r is not None:
        return r
    stack = [x]
    while stack:
        y = stack[-1]
        ks = kids(y)
        todo = [z for z in ks if z not in _support]
        if todo:
            stack += todo
            continue
        stack.pop()
        if y in _support:
            continue
        if y.op == "var" or y.op == "uf":
            k = (y.op, y.args[0])
            b = _suppbit.get(k)
            if b is None:
                b = _suppbit[k] = 1 << len(_suppbit)
        else:
            b = 0
        for z in ks:
            b |= _support[z]
        _support[y] = b
    return _support[x]


def evaluate(roots, env, ufs=None, cache=None):
    """env: dict var-name -> int (missing: 0). returns list of ints."""
    cache = {} if cache is None else cache
    get = cache.__getitem__
    for t in postorder(roots, set(cache)):
        if t.op == "var":
            cache[t] = env.get(t.args[0], t.args[1]) & ((1 << t.w) - 1)
        else:
            cache[t] = ev1(t, get, ufs)
    return [cache[r] for r in roots]


_rebuild = {
    "and": band, "or": bor, "xor": bxor, "not": bnot, "ite": ite, "eq": eq, "ult": ult, "slt": slt,
    "mul": mul, "udiv": udiv, "urem": urem, "shl": shl, "lshr": lshr, "ashr": ashr,
}


def substitute(roots, mapping):
    """mapping: dict term -> term, applied bottom up with re-simplification"""
    cache = dict(mapping)
    for t in postorder(roots, set(cache)):
        ks = kids(t)
        if not ks or all(cache[k] is k for k in ks):
            cache[t] = t
            continue
        op = t.op
        if op == "concat":
            cache[t] = concat_lsb([cache[k] for k in ks])
        elif op == "extract":
            cache[t] = extract(cache[t.args[0]], t.args[1] + t.w - 1, t.args[1])
        elif op == "add":
            cache[t] = linear(t.args[0], [(c, cache[x]) for c, x in t.args[1]], t.w)
        elif op == "sext":
            cache[t] = sext(cache[t.args[0]], t.w)
        elif op == "uf":
            cache[t] = _mk("uf", t.w, (t.args[0],) + tuple(cache[k] for k in ks), t.lo, t.hi)
        else:
            cache[t] = _rebuild[op](*[cache[k] for k in ks])
    return [cache[r] for r in roots]
