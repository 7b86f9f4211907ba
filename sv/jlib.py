"""Models of the Java library methods used by the code under test."""
import re
from . import term as t
from .term import T
from .engine import Unsupported, merge_values, narrow

c = t.const


def hexdigit_val(ch):
    """(valid, value) of a 16-bit char as a base-16 digit (non-ASCII digits: uninterpreted)"""
    dec = t.ult(t.sub(ch, c(48, 16)), c(10, 16))
    up = t.ult(t.sub(ch, c(65, 16)), c(6, 16))
    lo = t.ult(t.sub(ch, c(97, 16)), c(6, 16))
    v = t.ite(dec, t.sub(ch, c(48, 16)), t.ite(up, t.sub(ch, c(55, 16)), t.sub(ch, c(87, 16))))
    asc = t.bor(dec, up, lo)
    if ch.hi < 128:
        return asc, t.trunc(v, 4)
    small = t.ult(ch, c(128, 16))
    uni = t.uf("chardigit", 5, [ch])      # bit 4: valid
    return t.ite(small, asc, t.eq(t.extract(uni, 4, 4), t.TRUE)), t.ite(small, t.trunc(v, 4), t.extract(uni, 3, 0))


def _chardigit(a):
    """Character.digit(ch, 16) for chars of the basic plane: decimal digits of all scripts and full-width letters"""
    import unicodedata
    ch = chr(a[0])
    v = unicodedata.digit(ch, None) if unicodedata.category(ch) == "Nd" else None
    if v is None and 0xFF21 <= a[0] <= 0xFF26:
        v = a[0] - 0xFF21 + 10
    if v is None and 0xFF41 <= a[0] <= 0xFF46:
        v = a[0] - 0xFF41 + 10
    return 0 if v is None else 16 + v


t.UF_EVAL["chardigit"] = _chardigit


def nibble_char(n):
    """4-bit term to lower-case hex char"""
    n = t.zext(n, 16)
    return t.ite(t.ult(n, c(10, 16)), t.add(n, c(48, 16)), t.add(n, c(87, 16)))


def str_eq(a, b):
    if len(a.ch) != len(b.ch):
        return t.FALSE
    return t.conj([t.eq(x, y) for x, y in zip(a.ch, b.ch)])


_ITEM = re.compile(r"(\[\^?(?:\\.|[^\]\\])+\]|\\[dwx.]|[^\\\[\](){}*+?|^$])(\*|\+|\?|\{\d+(?:,\d*)?\})?")


def regex_items(rx):
    pos, items = 0, []
    while pos < len(rx):
        m = _ITEM.match(rx, pos)
        if not m:
            raise Unsupported("regex " + rx)
        pos = m.end()
        s, q = m.group(1), m.group(2)
        rng, neg = [], False
        if s[0] == "[":
            body = s[1:-1]
            if body[0] == "^":
                neg, body = True, body[1:]
            i = 0
            while i < len(body):
                ch = body[i]
                if ch == "\\":
                    i += 1
                    ch = body[i]
                    if ch == "d":
                        rng.append((48, 57))
                        i += 1
                        continue
                    if ch.isalnum():
                        raise Unsupported("regex " + rx)
                if body[i + 1:i + 2] == "-" and i + 2 < len(body):
                    rng.append((ord(ch), ord(body[i + 2])))
                    i += 3
                else:
                    rng.append((ord(ch), ord(ch)))
                    i += 1
        elif s == ".":
            neg, rng = True, [(10, 10), (13, 13), (0x85, 0x85), (0x2028, 0x2029)]
        elif s == "\\d":
            rng = [(48, 57)]
        elif s[0] == "\\":
            if s[1].isalnum():
                raise Unsupported("regex " + rx)
            rng = [(ord(s[1]),) * 2]
        else:
            rng = [(ord(s),) * 2]
        if q is None:
            lo = hi = 1
        elif q == "*":
            lo, hi = 0, None
        elif q == "+":
            lo, hi = 1, None
        elif q == "?":
            lo, hi = 0, 1
        else:
            b = q[1:-1].split(",")
            lo = int(b[0])
            hi = lo if len(b) == 1 else (int(b[1]) if b[1] else None)
        items.append((rng, neg, lo, hi))
    return items


def in_class(ch, rng, neg):
    r = t.disj([t.band(t.ule(c(a, 16), ch), t.ule(ch, c(b, 16))) for a, b in rng])
    return t.bnot(r) if neg else r


def matches(s, rx):
    """regular expression of concatenated character classes with repetition, by dynamic programming"""
    items = regex_items(rx)
    n = len(s.ch)
    reach = {0: t.TRUE}
    for rng, neg, lo, hi in items:
        new = {}
        for p, cond in reach.items():
            acc = cond
            k = 0
            while True:
                if k >= lo:
                    new[p + k] = t.bor(new[p + k], acc) if p + k in new else acc
                if (hi is not None and k >= hi) or p + k >= n:
                    break
                acc = t.band(acc, in_class(s.ch[p + k], rng, neg))
                k += 1
        reach = new
    return reach.get(n, t.FALSE)


def call(M, fn, pc, cls, name, desc, args, st):
    from .jvm import JStr, JBig, JBox, JExc, JBuf, JArr, JObj, JClassRef, Ref, NULL, Concretize
    where = M.where(fn, pc)
    short = cls.split("/")[-1]
    key = short + "." + name

    def one(v):
        return [(st, v)]

    def boolean(b):
        return one(t.zext(b, 32))

    def throws(ok, exc, val):
        """val() if ok else the exception"""
        out = []
        for taken, s2 in M.branch(st, ok):
            out.append((s2, val if taken else JExc(exc)))
        return out

    def need(i):
        if isinstance(args[i], Ref) and args[i].oid == 0:
            M.oblige(st, t.FALSE, "null", where)
            return False
        return True

    def k(i, limit=300):
        return M.concretize(args[i], limit)

    if cls.startswith("["):
        if name == "clone":
            return one(M.new(st, st.mem[args[0].oid].copy()))
        raise Unsupported("array method " + name)

    # exceptions and plain objects
    if cls in ("java/lang/Object",) and name == "<init>":
        return one(None)
    from .jvm import SUPER
    if cls in SUPER:
        if name == "<init>":
            return one(None)
        if name in ("getMessage", "toString"):
            return one(JStr(()))
        raise Unsupported(key)

    if short == "Objects":
        if name == "requireNonNull":
            if isinstance(args[0], Ref) and args[0].oid == 0:
                return one(JExc("java/lang/NullPointerException"))
            return one(args[0])
        if name == "equals" and isinstance(args[0], JStr) and isinstance(args[1], JStr):
            return boolean(str_eq(args[0], args[1]))
    if short == "Class" and name == "desiredAssertionStatus":
        return one(c(1, 32))
    if short == "System" and name == "arraycopy":
        if not (need(0) and need(2)):
            return []
        for a, b in ((args[0], args[1]), (args[2], args[3])):
            pass
        if not M.arraycopy(where, st, args[0], args[1], args[2], args[3], args[4]):
            return []
        return one(None)

    if short in ("Integer", "Long"):
        w = 32 if short == "Integer" else 64
        if name in ("rotateLeft", "rotateRight"):
            a, n = args
            if n.op == "const":
                return one((t.rotl if name == "rotateLeft" else t.rotr)(a, t.cval(n) % w))
            m = t.band(n, c(w - 1, 32))
            if w == 64:
                m = t.zext(m, 64)
            o = t.sub(c(w, w), m)
            z = t.eq(m, c(0, w))
            l, r = (t.shl, t.lshr) if name == "rotateLeft" else (t.lshr, t.shl)
            return one(t.ite(z, a, t.bor(l(a, m), r(a, o))))
        if name in ("parseInt", "parseLong", "parseUnsignedInt", "parseUnsignedLong"):
            s = args[0]
            if not need(0):
                return []
            radix = k(1) if len(args) > 1 else 10
            if radix not in (10, 16):
                raise Unsupported(key + " radix")
            n = len(s.ch)
            NFE = "java/lang/NumberFormatException"
            if n == 0:
                return one(JExc(NFE))
            oks, digs = [], []
            for ch in s.ch:
                ok, d = hexdigit_val(ch)
                if radix == 10:
                    ok = t.band(ok, t.ult(d, c(10, 4)))
                oks.append(ok)
                digs.append(d)
            W = 4 * n + 8
            val = c(0, W)
            if radix == 16:
                val = t.zext(t.concat(*digs), W)
            else:
                for d in digs:
                    val = t.linear(0, [(10, val), (1, t.zext(d, W))], W)
            signed = name in ("parseInt", "parseLong")
            lim = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
            allok = t.conj(oks)
            if lim < (1 << W) - 1:
                allok = t.band(allok, t.ule(val, c(lim, W)))
            # a leading sign
            if n > 1:
                sg = t.bor(t.eq(s.ch[0], c(43, 16)), t.eq(s.ch[0], c(45, 16)) if signed else t.FALSE)
                if sg is not t.FALSE:
                    rest = t.conj(oks[1:])
                    both = t.band(t.bnot(allok), sg, rest)
                    if M.feasible(st.pc, both):
                        sv = t.zext(t.concat(*digs[1:]), W) if radix == 16 else None
                        if sv is None:
                            raise Unsupported("signed decimal")
                        m = t.eq(s.ch[0], c(45, 16))
                        inr = t.ule(sv, t.ite(m, c(min(lim + 1, (1 << W) - 1), W), c(min(lim, (1 << W) - 1), W)))
                        sval = t.ite(m, t.neg(t.zext(sv, max(w, W))), t.zext(sv, max(w, W)))
                        v = t.ite(allok, t.trunc(t.zext(val, max(w, W)), w), t.trunc(sval, w))
                        return throws(t.bor(allok, t.band(both, inr)), NFE, v)
            v = t.trunc(val, w) if W >= w else t.zext(val, w)
            return throws(allok, NFE, v)
        if name == "valueOf" and isinstance(args[0], T) and len(args) == 1:
            return one(JBox(short, args[0]))
        if name in ("intValue", "longValue", "byteValue"):
            v = args[0].v
            return one({"intValue": lambda: t.trunc(v, 32) if v.w > 32 else v, "longValue": lambda: t.sext(v, 64), "byteValue": lambda: t.sext(t.trunc(v, 8), 32)}[name]())
        if name == "reverseBytes":
            return one(t.bswap(args[0]))
        if name == "compare":
            a, b = args
            return one(t.ite(t.slt(a, b), c(-1, 32), t.zext(t.bnot(t.eq(a, b)), 32)))
        if name == "compareUnsigned":
            a, b = args
            return one(t.ite(t.ult(a, b), c(-1, 32), t.zext(t.bnot(t.eq(a, b)), 32)))
        if name == "toUnsignedLong":
            return one(t.zext(args[0], 64))
        if name == "signum":
            a = args[0]
            return one(t.ite(t.slt(a, c(0, w)), c(-1, 32), t.zext(t.bnot(t.eq(a, c(0, w))), 32)))
        if name in ("divideUnsigned", "remainderUnsigned"):
            M.oblige(st, t.bnot(t.eq(args[1], c(0, w))), "div-by-zero", where)
            return one((t.udiv if name[0] == "d" else t.urem)(args[0], args[1]))
        if name in ("min", "max"):
            a, b = args
            return one(t.ite(t.slt(a, b), *((a, b) if name == "min" else (b, a))))
    if short == "Math":
        if name in ("min", "max") and desc[1] in "IJ":
            a, b = args
            return one(t.ite(t.slt(a, b), *((a, b) if name == "min" else (b, a))))
        if name == "abs" and desc[1] in "IJ":
            a = args[0]
            return one(t.ite(t.slt(a, c(0, a.w)), t.neg(a), a))
        if name == "multiplyHigh":
            return one(t.extract(t.mul(t.sext(args[0], 128), t.sext(args[1], 128)), 127, 64))
        if name in ("addExact", "subtractExact", "multiplyExact", "toIntExact"):
            w = args[0].w
            f = {"addExact": t.add, "subtractExact": t.sub, "multiplyExact": t.mul}.get(name)
            if f is None:
                r = t.trunc(args[0], 32)
                return throws(t.eq(t.sext(r, 64), args[0]), "java/lang/ArithmeticException", r)
            r = f(args[0], args[1])
            big = f(t.sext(args[0], 2 * w), t.sext(args[1], 2 * w))
            return throws(t.eq(t.sext(r, 2 * w), big), "java/lang/ArithmeticException", r)
    if short == "Byte":
        if name == "valueOf":
            return one(JBox("Byte", args[0]))
        if name == "toUnsignedInt":
            return one(t.zext(t.trunc(args[0], 8), 32))
        if name == "toUnsignedLong":
            return one(t.zext(t.trunc(args[0], 8), 64))
        if name in ("byteValue", "intValue"):
            return one(args[0].v)
        if name == "compare":
            return one(t.sub(args[0], args[1]))
    if short == "Character":
        if name == "valueOf":
            return one(JBox("Character", args[0]))
        if name == "charValue":
            return one(args[0].v)
        if name == "digit" and k(1) == 16:
            ok, d = hexdigit_val(t.trunc(args[0], 16))
            return one(t.ite(ok, t.zext(d, 32), c(-1, 32)))
        if name == "forDigit" and k(1) == 16:
            ok = t.ult(args[0], c(16, 32))
            return one(t.ite(ok, t.zext(nibble_char(t.trunc(args[0], 4)), 32), c(0, 32)))

    if short == "Arrays":
        if not need(0):
            return []
        o = st.mem[args[0].oid]
        if name == "copyOf":
            if o.lazy:
                n = args[1]
                if n.op != "const" and n.hi - n.lo > 300:
                    raise Unsupported("copyOf with symbolic length")
            n = k(1)
            if n >= 1 << 31:
                M.oblige(st, t.FALSE, "negative-size", where)
                return []
            if o.lazy:
                z = c(0, 8)
                cells = [t.ite(t.ult(c(i, 32), o.length), M.cell(o, c(i, 32)), z) for i in range(n)]
                return one(M.new(st, JArr(o.kind, cells, elem=o.elem)))
            z = NULL if o.kind == "L" else c(0, {"B": 8, "Z": 8, "C": 16, "S": 16, "I": 32, "J": 64}[o.kind])
            return one(M.new(st, JArr(o.kind, (o.cells + [z] * n)[:n], elem=o.elem)))
        if name == "copyOfRange":
            if o.lazy:
                f, e = args[1], args[2]
                ln = t.sub(e, f)
                M.oblige(st, t.band(t.sle(c(0, 32), f), t.sle(f, o.length), t.sle(f, e)), "index", where)
                if ln.op != "const":
                    if ln.hi - ln.lo > 300:
                        raise Unsupported("copyOfRange with symbolic length")
                    got = st.data.get(("conc", ln))
                    if got is None:
                        raise Concretize(ln)
                    ln = got
                cells = []
                for i in range(t.cval(ln)):
                    p = t.add(f, c(i, 32))
                    cells.append(t.ite(t.ult(p, o.length), M.cell(o, p), c(0, 8)))
                return one(M.new(st, JArr(o.kind, cells, elem=o.elem)))
            f, e = k(1), k(2)
            if f > len(o.cells) or e < f or e >= 1 << 31:
                M.oblige(st, t.FALSE, "index", where)
                return []
            z = NULL if o.kind == "L" else c(0, {"B": 8, "Z": 8, "C": 16, "S": 16, "I": 32, "J": 64}[o.kind])
            return one(M.new(st, JArr(o.kind, (o.cells + [z] * (e - f))[f:e], elem=o.elem)))
        if name == "fill":
            if o.lazy:
                raise Unsupported("fill")
            if len(args) == 2:
                a, b, v = 0, len(o.cells), args[1]
            else:
                v = args[3]
                if args[1].op != "const" or args[2].op != "const":
                    lo, hi = args[1], args[2]
                    M.oblige(st, t.band(t.sle(c(0, 32), lo), t.sle(lo, hi), t.sle(hi, o.length)), "index", where)
                    o = st.wobj(args[0].oid)
                    from .jvm import CELLW
                    v = t.trunc(v, CELLW[o.kind]) if v.w > CELLW[o.kind] else v
                    for i in range(len(o.cells)):
                        cd = t.band(t.ule(lo, c(i, 32)), t.ult(c(i, 32), hi))
                        o.cells[i] = merge_values(cd, v, o.cells[i])
                    return one(None)
                a, b = t.cval(args[1]), t.cval(args[2])
            if not 0 <= a <= b <= len(o.cells):
                M.oblige(st, t.FALSE, "index", where)
                return []
            if o.frozen:
                M.oblige(st, t.FALSE, "const-write", where)
            from .jvm import CELLW
            if isinstance(v, T) and v.w > CELLW[o.kind]:
                v = t.trunc(v, CELLW[o.kind])
            st.wobj(args[0].oid).cells[a:b] = [v] * (b - a)
            return one(None)
        if name == "equals":
            if isinstance(args[1], Ref) and args[1].oid == 0:
                return one(c(0, 32))
            p = st.mem[args[1].oid]
            if o.lazy or p.lazy:
                raise Unsupported("Arrays.equals")
            if len(o.cells) != len(p.cells):
                return one(c(0, 32))
            return boolean(t.conj([t.eq(x, y) for x, y in zip(o.cells, p.cells)]))
        if name == "hashCode" and o.kind in "BIC" and not o.lazy:
            h = c(1, 32)
            for x in o.cells:
                x = t.sext(x, 32) if o.kind == "B" else t.zext(x, 32) if x.w < 32 else x
                h = t.linear(0, [(31, h), (1, x)], 32)
            return one(h)

    if short == "String":
        s = args[0]
        if name == "<init>":
            if desc == "([C)V":
                o = st.mem[args[1].oid]
                return one(JStr(o.cells))
            if desc == "()V":
                return one(JStr(()))
            if desc == "(Ljava/lang/String;)V":
                return one(args[1])
            if desc == "([CII)V":
                o = st.mem[args[1].oid]
                a, n = k(2), k(3)
                if a + n > len(o.cells):
                    M.oblige(st, t.FALSE, "index", where)
                    return []
                return one(JStr(o.cells[a:a + n]))
            raise Unsupported("String.<init>" + desc)
        if name == "valueOf":
            if desc.startswith("([C)"):
                return one(JStr(st.mem[args[0].oid].cells))
            if desc.startswith("(C)"):
                return one(JStr([t.trunc(args[0], 16)]))
            if isinstance(args[0], JStr):
                return one(args[0])
        if name == "format":
            fs = args[0].const() if isinstance(args[0], JStr) else args[1].const()
            va = st.mem[args[-1].oid].cells
            out = []
            i = ai = 0
            while i < len(fs):
                if fs[i] != "%":
                    out.append(c(ord(fs[i]), 16))
                    i += 1
                    continue
                m = re.compile(r"%0(\d+)([xX])").match(fs, i)
                if fs[i:i + 2] == "%s":
                    out += list(va[ai].ch)
                    ai += 1
                    i += 2
                    continue
                if not m:
                    raise Unsupported("String.format " + fs)
                n = int(m.group(1))
                b = va[ai]
                ai += 1
                v = b.v
                nat = {"Byte": 2, "Integer": 8, "Long": 16}[b.kind]
                if b.kind == "Byte":
                    v = t.trunc(v, 8)
                if n < nat:
                    if v.hi >= 1 << 4 * n:
                        raise Unsupported("String.format width")
                    nat = n
                dg = [c(48, 16)] * (n - nat)
                for j in range(nat - 1, -1, -1):
                    x = nibble_char(t.extract(v, 4 * j + 3, 4 * j))
                    if m.group(2) == "X":
                        x = t.ite(t.ule(c(97, 16), x), t.sub(x, c(32, 16)), x)
                    dg.append(x)
                out += dg
                i = m.end()
            return one(JStr(out))
        if not isinstance(s, JStr):
            raise Unsupported(key + " on a placeholder")
        n = len(s.ch)
        if name == "length":
            return one(c(n, 32))
        if name == "isEmpty":
            return one(c(int(n == 0), 32))
        if name == "charAt":
            i = args[1]
            M.oblige(st, t.ult(i, c(n, 32)), "string-index", where)
            if n == 0:
                return []
            if i.op == "const":
                if t.cval(i) >= n:
                    return []
                return one(t.zext(s.ch[t.cval(i)], 32))
            h = M.hooks.get("index")
            if h:
                h(M, fn, pc, st, i)
            hi = min(i.hi, n - 1)
            v = s.ch[hi]
            for j in range(hi - 1, i.lo - 1, -1):
                v = t.ite(t.eq(i, c(j, 32)), s.ch[j], v)
            return one(t.zext(v, 32))
        if name in ("substring", "subSequence"):
            a = k(1)
            b = k(2) if len(args) > 2 else n
            if not 0 <= a <= b <= n:
                M.oblige(st, t.FALSE, "string-index", where)
                return []
            return one(JStr(s.ch[a:b]))
        if name == "toCharArray":
            return one(M.new(st, JArr("C", list(s.ch))))
        if name in ("indexOf", "lastIndexOf") and isinstance(args[1], T) and len(args) <= 3:
            ch = args[1]
            ch = t.ite(t.ult(ch, c(65536, 32)), t.zext(t.trunc(ch, 16), 32), ch) if ch.hi >= 65536 else ch
            start = 0
            if len(args) == 3:
                start = k(2)
                start = 0 if start >= 1 << 31 else start
            r = c(-1, 32)
            order = range(n - 1, start - 1, -1) if name == "indexOf" else range(0, (start + 1 if len(args) == 3 else n))
            if s.const() is not None and n > 1:
                # found? position : -1, the position chain free of the sentinel
                hits = [(j, t.eq(t.zext(s.ch[j], 32), ch)) for j in order]
                w = max(n - 1, 1).bit_length()
                pos = c(0, w)
                for j, e in hits:
                    pos = t.ite(e, c(j, w), pos)
                r = t.ite(t.disj([e for j, e in hits]), t.zext(pos, 32), r)
                return one(r)
            for j in order:
                r = t.ite(t.eq(t.zext(s.ch[j], 32), ch), c(j, 32), r)
            if r.op != "const" and s.const() is None and n > 1:
                # keep the position concrete: the string is cut there
                out = []
                rest = st
                for j in list(order)[::-1]:
                    bs = M.branch(rest, t.eq(t.zext(s.ch[j], 32), ch))
                    rest = None
                    for taken, s2 in bs:
                        if taken:
                            out.append((s2, c(j, 32)))
                        else:
                            rest = s2
                    if rest is None:
                        break
                if rest is not None:
                    out.append((rest, c(-1, 32)))
                return out
            return one(r)
        if name == "matches":
            rx = args[1].const()
            if rx is None:
                raise Unsupported("matches with a symbolic expression")
            return boolean(matches(s, rx))
        if name in ("equals", "contentEquals"):
            o = args[1]
            if isinstance(o, Ref):
                return one(c(0, 32))
            return boolean(str_eq(s, o))
        if name in ("startsWith", "endsWith") and len(args) == 2:
            o = args[1]
            m = len(o.ch)
            if m > n:
                return one(c(0, 32))
            part = s.ch[:m] if name == "startsWith" else s.ch[n - m:]
            return boolean(str_eq(JStr(part), o))
        if name in ("toLowerCase", "toUpperCase"):
            out = []
            for ch in s.ch:
                if ch.hi >= 128:
                    # beyond ASCII: uninterpreted (may also change the length: only sound for one-to-one mappings)
                    raise Unsupported(key + " of non-ASCII characters")
                a = 65 if name == "toLowerCase" else 97
                d = 32 if name == "toLowerCase" else -32
                out.append(t.ite(t.ult(t.sub(ch, c(a, 16)), c(26, 16)), t.add(ch, c(d, 16)), ch))
            return one(JStr(out))
        if name == "concat":
            return one(JStr(s.ch + args[1].ch))
        if name == "getBytes":
            cs = args[1] if len(args) > 1 else None
            nm = cs.const() if isinstance(cs, JStr) else cs.name.split(":")[1].replace("_", "-") if cs is not None else "default"
            out = []
            for ch in s.ch:
                b = t.trunc(ch, 8)
                if ch.hi >= 128:
                    if nm == "US-ASCII":
                        b = t.ite(t.ult(ch, c(128, 16)), b, c(63, 8))
                    elif nm == "ISO-8859-1":
                        b = t.ite(t.ult(ch, c(256, 16)), b, c(63, 8)) if ch.hi >= 256 else b
                    else:
                        raise Unsupported("getBytes " + nm)
                out.append(b)
            return one(M.new(st, JArr("B", out)))
        if name == "hashCode":
            h = c(0, 32)
            for x in s.ch:
                h = t.linear(0, [(31, h), (1, t.zext(x, 32))], 32)
            return one(h)
        if name == "toString":
            return one(s)
        if name == "contains" and isinstance(args[1], JStr):
            o = args[1]
            m = len(o.ch)
            return boolean(t.disj([str_eq(JStr(s.ch[i:i + m]), o) for i in range(n - m + 1)]))
        if name == "compareTo":
            r = c(n - len(args[1].ch), 32)
            for a, b in list(zip(s.ch, args[1].ch))[::-1]:
                r = t.ite(t.eq(a, b), r, t.sub(t.zext(a, 32), t.zext(b, 32)))
            return one(r)

    if short in ("StringBuilder", "StringBuffer"):
        o = st.wobj(args[0].oid)
        if name == "<init>":
            if desc == "(Ljava/lang/String;)V":
                o.cells.extend(args[1].ch)
            return one(None)
        if name == "append":
            v = args[1]
            if isinstance(v, JStr):
                o.cells.extend(v.ch)
            elif desc.startswith("(C)"):
                o.cells.append(t.trunc(v, 16))
            elif desc.startswith("([C)"):
                o.cells.extend(st.mem[v.oid].cells)
            elif isinstance(v, T) and v.op == "const":
                o.cells.extend(c(ord(x), 16) for x in str(t.to_signed(t.cval(v), v.w)))
            elif isinstance(v, Ref) and isinstance(st.mem.get(v.oid), JBuf):
                o.cells.extend(st.mem[v.oid].cells)
            else:
                raise Unsupported("StringBuilder.append")
            return one(args[0])
        if name == "reverse":
            if any(x.hi >= 0xD800 for x in o.cells):
                raise Unsupported("reverse of surrogates")
            o.cells.reverse()
            return one(args[0])
        if name == "toString":
            return one(JStr(o.cells))
        if name == "length":
            return one(c(len(o.cells), 32))
        if name == "charAt":
            i = k(1)
            if i >= len(o.cells):
                M.oblige(st, t.FALSE, "string-index", where)
                return []
            return one(t.zext(o.cells[i], 32))
        if name == "setCharAt":
            i = k(1)
            if i >= len(o.cells):
                M.oblige(st, t.FALSE, "string-index", where)
                return []
            o.cells[i] = t.trunc(args[2], 16)
            return one(None)
        if name == "insert":
            i = k(1)
            v = args[2]
            new = list(v.ch) if isinstance(v, JStr) else [t.trunc(v, 16)]
            if i > len(o.cells):
                M.oblige(st, t.FALSE, "string-index", where)
                return []
            o.cells[i:i] = new
            return one(args[0])
        if name == "setLength" and k(1) <= len(o.cells):
            del o.cells[k(1):]
            return one(None)

    if short in ("ByteArrayOutputStream", "OutputStream"):
        o = st.wobj(args[0].oid)
        if name == "<init>":
            return one(None)
        if name == "write":
            if len(args) == 2 and isinstance(args[1], T):
                o.cells.append(t.trunc(t.concat_lsb([narrow(st, x) if x.op != "const" else x for x in t._pieces(args[1])]), 8))
                return one(None)
            a = st.mem[args[1].oid]
            if a.lazy:
                raise Unsupported("write of an unbounded array")
            if len(args) == 2:
                o.cells.extend(a.cells)
                return one(None)
            f, n = k(2), k(3)
            if f + n > len(a.cells) or f >= 1 << 31 or n >= 1 << 31:
                M.oblige(st, t.FALSE, "index", where)
                return []
            o.cells.extend(a.cells[f:f + n])
            return one(None)
        if name == "writeBytes":
            o.cells.extend(st.mem[args[1].oid].cells)
            return one(None)
        if name == "toByteArray":
            return one(M.new(st, JArr("B", list(o.cells))))
        if name == "size":
            return one(c(len(o.cells), 32))
        if name in ("flush", "close"):
            return one(None)
        if name == "reset":
            o.cells[:] = []
            return one(None)

    if short == "BigInteger":
        if name == "<init>" and desc == "(I[B)V":
            sg = k(1)
            o = st.mem[args[2].oid]
            if o.lazy:
                raise Unsupported("BigInteger of an unbounded array")
            v = t.concat(*o.cells) if len(o.cells) else c(0, 8)
            if sg != 1:
                raise Unsupported("BigInteger sign")
            return one(JBig(v))
        if name == "valueOf":
            v = args[0]
            s2 = t.sle(c(0, 64), v)
            if v.hi >= 1 << 63:
                M.oblige(st, s2, "model-nonnegative", where)
                v = t.trunc(v, 63)
            return one(JBig(v))
        if not isinstance(args[0], JBig):
            raise Unsupported(key)
        a = args[0].v
        b = args[1].v if len(args) > 1 and isinstance(args[1], JBig) else None
        if name in ("multiply", "add", "divide", "mod", "remainder", "divideAndRemainder", "equals", "compareTo") and b is not None:
            if name == "multiply":
                w = a.w + b.w
                if b.op == "const":
                    return one(JBig(t.linear(0, [(t.cval(b), t.zext(a, w))], w)))
                return one(JBig(t.mul(t.zext(a, w), t.zext(b, w))))
            if name == "add":
                w = max(a.w, b.w) + 1
                return one(JBig(t.linear(0, [(1, t.zext(a, w)), (1, t.zext(b, w))], w)))
            w = max(a.w, b.w)
            x, y = t.zext(a, w), t.zext(b, w)
            if name in ("divide", "mod", "remainder", "divideAndRemainder"):
                M.oblige(st, t.bnot(t.eq(y, c(0, w))), "div-by-zero", where)
                if name == "divide":
                    return one(JBig(t.udiv(x, y)))
                if name in ("mod", "remainder"):
                    return one(JBig(t.urem(x, y)))
                return one(M.new(st, JArr("L", [JBig(t.udiv(x, y)), JBig(t.urem(x, y))], elem="java/math/BigInteger")))
            if name == "equals":
                return boolean(t.eq(x, y))
            return one(t.ite(t.ult(x, y), c(-1, 32), t.zext(t.bnot(t.eq(x, y)), 32)))
        if name == "signum":
            return boolean(t.bnot(t.eq(a, c(0, a.w))))
        if name == "intValue":
            return one(t.trunc(a, 32) if a.w >= 32 else t.zext(a, 32))
        if name == "longValue":
            return one(t.trunc(a, 64) if a.w >= 64 else t.zext(a, 64))
        if name == "bitLength":
            # enough for branching on emptiness
            r = c(0, 32)
            for i in range(a.w):
                r = t.ite(t.eq(t.extract(a, i, i), t.TRUE), c(i + 1, 32), r)
            return one(r)
        if name in ("shiftLeft", "shiftRight"):
            n = k(1)
            if name == "shiftLeft":
                return one(JBig(t.concat(a, c(0, n)) if n else a))
            return one(JBig(t.extract(a, a.w - 1, n) if n < a.w else c(0, 1)))
        if name == "testBit":
            n = k(1)
            return boolean(t.eq(t.extract(a, n, n), t.TRUE) if n < a.w else t.FALSE)
        if name == "toByteArray":
            # minimal two's-complement length: fork over the byte count
            out = []
            nmax = a.w // 8 + 1
            W = nmax * 8
            x = t.zext(a, W)
            rest = st
            for n in range(1, nmax + 1):
                fit = t.ult(x, c(1 << (8 * n - 1), W)) if n < nmax else t.TRUE
                bs = M.branch(rest, fit)
                rest = None
                for taken, s2 in bs:
                    if taken:
                        out.append((s2, M.new(s2, JArr("B", [t.extract(x, 8 * i + 7, 8 * i) for i in range(n - 1, -1, -1)]))))
                    else:
                        rest = s2
                if rest is None:
                    break
            return out
    raise Unsupported("library method %s%s" % (key, desc))
