"""Symbolic execution of Java bytecode over the term layer."""
import glob, os, re
from . import term as t
from .term import T
from .engine import Machine, State, Unsupported, NoMerge, merge_values, peel, narrow, Obligation
from .jclass import ClassFile, parse_desc

c = t.const


class Ref:
    """reference to a mutable object or array; oid 0 is null"""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(self.oid)

    def __repr__(self):
        return "Ref(%d)" % self.oid


NULL = Ref(0)


class JExc:
    """an exception leaving a method"""
    __slots__ = ("cls",)
    is_exception = True

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, JExc) and o.cls == self.cls

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return "JExc(%s)" % self.cls


class JStr:
    """String: concrete length, 16-bit character terms"""
    __slots__ = ("ch",)

    def __init__(self, ch):
        self.ch = tuple(ch)

    def __eq__(self, o):
        return isinstance(o, JStr) and len(o.ch) == len(self.ch) and all(a is b for a, b in zip(o.ch, self.ch))

    def __hash__(self):
        return hash(self.ch)

    def merge_with(self, cond, o):
        if not isinstance(o, JStr) or len(o.ch) != len(self.ch):
            raise NoMerge()
        return JStr(t.ite(cond, a, b) for a, b in zip(self.ch, o.ch))

    def const(self):
        if all(x.op == "const" for x in self.ch):
            return "".join(chr(x.args[0]) for x in self.ch)
        return None


class JBig:
    """non-negative BigInteger"""
    __slots__ = ("v",)

    def __init__(self, v):
        # drop bits known to be zero
        k = max(1, v.hi.bit_length())
        self.v = t.trunc(v, k) if k < v.w else v

    def __eq__(self, o):
        return isinstance(o, JBig) and o.v is self.v

    def __hash__(self):
        return hash(self.v)

    def merge_with(self, cond, o):
        if not isinstance(o, JBig):
            raise NoMerge()
        w = max(self.v.w, o.v.w)
        return JBig(t.ite(cond, t.zext(self.v, w), t.zext(o.v, w)))


class JBox:
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __eq__(self, o):
        return isinstance(o, JBox) and o.kind == self.kind and o.v is self.v

    def __hash__(self):
        return hash((self.kind, self.v))

    def merge_with(self, cond, o):
        if not isinstance(o, JBox) or o.kind != self.kind:
            raise NoMerge()
        return JBox(self.kind, t.ite(cond, self.v, o.v))


class JClassRef:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, JClassRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


CELLW = {"Z": 8, "B": 8, "C": 16, "S": 16, "I": 32, "J": 64, "L": 0}


class JArr:
    __slots__ = ("kind", "cells", "lazy", "length", "frozen", "name", "elem")

    def __init__(self, kind, cells, lazy=None, length=None, name="", elem=None):
        self.kind = kind
        self.cells = cells
        self.lazy = lazy          # UF name: unbounded symbolic contents
        self.length = length if length is not None else c(len(cells), 32)
        self.frozen = False       # writes are reported
        self.name = name
        self.elem = elem

    def copy(self):
        a = JArr(self.kind, None if self.cells is None else list(self.cells), self.lazy, self.length, self.name, self.elem)
        a.frozen = self.frozen
        return a

    def merge(self, cond, o):
        if not isinstance(o, JArr) or o.kind != self.kind or self.lazy != o.lazy:
            raise NoMerge()
        if self.lazy:
            return self
        if len(self.cells) != len(o.cells):
            raise NoMerge()
        a = self.copy()
        a.cells = [x if x is y else merge_values(cond, x, y) for x, y in zip(self.cells, o.cells)]
        return a


class JBuf:
    """StringBuilder or ByteArrayOutputStream"""
    __slots__ = ("kind", "cells")

    def __init__(self, kind, cells=()):
        self.kind = kind
        self.cells = list(cells)

    def copy(self):
        return JBuf(self.kind, self.cells)

    def merge(self, cond, o):
        if not isinstance(o, JBuf) or o.kind != self.kind or len(o.cells) != len(self.cells):
            raise NoMerge()
        return JBuf(self.kind, [t.ite(cond, a, b) for a, b in zip(self.cells, o.cells)])


class JObj:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = fields or {}

    def copy(self):
        return JObj(self.cls, dict(self.fields))

    def merge(self, cond, o):
        if not isinstance(o, JObj) or o.cls != self.cls:
            raise NoMerge()
        n = JObj(self.cls)
        for k in self.fields.keys() | o.fields.keys():
            n.fields[k] = merge_values(cond, self.fields.get(k), o.fields.get(k))
        return n


SUPER = {
    "java/lang/IllegalArgumentException": "java/lang/RuntimeException",
    "java/lang/NumberFormatException": "java/lang/IllegalArgumentException",
    "java/lang/IllegalStateException": "java/lang/RuntimeException",
    "java/lang/NullPointerException": "java/lang/RuntimeException",
    "java/lang/ArithmeticException": "java/lang/RuntimeException",
    "java/lang/UnsupportedOperationException": "java/lang/RuntimeException",
    "java/lang/IndexOutOfBoundsException": "java/lang/RuntimeException",
    "java/lang/ArrayIndexOutOfBoundsException": "java/lang/IndexOutOfBoundsException",
    "java/lang/StringIndexOutOfBoundsException": "java/lang/IndexOutOfBoundsException",
    "java/lang/NegativeArraySizeException": "java/lang/RuntimeException",
    "java/lang/ClassCastException": "java/lang/RuntimeException",
    "java/lang/RuntimeException": "java/lang/Exception",
    "java/io/IOException": "java/lang/Exception",
    "java/io/UnsupportedEncodingException": "java/io/IOException",
    "java/lang/CloneNotSupportedException": "java/lang/Exception",
    "java/lang/Exception": "java/lang/Throwable",
    "java/lang/AssertionError": "java/lang/Error",
    "java/lang/Error": "java/lang/Throwable",
    "java/lang/Throwable": "java/lang/Object",
}


def is_exc(cls):
    return cls in SUPER


class Concretize(Exception):
    """the instruction needs a concrete value of this term"""

    def __init__(self, term, limit=300):
        self.term, self.limit = term, limit


def load_classes(d):
    res = {}
    for f in glob.glob(d + "/**/*.class", recursive=True):
        if "VerifDriver" in f:
            continue
        cf = ClassFile(open(f, "rb").read())
        res[cf.name] = cf
    return res


class JVMachine(Machine):
    def __init__(self, classes, **kw):
        Machine.__init__(self, **kw)
        self.classes = classes
        self.short = {}
        for n in classes:
            self.short[n.split("/")[-1]] = n
        self.stubs = {}           # "Class.method" or "Class.method(desc)ret"
        self.trace_calls = {}
        self.hooks = {}
        self.call_depth = 0
        self.base = State()
        self.in_init = False

    # ------------------------------------------------------------ classes
    def init_class(self, st, name):
        """runs the static initialiser (returns the state: initialisers are deterministic)"""
        key = "cls:" + name
        if key in st.mem or name not in self.classes:
            return st
        cf = self.classes[name]
        o = JObj(name)
        for f, (acc, desc, cv) in cf.fields.items():
            if acc & 8:
                if f == "$assertionsDisabled":
                    o.fields[f] = c(0, 32)
                elif cv is not None:
                    o.fields[f] = c(cv[1] & (1 << 64) - 1, 64 if desc == "J" else 32) if cv[0] in ("int", "long") else JStr(c(ord(x), 16) for x in cf.utf(cv[1]))
                else:
                    o.fields[f] = self.default(desc)
        st.mem[key] = o
        st.owned.add(key)
        if cf.super and cf.super in self.classes:
            st = self.init_class(st, cf.super)
        m = cf.methods.get(("<clinit>", "()V"))
        if m is not None:
            rets = self.run_method(m, [], st)
            if len(rets) != 1 or isinstance(rets[0][1], JExc):
                raise Unsupported("static initialiser of " + name)
            st = rets[0][0]
        return st

    def init_all(self, order=None):
        st = State()
        self.in_init = True
        for n in order or sorted(self.classes):
            st = self.init_class(st, n)
        self.in_init = False
        if any(o.cond is not t.TRUE for o in self.obligations):
            raise Unsupported("safety condition in a static initialiser")
        self.obligations = []
        self.obkinds = {}
        self.functions_used = set()
        self.base = st
        return st

    def start(self):
        return self.base.fork()

    @staticmethod
    def default(desc):
        if desc == "J":
            return c(0, 64)
        if desc[0] in "L[":
            return NULL
        return c(0, 32)

    def subclass(self, a, b):
        while a is not None:
            if a == b:
                return True
            if a in self.classes:
                if b in self.classes[a].interfaces:
                    return True
                a = self.classes[a].super
            else:
                a = SUPER.get(a)
        return b == "java/lang/Object"

    # ------------------------------------------------------------ heap
    def new(self, st, obj):
        oid = next(self.oids)
        st.mem[oid] = obj
        st.owned.add(oid)
        return Ref(oid)

    def blank(self, cls):
        o = JObj(cls)
        for f, (acc, desc, cv) in self.classes[cls].fields.items():
            if not acc & 8:
                o.fields[f] = self.default(desc)
        return o

    def construct(self, st, cls, desc, args):
        """new cls(args): list of (state, reference or exception)"""
        r = self.new(st, self.blank(self.short[cls]))
        return [(s, rv if isinstance(rv, JExc) else r) for s, rv in self.call(cls, "<init>", [r] + args, st, desc=desc)]

    def ints(self, st, terms, name=""):
        return self.new(st, JArr("I", list(terms), name=name))

    def bytes(self, st, terms, name=""):
        return self.new(st, JArr("B", list(terms), name=name))

    def lazy_bytes(self, st, name, length):
        return self.new(st, JArr("B", None, lazy=name, length=length, name=name))

    @staticmethod
    def string(s):
        return JStr(c(ord(x), 16) if isinstance(x, str) else x for x in s)

    def words(self, st, term):
        """little-endian int words of a wide term"""
        return [t.extract(term, 32 * i + 31, 32 * i) for i in range(term.w // 32)]

    def arr(self, st, r):
        o = st.mem.get(r.oid)
        if not isinstance(o, JArr):
            raise Unsupported("not an array")
        return o

    # ------------------------------------------------------------ running
    def find(self, cls, name, desc):
        cls0 = cls
        while cls is not None and cls in self.classes:
            m = self.classes[cls].methods.get((name, desc))
            if m is not None and m.code is not None:
                return m
            cls = self.classes[cls].super
        return None

    def call(self, cls, name, args, st, desc=None):
        """harness entry: class by simple name; the descriptor may be omitted when unambiguous"""
        full = self.short.get(cls, cls)
        if full not in self.classes:
            raise Unsupported("no class " + cls)
        ms = [m for (n, d), m in self.classes[full].methods.items() if n == name and (desc is None or d == desc) and m.code]
        if len(ms) > 1:
            ms = [m for m in ms if len(m.args) + (0 if m.static else 1) == len(args)]
        if len(ms) != 1:
            raise Unsupported("%d methods %s.%s%s" % (len(ms), cls, name, desc or ""))
        if self.call_depth == 0:
            self.steps = 0
        rets = self.run_method(ms[0], args, st)
        if self.call_depth == 0 and not self.in_init:
            for s, _ in rets:
                self.check_constants(s, name)
        return rets

    def check_constants(self, s, where):
        """no call leaves an array held by a static final field changed"""
        for key, o in self.base.mem.items():
            if isinstance(key, str) and key.startswith("cls:"):
                for f, v in o.fields.items():
                    if isinstance(v, Ref) and v.oid in self.base.mem:
                        a, b = s.mem.get(v.oid), self.base.mem[v.oid]
                        if a is not b and isinstance(b, JArr) and isinstance(a, JArr) and a.cells != b.cells:
                            self.oblige(s, t.FALSE, "constant modified", where + " " + f)

    def run_method(self, m, args, st):
        m.prepare()
        self.call_depth += 1
        if self.call_depth > 200:
            raise Unsupported("call depth")
        self.functions_used.add("java:" + m.label)
        regs = {"S": ()}
        i = 0
        for a in args:
            regs[i] = a
            i += 2 if isinstance(a, T) and a.w == 64 else 1
        r = self.run_activation(m, regs, st)
        self.call_depth -= 1
        return r

    def invoke(self, fn, pc, op, ref, args, st):
        cls, name, desc = ref
        short = cls.split("/")[-1]
        for k in ("%s.%s%s" % (short, name, desc), "%s.%s" % (short, name)):
            h = self.stubs.get(k)
            if h is not None:
                r = h(self, st, args)
                if r is not NotImplemented:
                    self.trace_calls[k] = self.trace_calls.get(k, 0) + 1
                    if isinstance(r, list):
                        return r
                    return [(st, r)]
        if cls in self.classes:
            if op == "invokestatic":
                st = self.init_class(st, cls)
            m = self.find(cls, name, desc)
            if m is None:
                return self.library(fn, pc, "java/lang/Object" if name in ("<init>", "hashCode", "getClass") else cls, name, desc, args, st)
            return self.run_method(m, args, st)
        if op == "invokevirtual" or op == "invokeinterface":
            # dispatch on the receiver's class
            if args and isinstance(args[0], Ref) and args[0].oid and isinstance(st.mem.get(args[0].oid), JObj):
                rc = st.mem[args[0].oid].cls
                m = self.find(rc, name, desc)
                if m is not None:
                    return self.run_method(m, args, st)
        return self.library(fn, pc, cls, name, desc, args, st)

    def where(self, fn, pc):
        return "%s:%d" % (fn.label, fn.line(pc))

    def nonnull(self, fn, pc, st, r):
        if isinstance(r, Ref) and r.oid == 0:
            return False
        return True

    def concretize(self, x, limit=300):
        if x.op == "const":
            return t.cval(x)
        raise Concretize(x, limit)

    def split(self, st, term, limit):
        """feasible values of a term: [(value, state)]"""
        if term.hi - term.lo >= limit:
            raise Unsupported("symbolic size or index with %d values" % (term.hi - term.lo + 1))
        res = []
        rest = st
        for v in range(term.lo, term.hi + 1):
            bs = self.branch(rest, t.eq(term, c(v, term.w)))
            rest = None
            for taken, s in bs:
                if taken:
                    res.append((v, s))
                else:
                    rest = s
            if rest is None:
                break
        return res

    # ------------------------------------------------------------ arrays
    def aload(self, fn, pc, st, a, idx):
        o = self.arr(st, a)
        self.oblige(st, t.ult(idx, o.length), "index", self.where(fn, pc))
        if idx.op != "const":
            h = self.hooks.get("index")
            if h:
                h(self, fn, pc, st, idx)
        if o.lazy:
            v = t.uf("mem_" + o.lazy, CELLW[o.kind], [idx])
        else:
            n = len(o.cells)
            if idx.op == "const":
                k = t.cval(idx)
                if k >= n:
                    return None
                v = o.cells[k]
            else:
                lo, hi = idx.lo, min(idx.hi, n - 1)
                if hi < lo:
                    return None
                v = o.cells[hi]
                for k in range(hi - 1, lo - 1, -1):
                    v = merge_values(t.eq(idx, c(k, 32)), o.cells[k], v)
        if isinstance(v, T) and v.op == "ite":
            v = peel(st, v)
        if o.kind == "B" and v.op in ("var", "extract"):
            v = narrow(st, v)
        if o.kind in "BZS":
            return t.sext(v, 32)
        if o.kind == "C":
            return t.zext(v, 32)
        return v

    def astore(self, fn, pc, st, a, idx, v):
        o = self.arr(st, a)
        self.oblige(st, t.ult(idx, o.length), "index", self.where(fn, pc))
        if o.frozen:
            self.oblige(st, t.FALSE, "const-write", self.where(fn, pc))
        if o.lazy:
            raise Unsupported("write to an unbounded array")
        w = CELLW[o.kind]
        if w and v.w > w:
            v = t.trunc(v, w)
        o = st.wobj(a.oid)
        if idx.op == "const":
            k = t.cval(idx)
            if k >= len(o.cells):
                return False
            o.cells[k] = v
            return True
        h = self.hooks.get("index")
        if h:
            h(self, fn, pc, st, idx)
        for k in range(idx.lo, min(idx.hi, len(o.cells) - 1) + 1):
            o.cells[k] = merge_values(t.eq(idx, c(k, 32)), v, o.cells[k])
        return True

    def newarr(self, st, kind, n, elem=None):
        z = NULL if kind == "L" else c(0, CELLW[kind])
        return self.new(st, JArr(kind, [z] * n, elem=elem))

    def cell(self, o, i):
        """element i (a term) of an array, raw width, no bounds condition"""
        if o.lazy:
            return t.uf("mem_" + o.lazy, CELLW[o.kind], [i])
        if i.op == "const":
            return o.cells[t.cval(i)]
        lo, hi = i.lo, min(i.hi, len(o.cells) - 1)
        if hi < lo:
            return c(0, CELLW[o.kind])
        v = o.cells[hi]
        for k in range(hi - 1, lo - 1, -1):
            v = merge_values(t.eq(i, c(k, 32)), o.cells[k], v)
        return v

    def arraycopy(self, where, st, src, sp, dst, dp, n):
        so, do = self.arr(st, src), self.arr(st, dst)
        if so.kind != do.kind:
            raise Unsupported("arraycopy of different kinds")
        z = c(0, 32)

        def fits(pos, ln):
            s = t.add(t.sext(pos, 34), t.sext(n, 34))
            return t.band(t.sle(z, pos), t.sle(s, t.zext(ln, 34)))
        self.oblige(st, t.band(t.sle(z, n), fits(sp, so.length), fits(dp, do.length)), "arraycopy-bounds", where)
        if do.lazy:
            raise Unsupported("arraycopy into an unbounded array")
        if do.frozen:
            self.oblige(st, t.FALSE, "const-write", where)
        for x in (sp, dp, n):
            if x.op != "const" and self.hooks.get("index"):
                self.hooks["index"](self, None, where, st, x)
        do = st.wobj(dst.oid)
        size = len(do.cells)
        if n.op == "const" and dp.op == "const":
            ln, d0 = t.cval(n), t.cval(dp)
            if ln > 1 << 31 or d0 + ln > size:
                return False
            if so.lazy is None and sp.op == "const" and t.cval(sp) + ln > len(so.cells):
                return False
            new = [self.cell(so, t.add(sp, c(k, 32))) for k in range(ln)]
            do.cells[d0:d0 + ln] = new
            return True
        old = list(do.cells)
        for k in range(dp.lo if dp.lo < size else 0, size):
            rel = t.sub(c(k, 32), dp)
            cond = t.ult(rel, n) if dp.op == "const" and t.cval(dp) <= k else t.band(t.ule(dp, c(k, 32)), t.ult(rel, n))
            if cond is t.FALSE:
                continue
            do.cells[k] = merge_values(cond, self.cell(so, t.add(sp, rel)), old[k])
        return True

    # ------------------------------------------------------------ blocks
    def exec_block(self, fn, block, regs, st):
        work = [(0, dict(regs), st)]
        instrs = fn.blocks[block]
        outs = []
        while work:
            idx, regs, st = work.pop()
            stack = list(regs["S"])
            n = len(instrs)
            while idx < n:
                pc, op, arg = instrs[idx]
                self.steps += 1
                if self.steps > self.step_limit:
                    raise Unsupported("step limit")
                if self.deadline and not self.steps & 1023:
                    import time
                    if time.time() > self.deadline:
                        raise Unsupported("time limit of symbolic execution")
                saved = list(stack)
                sregs = dict(regs) if op[:6] == "invoke" else None
                try:
                    r = self.step(fn, block, pc, op, arg, regs, stack, st)
                except Concretize as e:
                    # split on the values of the term, then redo the instruction with the value substituted
                    stack[:] = saved
                    vals = self.split(st, e.term, e.limit)
                    rep = {}
                    for v, s2 in vals:
                        kc = c(v, e.term.w)
                        regs2 = {k: (kc if x is e.term else x) for k, x in (sregs or regs).items() if k != "S"}
                        regs2["S"] = tuple(self.subst(e.term, kc, x) for x in saved)
                        if all(x is y for x, y in zip(regs2["S"], saved)):
                            s2.data[("conc", e.term)] = kc
                        work.append((idx, regs2, s2))
                    break
                idx += 1
                if r is None:
                    continue
                k = r[0]
                if k == "dead":
                    break
                if k == "goto":
                    outs.extend(("br", b, dict(regs, S=tuple(stack)), s2) for b, s2 in r[1])
                    break
                if k == "ret":
                    outs.append(("ret", st, r[1]))
                    break
                if k == "throw":
                    self.throw(fn, pc, regs, st, r[1], outs)
                    break
                if k == "calls":
                    cont = []
                    for s2, rv in r[1]:
                        if isinstance(rv, JExc):
                            self.throw(fn, pc, regs, s2, rv.cls, outs)
                        else:
                            cont.append((s2, rv))
                    if not cont:
                        break
                    void = r[2] == "V"
                    for s2, rv in cont[1:]:
                        work.append((idx, dict(regs, S=tuple(stack if void else stack + [rv])), s2))
                    st, rv = cont[0]
                    if not void:
                        stack.append(rv)
                    continue
                raise Unsupported(k)
        return outs

    @staticmethod
    def subst(term, kc, x):
        if x is term:
            return kc
        return x

    def throw(self, fn, pc, regs, st, cls, outs):
        if cls == "java/lang/AssertionError":
            self.aborts.append((st.pc, self.where(fn, pc)))
            self.oblige(st, t.FALSE, "assert", self.where(fn, pc))
            return
        for s, e, h, ct in fn.handlers:
            if s <= pc < e and (ct is None or self.subclass(cls, ct)):
                r = self.new(st, JObj(cls))
                outs.append(("br", h, dict(regs, S=(r,)), st))
                return
        outs.append(("ret", st, JExc(cls)))

    def cond(self, op, stack):
        if op in ("ifeq", "ifne", "iflt", "ifge", "ifgt", "ifle"):
            a, b = stack.pop(), c(0, 32)
            k = op[2:]
        elif op.startswith("if_icmp"):
            b, a = stack.pop(), stack.pop()
            k = op[7:]
        else:
            if op in ("ifnull", "ifnonnull"):
                b, a = NULL, stack.pop()
                k = "eq" if op == "ifnull" else "ne"
            else:
                b, a = stack.pop(), stack.pop()
                k = op[7:]
            if isinstance(a, Ref) and isinstance(b, Ref):
                r = t.boolc(a.oid == b.oid)
            elif isinstance(a, Ref) or isinstance(b, Ref):
                r = t.FALSE       # null, or an object against a value of a library class
            else:
                raise Unsupported("reference comparison of values")
            return r if k == "eq" else t.bnot(r)
        if k == "eq":
            return t.eq(a, b)
        if k == "ne":
            return t.bnot(t.eq(a, b))
        if k == "lt":
            return t.slt(a, b)
        if k == "ge":
            return t.bnot(t.slt(a, b))
        if k == "gt":
            return t.slt(b, a)
        return t.bnot(t.slt(b, a))

    def npe(self, fn, pc, st, what="null"):
        self.oblige(st, t.FALSE, what, self.where(fn, pc))
        return ("dead",)

    def step(self, fn, block, pc, op, arg, regs, stack, st):
        push = stack.append
        pop = stack.pop
        if op in ("iload", "lload", "aload"):
            if arg not in regs or regs[arg] is None:
                raise Unsupported("undefined local")
            v = regs[arg]
            push(peel(st, v) if isinstance(v, T) and v.op == "ite" else v)
        elif op in ("istore", "lstore", "astore"):
            regs[arg] = pop()
        elif op == "iconst":
            push(c(arg, 32))
        elif op == "lconst":
            push(c(arg, 64))
        elif op == "sconst":
            push(self.string(arg))
        elif op == "classconst":
            push(JClassRef(arg))
        elif op == "aconst_null":
            push(NULL)
        elif op in ("iaload", "laload", "baload", "caload", "saload", "aaload"):
            i, a = pop(), pop()
            if not self.nonnull(fn, pc, st, a):
                return self.npe(fn, pc, st)
            v = self.aload(fn, pc, st, a, i)
            if v is None:
                return ("dead",)
            push(v)
        elif op in ("iastore", "lastore", "bastore", "castore", "sastore", "aastore"):
            v, i, a = pop(), pop(), pop()
            if not self.nonnull(fn, pc, st, a):
                return self.npe(fn, pc, st)
            if not self.astore(fn, pc, st, a, i, v):
                return ("dead",)
        elif op == "pop":
            pop()
        elif op == "pop2":
            if pop().w != 64:
                pop()
        elif op == "dup":
            push(stack[-1])
        elif op == "dup_x1":
            a, b = pop(), pop()
            stack.extend([a, b, a])
        elif op == "dup_x2":
            a, b = pop(), pop()
            if isinstance(b, T) and b.w == 64:
                stack.extend([a, b, a])
            else:
                d = pop()
                stack.extend([a, d, b, a])
        elif op == "dup2":
            a = stack[-1]
            if isinstance(a, T) and a.w == 64:
                push(a)
            else:
                stack.extend(stack[-2:])
        elif op == "dup2_x1":
            a = pop()
            if isinstance(a, T) and a.w == 64:
                b = pop()
                stack.extend([a, b, a])
            else:
                b, d = pop(), pop()
                stack.extend([b, a, d, b, a])
        elif op == "dup2_x2":
            a = pop()
            if isinstance(a, T) and a.w == 64:
                b = pop()
                if isinstance(b, T) and b.w == 64:
                    stack.extend([a, b, a])
                else:
                    d = pop()
                    stack.extend([a, d, b, a])
            else:
                raise Unsupported("dup2_x2")
        elif op == "swap":
            a, b = pop(), pop()
            stack.extend([a, b])
        elif op in ("iadd", "ladd"):
            b, a = pop(), pop()
            push(t.add(a, b))
        elif op in ("isub", "lsub"):
            b, a = pop(), pop()
            push(t.sub(a, b))
        elif op in ("imul", "lmul"):
            b, a = pop(), pop()
            push(t.mul(a, b))
        elif op in ("idiv", "ldiv", "irem", "lrem"):
            b, a = pop(), pop()
            self.oblige(st, t.bnot(t.eq(b, c(0, b.w))), "div-by-zero", self.where(fn, pc))
            if b.op == "const" and t.cval(b) == 0:
                return ("dead",)
            h = self.hooks.get("div")
            if h:
                h(self, fn, pc, st, a, b)
            s = 1 << (a.w - 1)
            if a.hi < s and b.hi < s:
                push((t.udiv if op[1:] == "div" else t.urem)(a, b))
            else:
                push((t.sdiv if op[1:] == "div" else t.srem)(a, b))
        elif op in ("ineg", "lneg"):
            push(t.neg(pop()))
        elif op in ("ishl", "lshl", "ishr", "lshr", "iushr", "lushr"):
            s, a = pop(), pop()
            m = t.band(s, c(a.w - 1, 32))
            m = t.zext(m, 64) if a.w == 64 else m
            push({"shl": t.shl, "shr": t.ashr, "ushr": t.lshr}[op[1:]](a, m))
        elif op in ("iand", "land"):
            b, a = pop(), pop()
            push(t.band(a, b))
        elif op in ("ior", "lor"):
            b, a = pop(), pop()
            push(t.bor(a, b))
        elif op in ("ixor", "lxor"):
            b, a = pop(), pop()
            push(t.bxor(a, b))
        elif op == "iinc":
            regs[arg[0]] = t.add(regs[arg[0]], c(arg[1], 32))
        elif op == "i2l":
            push(t.sext(pop(), 64))
        elif op == "l2i":
            push(t.trunc(pop(), 32))
        elif op == "i2b":
            push(t.sext(t.trunc(pop(), 8), 32))
        elif op == "i2c":
            push(t.zext(t.trunc(pop(), 16), 32))
        elif op == "i2s":
            push(t.sext(t.trunc(pop(), 16), 32))
        elif op == "lcmp":
            b, a = pop(), pop()
            push(t.ite(t.slt(a, b), c(-1, 32), t.zext(t.bnot(t.eq(a, b)), 32)))
        elif op == "goto":
            return ("goto", [(arg, st)])
        elif op in ("ifeq", "ifne", "iflt", "ifge", "ifgt", "ifle", "ifnull", "ifnonnull") or op.startswith("if_"):
            cd = self.cond(op, stack)
            a, b = arg
            if a == b:
                return ("goto", [(a, st)])
            if cd.op == "const":
                return ("goto", [(a if t.cval(cd) else b, st)])
            ab, bb = a in fn.abort_blocks, b in fn.abort_blocks
            if self.lazy_asserts and ab != bb:
                good = t.bnot(cd) if ab else cd
                self.oblige(st, good, "assert", self.where(fn, pc))
                return ("goto", [(b if ab else a, st)])
            h = self.hooks.get("branch")
            if h:
                h(self, fn, pc, st, cd)
            return ("goto", [(a if taken else b, s2) for taken, s2 in self.branch(st, cd)])
        elif op == "switch":
            v = pop()
            if v.op != "const" and self.hooks.get("branch"):
                self.hooks["branch"](self, fn, pc, st, v)
            res = []
            rest = st
            for cv, tgt in arg[1]:
                bs = self.branch(rest, t.eq(v, c(cv, 32)))
                rest = None
                for taken, s2 in bs:
                    if taken:
                        res.append((tgt, s2))
                    else:
                        rest = s2
                if rest is None:
                    break
            if rest is not None:
                res.append((arg[0], rest))
            return ("goto", res)
        elif op in ("ireturn", "lreturn", "areturn"):
            return ("ret", pop())
        elif op == "return":
            return ("ret", None)
        elif op == "getstatic":
            cls, name, desc = arg
            push(self.static(st, cls, name))
        elif op == "putstatic":
            cls, name, desc = arg
            v = pop()
            self.init_class(st, cls)
            st.wobj("cls:" + cls).fields[name] = v
            if not self.in_init:
                raise Unsupported("static field written outside an initialiser")
        elif op == "getfield":
            r = pop()
            if not self.nonnull(fn, pc, st, r):
                return self.npe(fn, pc, st)
            push(st.mem[r.oid].fields[arg[1]])
        elif op == "putfield":
            v, r = pop(), pop()
            if not self.nonnull(fn, pc, st, r):
                return self.npe(fn, pc, st)
            st.wobj(r.oid).fields[arg[1]] = v
        elif op.startswith("invoke"):
            if op == "invokedynamic":
                raise Unsupported("invokedynamic")
            args, ret = parse_desc(arg[2])
            av = []
            for _ in args:
                av.append(pop())
            if op != "invokestatic":
                av.append(pop())
            av.reverse()
            if op != "invokestatic" and isinstance(av[0], Ref) and av[0].oid == 0:
                return self.npe(fn, pc, st)
            conc = [st.data.get(("conc", a)) if isinstance(a, T) else None for a in av]
            av = [k if k is not None else a for a, k in zip(av, conc)]
            res = self.invoke(fn, pc, op, arg, av, st)
            if arg[1] == "<init>":
                # immutable values under construction: replace the placeholder everywhere
                for s2, rv in res:
                    if isinstance(rv, (JStr, JBig)):
                        ph = av[0]
                        for k, x in regs.items():
                            if k != "S" and x == ph:
                                regs[k] = rv
                        stack[:] = [rv if isinstance(x, Ref) and x == ph else x for x in stack]
            return ("calls", res, ret)
        elif op == "new":
            if arg in ("java/lang/StringBuilder", "java/lang/StringBuffer"):
                push(self.new(st, JBuf("C")))
            elif arg == "java/io/ByteArrayOutputStream":
                push(self.new(st, JBuf("B")))
            else:
                o = JObj(arg)
                if arg in self.classes:
                    o = self.blank(arg)
                elif not is_exc(arg) and arg not in ("java/lang/String", "java/math/BigInteger", "java/lang/Object"):
                    raise Unsupported("new " + arg)
                push(self.new(st, o))
        elif op == "newarray" or op == "anewarray":
            n = pop()
            if n.op != "const":
                self.oblige(st, t.sle(c(0, 32), n), "negative-size", self.where(fn, pc))
                push(n)
                self.concretize(n)
            k = t.cval(n)
            if k >= 1 << 31:
                self.oblige(st, t.FALSE, "negative-size", self.where(fn, pc))
                return ("dead",)
            push(self.newarr(st, arg if op == "newarray" else "L", k, arg))
        elif op == "arraylength":
            a = pop()
            if not self.nonnull(fn, pc, st, a):
                return self.npe(fn, pc, st)
            push(self.arr(st, a).length)
        elif op == "athrow":
            r = pop()
            if not self.nonnull(fn, pc, st, r):
                return self.npe(fn, pc, st)
            return ("throw", st.mem[r.oid].cls)
        elif op in ("checkcast", "instanceof"):
            r = pop()
            if isinstance(r, Ref) and r.oid == 0:
                push(r if op == "checkcast" else c(0, 32))
                return None
            ok = self.isinst(st, r, arg)
            if op == "instanceof":
                push(c(int(ok), 32))
            else:
                if not ok:
                    self.oblige(st, t.FALSE, "class-cast", self.where(fn, pc))
                    return ("dead",)
                push(r)
        elif op == "nop":
            pass
        elif op in ("monitorenter", "monitorexit"):
            pop()
        else:
            raise Unsupported("bytecode " + op)
        return None

    def isinst(self, st, r, cls):
        if cls == "java/lang/Object":
            return True
        if isinstance(r, JStr):
            return cls in ("java/lang/String", "java/lang/CharSequence", "java/lang/Comparable")
        if isinstance(r, JBig):
            return cls in ("java/math/BigInteger", "java/lang/Number")
        if isinstance(r, JBox):
            return cls in ("java/lang/" + r.kind, "java/lang/Number")
        o = st.mem[r.oid]
        if isinstance(o, JArr):
            if o.kind == "L":
                return cls == "[L%s;" % o.elem
            return cls == "[" + o.kind
        if isinstance(o, JBuf):
            return cls in ("java/lang/StringBuilder", "java/io/ByteArrayOutputStream", "java/io/OutputStream")
        return self.subclass(o.cls, cls)

    def static(self, st, cls, name):
        if cls not in self.classes:
            if cls == "java/math/BigInteger" and name in ("ZERO", "ONE", "TWO", "TEN"):
                return JBig(c({"ZERO": 0, "ONE": 1, "TWO": 2, "TEN": 10}[name], 8))
            if cls == "java/nio/charset/StandardCharsets":
                return JClassRef("charset:" + name)
            if cls == "java/util/Locale":
                return JClassRef("locale")
            raise Unsupported("static field %s.%s" % (cls, name))
        cl = cls
        while cl in self.classes and name not in self.classes[cl].fields:
            cl = self.classes[cl].super
        s2 = self.init_class(st, cl)
        if s2 is not st:
            st.mem.update(s2.mem)
        return st.mem["cls:" + cl].fields[name]

    # ------------------------------------------------------------ library
    def library(self, fn, pc, cls, name, desc, args, st):
        from . import jlib
        return jlib.call(self, fn, pc, cls, name, desc, args, st)


class Java:
    """one machine over the compiled classes"""

    _cache = {}

    def __init__(self, ctx, feasibility=True, max_states=48, order=None):
        d = ctx.java_dir()
        if d not in Java._cache:
            Java._cache[d] = load_classes(d)
        self.mach = JVMachine(Java._cache[d], feasibility=feasibility, max_states=max_states)
        self.mach.init_all(order)

    def start(self):
        return self.mach.start()
