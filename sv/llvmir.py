"""Parser for the textual LLVM IR that clang 18 emits for the C++ sources."""
import re
from .engine import Unsupported, Cfg, liveness

TOK = re.compile(r'''\s*(
    c"(?:[^"\\]|\\.)*"
  | "(?:[^"\\]|\\.)*"
  | [%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)
  | \#\d+ | ![\w.]+ | !
  | \.\.\.
  | -?\d+\.\d+e[+-]\d+ | 0x[0-9A-Fa-f]+ | -?\d+
  | [A-Za-z_][\w.]*
  | [\[\]{}()<>,=*:|]
)''', re.X)


def tokenize(s):
    pos = 0
    out = []
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                break
            raise Unsupported("token: " + s[pos:pos + 40])
        out.append(m.group(1))
        pos = m.end()
    return out


class Ty:
    __slots__ = ("kind", "a", "b", "size", "align")

    def __repr__(self):
        return "%s(%s,%s)" % (self.kind, self.a, self.b)


_tycache = {}


def mkty(kind, a=None, b=None):
    k = (kind, a, b)
    t = _tycache.get(k)
    if t is None:
        t = Ty()
        t.kind, t.a, t.b = kind, a, b
        t.size = t.align = None
        _tycache[k] = t
    return t


PTR = mkty("ptr")
VOID = mkty("void")


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, s):
        x = self.next()
        if x != s:
            raise Unsupported("expected %s got %s in %s" % (s, x, " ".join(self.t)))

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def end(self):
        return self.i >= len(self.t)


PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone", "returned",
               "writeonly", "immarg", "inreg", "nest", "writable", "dead_on_unwind", "swiftself", "nofree", "noinline", "range", "allocptr", "allocalign"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "inalloca", "byref", "preallocated"}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}    # name -> (ty, init value or None, const flag)
        self.funcs = {}
        self.aliases = {}

    # ---- types
    def parse_type(self, k):
        x = k.next()
        if x == "void":
            ty = VOID
        elif x == "ptr":
            ty = PTR
        elif x[0] == "i" and x[1:].isdigit():
            ty = mkty("int", int(x[1:]))
        elif x == "[":
            n = int(k.next())
            k.expect("x")
            e = self.parse_type(k)
            k.expect("]")
            ty = mkty("array", n, e)
        elif x == "<":
            if k.peek() == "{":
                k.next()
                es = self._elems(k)
                k.expect(">")
                ty = mkty("struct", tuple(es), True)
            else:
                n = int(k.next())
                k.expect("x")
                e = self.parse_type(k)
                k.expect(">")
                ty = mkty("vector", n, e)
        elif x == "{":
            ty = mkty("struct", tuple(self._elems(k)), False)
        elif x[0] == "%":
            ty = mkty("named", x)
        elif x in ("float", "double", "metadata", "x86_fp80", "label", "token"):
            ty = mkty(x)
        else:
            raise Unsupported("type " + x)
        while k.peek() == "(" and False:
            pass
        return ty

    def _elems(self, k):
        es = []
        if k.accept("}"):
            return es
        while True:
            es.append(self.parse_type(k))
            if k.accept("}"):
                return es
            k.expect(",")

    def resolve(self, ty):
        if ty.kind == "named":
            r = self.types.get(ty.a)
            if r is None:
                raise Unsupported("type " + ty.a)
            return r
        return ty

    def layout(self, ty):
        """(size, align) in bytes"""
        if ty.size is not None:
            return ty.size, ty.align
        k = ty.kind
        if k == "int":
            w = ty.a
            b = 1
            while b * 8 < w:
                b *= 2
            s = (w + 7) // 8 if w <= 64 else b
            r = (b, min(b, 16))
        elif k == "ptr":
            r = (8, 8)
        elif k == "double":
            r = (8, 8)
        elif k == "float":
            r = (4, 4)
        elif k == "array":
            s, a = self.layout(ty.b)
            r = (s * ty.a, a)
        elif k == "vector":
            s, a = self.layout(ty.b)
            r = (s * ty.a, s * ty.a)
        elif k == "named":
            return self.layout(self.resolve(ty))
        elif k == "struct":
            off = 0
            al = 1
            for e in ty.a:
                s, a = self.layout(e)
                if ty.b:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        else:
            raise Unsupported("layout " + k)
        ty.size, ty.align = r
        return r

    def field_offset(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, e in enumerate(ty.a):
            s, a = self.layout(e)
            if ty.b:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise Unsupported("field")

    # ---- values: ('reg',name) ('int',v) ('null',) ('undef',) ('glob',name) ('zero',) ('agg',[(ty,v)]) ('str',bytes) ('gep',...)
    def parse_value(self, k, ty):
        x = k.next()
        if x[0] == "%":
            return ("reg", x)
        if x[0] == "@":
            return ("glob", x)
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x[0].isdigit() or x[0] == "-":
            if ty.kind in ("float", "double"):
                raise Unsupported("float constant")
            return ("int", int(x))
        if x[:2] == 'c"':
            return ("str", unescape(x[2:-1]))
        if x in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[x]
            es = []
            if x == "<" and k.peek() == "{":
                k.next()
                close = "}"
                packed = True
            else:
                packed = False
            if not k.accept(close):
                while True:
                    et = self.parse_type(k)
                    es.append((et, self.parse_value(k, et)))
                    if k.accept(close):
                        break
                    k.expect(",")
            if packed:
                k.expect(">")
            return ("agg", es)
        if x == "getelementptr":
            inb = False
            while k.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                inb = True
                k.next()
            k.expect("(")
            bt = self.parse_type(k)
            k.expect(",")
            ops = []
            while True:
                while k.peek() == "inrange":
                    k.next()
                ot = self.parse_type(k)
                ops.append((ot, self.parse_value(k, ot)))
                if k.accept(")"):
                    break
                k.expect(",")
            return ("cgep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast"):
            k.expect("(")
            ot = self.parse_type(k)
            v = self.parse_value(k, ot)
            k.expect("to")
            self.parse_type(k)
            k.expect(")")
            return ("ccast", x, ot, v)
        raise Unsupported("value " + x)

    def skip_attrs(self, k):
        byval = None
        while True:
            x = k.peek()
            if x in PARAM_ATTRS:
                k.next()
                if k.peek() == "(":
                    self._skip_paren(k)
            elif x in PARAM_ATTRS_ARG:
                k.next()
                if k.peek() == "(":
                    if x == "byval":
                        j = k.i
                        k.next()
                        byval = self.parse_type(k)
                        k.i = j
                    self._skip_paren(k)
                elif x == "align":
                    k.next()
            else:
                return byval

    def _skip_paren(self, k):
        d = 0
        while True:
            x = k.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
                if d == 0:
                    return


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []      # (ty, regname, byval)
        self.ret = None
        self.blocks = {}      # label -> list of instrs
        self.order = []
        self.entry = None
        self.retbool = False
        self._ready = False

    def prepare(self):
        if self._ready:
            return
        succs = {}
        self.abort_blocks = set()
        for lb in self.order:
            ins = self.blocks[lb]
            term = ins[-1]
            op = term[0]
            if op == "br":
                succs[lb] = [term[1]]
            elif op == "condbr":
                succs[lb] = [term[2], term[3]]
            elif op == "switch":
                succs[lb] = [term[3]] + [l for _, l in term[4]]
            elif op in ("ret", "unreachable"):
                succs[lb] = []
                if op == "unreachable":
                    self.abort_blocks.add(lb)
            else:
                raise Unsupported("terminator " + op)
        # blocks that only lead to an abort
        changed = True
        while changed:
            changed = False
            for lb in self.order:
                if lb not in self.abort_blocks and succs[lb] and all(s in self.abort_blocks for s in succs[lb]):
                    self.abort_blocks.add(lb)
                    changed = True
        self.succs = succs
        self.cfg = Cfg(self.entry, succs)
        use, define = {}, {}
        phiuse = {}
        for lb in self.cfg.blocks:
            u, d = set(), set()
            for ins in self.blocks[lb]:
                if ins[0] == "phi":
                    d.add(ins[1])
                    for v, pb in ins[3]:
                        if v[0] == "reg":
                            phiuse.setdefault(pb, set()).add(v[1])
                    continue
                for r in operands(ins):
                    if r not in d:
                        u.add(r)
                if ins[1] is not None and ins[0] not in ("br", "condbr", "switch", "ret", "store", "unreachable"):
                    d.add(ins[1])
            use[lb], define[lb] = u, d
        # phi results are computed on the edge: live-in of a block includes its phi destinations
        for lb in self.cfg.blocks:
            phis = {i[1] for i in self.blocks[lb] if i[0] == "phi"}
            define[lb] = define[lb] - phis
            use[lb] |= phis
        li = {}
        succ_live = {b: set(use[b]) for b in self.cfg.blocks}
        changed = True
        while changed:
            changed = False
            for b in self.cfg.blocks[::-1]:
                out = set(phiuse.get(b, ()))
                for s in succs[b]:
                    phis = {i[1] for i in self.blocks[s] if i[0] == "phi"}
                    out |= succ_live[s] - phis
                n = use[b] | (out - define[b])
                if n != succ_live[b]:
                    succ_live[b] = n
                    changed = True
        self._livein = succ_live
        self.sensitive = self._sensitive()
        self._ready = True

    def _sensitive(self):
        """registers that feed addresses or loop-exit conditions"""
        defs = {}
        for lb in self.order:
            for ins in self.blocks[lb]:
                if ins[0] not in ("br", "condbr", "switch", "ret", "store", "unreachable") and ins[1] is not None:
                    defs[ins[1]] = ins
        work = []
        for lb in self.order:
            for ins in self.blocks[lb]:
                if ins[0] == "gep":
                    for ty, v in ins[4]:
                        if v[0] == "reg":
                            work.append(v[1])
                elif ins[0] == "condbr" and ins[1][0] == "reg":
                    # loop exits only
                    for h, body in self.cfg.loops.items():
                        if lb in body and (ins[2] not in body or ins[3] not in body):
                            work.append(ins[1][1])
                            break
                elif ins[0] == "call":
                    # lengths and offsets passed on
                    for ty, v in ins[4]:
                        if v[0] == "reg" and ty.kind == "int" and ty.a >= 32:
                            work.append(v[1])
        sens = set()
        while work:
            r = work.pop()
            if r in sens:
                continue
            sens.add(r)
            ins = defs.get(r)
            if ins is None:
                continue
            if ins[0] in ("bin", "cast", "phi", "icmp", "select", "gep", "freeze"):
                work.extend(operands(ins))
        return sens

    def key(self, b, iters):
        return self.cfg.key(b, iters)

    def next_iters(self, b, nb, iters):
        return self.cfg.next_iters(b, nb, iters)

    def livein(self, b):
        return self._livein[b]


def _regs(*vs):
    out = []
    for v in vs:
        if v[0] == "reg":
            out.append(v[1])
    return out


def operands(ins):
    op = ins[0]
    if op == "bin":
        return _regs(ins[4], ins[5])
    if op == "icmp":
        return _regs(ins[4], ins[5])
    if op == "cast":
        return _regs(ins[4])
    if op == "load":
        return _regs(ins[3])
    if op == "store":
        return _regs(ins[3], ins[4])
    if op == "gep":
        return _regs(ins[3], *[v for _, v in ins[4]])
    if op == "phi":
        return _regs(*[v for v, _ in ins[3]])
    if op == "select":
        return _regs(ins[3], ins[4], ins[5])
    if op == "call":
        return _regs(*[v for _, v in ins[4]])
    if op == "condbr":
        return _regs(ins[1])
    if op == "switch":
        return _regs(ins[2])
    if op == "ret":
        return _regs(ins[2]) if ins[2] is not None else []
    if op == "extractvalue":
        return _regs(ins[3])
    if op == "insertvalue":
        return _regs(ins[3], ins[5])
    if op == "freeze":
        return _regs(ins[3])
    if op in ("extractelement",):
        return _regs(ins[3], ins[4])
    if op == "insertelement":
        return _regs(ins[3], ins[4], ins[5])
    if op == "shufflevector":
        return _regs(ins[3], ins[4])
    return []


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"}


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        line = lines[i]
        i += 1
        if not line or line[0] in ";!" or line.startswith(("source_filename", "target", "attributes", "module asm")):
            continue
        if line[0] == "%" and " = type " in line:
            name, rest = line.split(" = type ", 1)
            if rest.strip() == "opaque":
                continue
            m.types[name.strip()] = m.parse_type(Toks(tokenize(rest)))
            continue
        if line[0] == "@":
            name, rest = line.split(" = ", 1)
            if " alias " in " " + rest:
                tk = tokenize(rest)
                for x in tk[::-1]:
                    if x[0] == "@":
                        m.aliases[name] = x
                        break
                continue
            try:
                parse_global(m, name, rest)
            except Unsupported:
                if name.startswith("@llvm."):
                    continue
                raise
            continue
        if line.startswith("define"):
            body = []
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            i += 1
            f = parse_define(m, line, body)
            m.funcs[f.name] = f
            continue
        if line.startswith("declare") or line[0] == "$":
            continue
        raise Unsupported("line " + line[:60])
    return m


LINKAGE = {"private", "internal", "external", "linkonce_odr", "linkonce", "weak", "weak_odr", "common", "appending", "available_externally",
           "dso_local", "local_unnamed_addr", "unnamed_addr", "hidden", "protected", "default", "thread_local", "externally_initialized"}


def parse_global(m, name, rest):
    k = Toks(tokenize(rest))
    ext = False
    while k.peek() in LINKAGE or k.peek() == "comdat":
        if k.peek() == "external":
            ext = True
        if k.peek() == "thread_local":
            raise Unsupported("thread_local")
        k.next()
        if k.peek() == "(":
            m._skip_paren(k)
    kind = k.next()
    if kind not in ("global", "constant"):
        raise Unsupported("global kind " + kind)
    ty = m.parse_type(k)
    init = None
    if not ext and not k.end() and k.peek() != ",":
        init = m.parse_value(k, ty)
    m.globals[name] = (ty, init, kind == "constant")


def parse_define(m, line, body):
    k = Toks(tokenize(line[len("define"):]))
    while k.peek() in LINKAGE or k.peek() in ("noundef", "zeroext", "signext", "noalias", "nonnull", "mustprogress", "range") or k.peek() in PARAM_ATTRS_ARG:
        x = k.next()
        if k.peek() == "(":
            m._skip_paren(k)
        elif x == "align":
            k.next()
    ret = m.parse_type(k)
    f = Fn(k.next())
    f.ret = ret
    f.retbool = ret.kind == "int" and ret.a == 1
    k.expect("(")
    idx = 0
    if not k.accept(")"):
        while True:
            if k.peek() == "...":
                k.next()
                k.expect(")")
                break
            ty = m.parse_type(k)
            byval = m.skip_attrs(k)
            if k.peek() and k.peek()[0] == "%":
                reg = k.next()
            else:
                reg = "%%%d" % idx
            idx += 1
            f.params.append((ty, reg, byval))
            if k.accept(")"):
                break
            k.expect(",")
    cur = None
    label = "%entry" if False else None
    acc = []
    j = 0
    for raw in body:
        s = raw.strip()
        if not s or s[0] == ";":
            continue
        mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', raw)
        if mm:
            label = "%" + mm.group(1)
            cur = f.blocks[label] = []
            f.order.append(label)
            continue
        if cur is None:
            # unnamed entry block takes the next number
            label = "%%%d" % idx
            cur = f.blocks[label] = []
            f.order.append(label)
        acc.append(s)
        text = " ".join(acc)
        if text.startswith("switch") and not text.rstrip().endswith("]") and "]" not in text.split("[", 1)[-1]:
            continue
        acc = []
        ins = parse_instr(m, text)
        if ins is not None:
            cur.append(ins)
    f.entry = f.order[0]
    return f


def parse_instr(m, text):
    k = Toks(tokenize(text))
    dest = None
    if k.peek()[0] == "%" and k.peek(1) == "=":
        dest = k.next()
        k.next()
    op = k.next()
    if op in ("tail", "musttail", "notail"):
        op = k.next()
    if op in BINOPS:
        flags = set()
        while k.peek() in ("nuw", "nsw", "exact", "disjoint"):
            flags.add(k.next())
        ty = m.parse_type(k)
        a = m.parse_value(k, ty)
        k.expect(",")
        b = m.parse_value(k, ty)
        return ("bin", dest, op, ty, a, b, frozenset(flags))
    if op == "icmp":
        while k.peek() == "samesign":
            k.next()
        pred = k.next()
        ty = m.parse_type(k)
        a = m.parse_value(k, ty)
        k.expect(",")
        b = m.parse_value(k, ty)
        return ("icmp", dest, pred, ty, a, b)
    if op in CASTS:
        while k.peek() in ("nneg", "nuw", "nsw"):
            k.next()
        ty = m.parse_type(k)
        v = m.parse_value(k, ty)
        k.expect("to")
        ty2 = m.parse_type(k)
        return ("cast", dest, op, ty, v, ty2)
    if op == "load":
        if k.peek() in ("volatile", "atomic"):
            raise Unsupported("volatile/atomic load")
        ty = m.parse_type(k)
        k.expect(",")
        m.parse_type(k)
        p = m.parse_value(k, PTR)
        return ("load", dest, ty, p)
    if op == "store":
        if k.peek() in ("volatile", "atomic"):
            raise Unsupported("volatile/atomic store")
        ty = m.parse_type(k)
        v = m.parse_value(k, ty)
        k.expect(",")
        m.parse_type(k)
        p = m.parse_value(k, PTR)
        return ("store", None, ty, v, p)
    if op == "alloca":
        while k.peek() == "inalloca":
            k.next()
        ty = m.parse_type(k)
        cnt = ("int", 1)
        if k.accept(","):
            if k.peek() != "align":
                ct = m.parse_type(k)
                cnt = m.parse_value(k, ct)
        return ("alloca", dest, ty, cnt)
    if op == "getelementptr":
        flags = set()
        while k.peek() in ("inbounds", "nuw", "nusw"):
            flags.add(k.next())
        bt = m.parse_type(k)
        k.expect(",")
        m.parse_type(k)
        base = m.parse_value(k, PTR)
        ops = []
        while k.accept(","):
            if k.peek() and k.peek()[0] == "!":
                break
            ot = m.parse_type(k)
            ops.append((ot, m.parse_value(k, ot)))
        return ("gep", dest, bt, base, ops)
    if op == "phi":
        ty = m.parse_type(k)
        inc = []
        while True:
            k.expect("[")
            v = m.parse_value(k, ty)
            k.expect(",")
            lb = k.next()
            k.expect("]")
            inc.append((v, lb))
            if not k.accept(","):
                break
        return ("phi", dest, ty, inc)
    if op == "select":
        m.parse_type(k)
        c = m.parse_value(k, mkty("int", 1))
        k.expect(",")
        ty = m.parse_type(k)
        a = m.parse_value(k, ty)
        k.expect(",")
        m.parse_type(k)
        b = m.parse_value(k, ty)
        return ("select", dest, ty, c, a, b)
    if op in ("call", "invoke"):
        if op == "invoke":
            raise Unsupported("invoke")
        while k.peek() in ("fastcc", "ccc", "coldcc") or k.peek() in PARAM_ATTRS or k.peek() in PARAM_ATTRS_ARG:
            x = k.next()
            if k.peek() == "(":
                m._skip_paren(k)
            elif x == "align":
                k.next()
        ty = m.parse_type(k)
        if k.peek() == "(":
            m._skip_paren(k)   # function type of a variadic callee
        callee = k.next()
        if callee == "asm":
            raise Unsupported("inline asm")
        if callee[0] == "%":
            raise Unsupported("indirect call")
        k.expect("(")
        args = []
        if not k.accept(")"):
            while True:
                if k.peek() == "metadata":
                    return None
                at = m.parse_type(k)
                m.skip_attrs(k)
                args.append((at, m.parse_value(k, at)))
                if k.accept(")"):
                    break
                k.expect(",")
        if callee.startswith(("@llvm.dbg.", "@llvm.lifetime.", "@llvm.experimental.noalias", "@llvm.invariant")):
            return None
        return ("call", dest, ty, callee, args)
    if op == "br":
        if k.peek() == "label":
            k.next()
            return ("br", k.next())
        m.parse_type(k)
        c = m.parse_value(k, mkty("int", 1))
        k.expect(",")
        k.expect("label")
        a = k.next()
        k.expect(",")
        k.expect("label")
        b = k.next()
        return ("condbr", c, a, b)
    if op == "switch":
        ty = m.parse_type(k)
        v = m.parse_value(k, ty)
        k.expect(",")
        k.expect("label")
        d = k.next()
        k.expect("[")
        cases = []
        while not k.accept("]"):
            m.parse_type(k)
            c = int(k.next())
            k.expect(",")
            k.expect("label")
            cases.append((c, k.next()))
        return ("switch", ty, v, d, cases)
    if op == "ret":
        if k.peek() == "void":
            return ("ret", VOID, None)
        ty = m.parse_type(k)
        return ("ret", ty, m.parse_value(k, ty))
    if op == "unreachable":
        return ("unreachable", None)
    if op == "extractvalue":
        ty = m.parse_type(k)
        v = m.parse_value(k, ty)
        idx = []
        while k.accept(","):
            idx.append(int(k.next()))
        return ("extractvalue", dest, ty, v, idx)
    if op == "insertvalue":
        ty = m.parse_type(k)
        v = m.parse_value(k, ty)
        k.expect(",")
        ty2 = m.parse_type(k)
        e = m.parse_value(k, ty2)
        idx = []
        while k.accept(","):
            idx.append(int(k.next()))
        return ("insertvalue", dest, ty, v, ty2, e, idx)
    if op == "freeze":
        ty = m.parse_type(k)
        return ("freeze", dest, ty, m.parse_value(k, ty))
    raise Unsupported("instruction " + op)
