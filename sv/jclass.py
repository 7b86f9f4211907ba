"""Java class-file parsing and bytecode control-flow graphs."""
import struct
from .engine import Cfg, liveness

OPS = """nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1
bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3 fload_0 fload_1 fload_2 fload_3
dload_0 dload_1 dload_2 dload_3 aload_0 aload_1 aload_2 aload_3 iaload laload faload daload aaload baload caload saload istore lstore fstore dstore astore
istore_0 istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3 dstore_0 dstore_1 dstore_2 dstore_3
astore_0 astore_1 astore_2 astore_3 iastore lastore fastore dastore aastore bastore castore sastore pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap
iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr
iand land ior lor ixor lxor iinc i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg
ifeq ifne iflt ifge ifgt ifle if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch
ireturn lreturn freturn dreturn areturn return getstatic putstatic getfield putfield invokevirtual invokespecial invokestatic invokeinterface invokedynamic
new newarray anewarray arraylength athrow checkcast instanceof monitorenter monitorexit wide multianewarray ifnull ifnonnull goto_w jsr_w""".split()

BRANCH = {"ifeq", "ifne", "iflt", "ifge", "ifgt", "ifle", "if_icmpeq", "if_icmpne", "if_icmplt", "if_icmpge", "if_icmpgt", "if_icmple",
          "if_acmpeq", "if_acmpne", "ifnull", "ifnonnull"}
ENDS = {"ireturn", "lreturn", "freturn", "dreturn", "areturn", "return", "athrow"}
PRIM = {4: "Z", 5: "C", 6: "F", 7: "D", 8: "B", 9: "S", 10: "I", 11: "J"}


class ClassFile:
    def __init__(self, data):
        self.d = data
        self.p = 8
        n = self.u2()
        cp = [None] * n
        i = 1
        while i < n:
            tag = self.u1()
            if tag == 1:
                ln = self.u2()
                cp[i] = ("utf8", data[self.p:self.p + ln].decode("utf-8", "surrogatepass"))
                self.p += ln
            elif tag == 3:
                cp[i] = ("int", struct.unpack(">i", self.take(4))[0])
            elif tag == 4:
                cp[i] = ("float", self.take(4))
            elif tag == 5:
                cp[i] = ("long", struct.unpack(">q", self.take(8))[0])
                i += 1
            elif tag == 6:
                cp[i] = ("double", self.take(8))
                i += 1
            elif tag in (7, 8, 16, 19, 20):
                cp[i] = ({7: "class", 8: "string"}.get(tag, "other"), self.u2())
            elif tag in (9, 10, 11, 12, 17, 18):
                cp[i] = ({9: "ref", 10: "ref", 11: "ref", 12: "nt"}.get(tag, "indy"), self.u2(), self.u2())
            elif tag == 15:
                cp[i] = ("mh", self.u1(), self.u2())
            else:
                raise ValueError("constant pool tag %d" % tag)
            i += 1
        self.cp = cp
        self.access = self.u2()
        self.name = self.cls(self.u2())
        sup = self.u2()
        self.super = self.cls(sup) if sup else None
        self.interfaces = [self.cls(self.u2()) for _ in range(self.u2())]
        self.fields = {}
        for _ in range(self.u2()):
            acc, name, desc = self.u2(), self.utf(self.u2()), self.utf(self.u2())
            cv = None
            for an, ad in self.attrs():
                if an == "ConstantValue":
                    cv = self.cp[struct.unpack(">H", ad)[0]]
            self.fields[name] = (acc, desc, cv)
        self.methods = {}
        for _ in range(self.u2()):
            acc, name, desc = self.u2(), self.utf(self.u2()), self.utf(self.u2())
            code = None
            for an, ad in self.attrs():
                if an == "Code":
                    code = ad
            self.methods[(name, desc)] = Method(self, acc, name, desc, code)

    def take(self, n):
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u1(self):
        return self.take(1)[0]

    def u2(self):
        return struct.unpack(">H", self.take(2))[0]

    def u4(self):
        return struct.unpack(">I", self.take(4))[0]

    def utf(self, i):
        return self.cp[i][1]

    def cls(self, i):
        return self.utf(self.cp[i][1])

    def ref(self, i):
        _, c, nt = self.cp[i]
        _, n, d = self.cp[nt]
        return self.cls(c), self.utf(n), self.utf(d)

    def attrs(self):
        res = []
        for _ in range(self.u2()):
            n = self.utf(self.u2())
            ln = self.u4()
            res.append((n, self.take(ln)))
        return res


def parse_desc(desc):
    """argument types and return type"""
    i = 1
    args = []
    while desc[i] != ")":
        s = i
        while desc[i] == "[":
            i += 1
        if desc[i] == "L":
            i = desc.index(";", i)
        i += 1
        args.append(desc[s:i])
    return args, desc[i + 1:]


class Method:
    def __init__(self, cf, acc, name, desc, code):
        self.cf, self.acc, self.name, self.desc, self.code = cf, acc, name, desc, code
        self.static = bool(acc & 8)
        self.args, self.ret = parse_desc(desc)
        self.retbool = self.ret == "Z"
        self.label = cf.name.split("/")[-1] + "." + name
        self._ready = False

    def prepare(self):
        if self._ready:
            return
        self._ready = True
        d = self.code
        self.max_stack, self.max_locals, ln = struct.unpack(">HHI", d[:8])
        c = d[8:8 + ln]
        p = 8 + ln
        nex, = struct.unpack(">H", d[p:p + 2])
        p += 2
        self.handlers = []
        for _ in range(nex):
            s, e, h, ct = struct.unpack(">HHHH", d[p:p + 8])
            self.handlers.append((s, e, h, self.cf.cls(ct) if ct else None))
            p += 8
        self.lines = []
        na, = struct.unpack(">H", d[p:p + 2])
        p += 2
        for _ in range(na):
            ni, al = struct.unpack(">HI", d[p:p + 6])
            p += 6
            if self.cf.utf(ni) == "LineNumberTable":
                k, = struct.unpack(">H", d[p:p + 2])
                for j in range(k):
                    self.lines.append(struct.unpack(">HH", d[p + 2 + 4 * j:p + 6 + 4 * j]))
            p += al
        self.lines.sort()
        self.decode(c)

    def line(self, pc):
        r = 0
        for s, l in self.lines:
            if s <= pc:
                r = l
        return r

    def decode(self, c):
        cf = self.cf
        ins = {}
        order = []
        pc = 0
        n = len(c)

        def s1(i):
            return struct.unpack(">b", c[i:i + 1])[0]

        def s2(i):
            return struct.unpack(">h", c[i:i + 2])[0]

        def u2(i):
            return struct.unpack(">H", c[i:i + 2])[0]

        def s4(i):
            return struct.unpack(">i", c[i:i + 4])[0]
        while pc < n:
            op = OPS[c[pc]]
            ln = 1
            arg = None
            if op == "bipush":
                op, arg, ln = "iconst", s1(pc + 1), 2
            elif op == "sipush":
                op, arg, ln = "iconst", s2(pc + 1), 3
            elif op.startswith("iconst_"):
                op, arg = "iconst", {"m1": -1}.get(op[7:], None) if op[7:] == "m1" else int(op[7:])
            elif op.startswith("lconst_"):
                op, arg = "lconst", int(op[7:])
            elif op in ("ldc", "ldc_w", "ldc2_w"):
                k = c[pc + 1] if op == "ldc" else u2(pc + 1)
                ln = 2 if op == "ldc" else 3
                e = cf.cp[k]
                if e[0] == "int":
                    op, arg = "iconst", e[1]
                elif e[0] == "long":
                    op, arg = "lconst", e[1]
                elif e[0] == "string":
                    op, arg = "sconst", cf.utf(e[1])
                elif e[0] == "class":
                    op, arg = "classconst", cf.utf(e[1])
                else:
                    op, arg = "badconst", e[0]
            elif op[:-2] in ("iload", "lload", "aload", "istore", "lstore", "astore", "fload", "dload", "fstore", "dstore") and op[-2] == "_":
                op, arg = op[:-2], int(op[-1])
            elif op in ("iload", "lload", "fload", "dload", "aload", "istore", "lstore", "fstore", "dstore", "astore", "ret"):
                arg, ln = c[pc + 1], 2
            elif op == "iinc":
                arg, ln = (c[pc + 1], s1(pc + 2)), 3
            elif op in BRANCH or op in ("goto", "jsr"):
                arg, ln = pc + s2(pc + 1), 3
            elif op == "goto_w":
                op, arg, ln = "goto", pc + s4(pc + 1), 5
            elif op in ("getstatic", "putstatic", "getfield", "putfield", "invokevirtual", "invokespecial", "invokestatic"):
                arg, ln = cf.ref(u2(pc + 1)), 3
            elif op == "invokeinterface":
                arg, ln = cf.ref(u2(pc + 1)), 5
            elif op == "invokedynamic":
                ln = 5
            elif op in ("new", "anewarray", "checkcast", "instanceof"):
                arg, ln = cf.cls(u2(pc + 1)), 3
            elif op == "multianewarray":
                arg, ln = (cf.cls(u2(pc + 1)), c[pc + 3]), 4
            elif op == "newarray":
                arg, ln = PRIM[c[pc + 1]], 2
            elif op == "wide":
                op = OPS[c[pc + 1]]
                if op == "iinc":
                    arg, ln = (u2(pc + 2), s2(pc + 4)), 6
                else:
                    arg, ln = u2(pc + 2), 4
            elif op == "tableswitch":
                q = (pc + 4) & ~3
                df, lo, hi = s4(q), s4(q + 4), s4(q + 8)
                tab = [(lo + j, pc + s4(q + 12 + 4 * j)) for j in range(hi - lo + 1)]
                op, arg, ln = "switch", (pc + df, tab), q + 12 + 4 * (hi - lo + 1) - pc
            elif op == "lookupswitch":
                q = (pc + 4) & ~3
                df, np = s4(q), s4(q + 4)
                tab = [(s4(q + 8 + 8 * j), pc + s4(q + 12 + 8 * j)) for j in range(np)]
                op, arg, ln = "switch", (pc + df, tab), q + 8 + 8 * np - pc
            ins[pc] = (pc, op, arg)
            order.append(pc)
            pc += ln
        leaders = {0}
        for i, pc in enumerate(order):
            _, op, arg = ins[pc]
            nxt = order[i + 1] if i + 1 < len(order) else None
            if op in BRANCH or op == "goto":
                leaders.add(arg)
                if nxt is not None:
                    leaders.add(nxt)
            elif op == "switch":
                leaders.add(arg[0])
                leaders.update(x for _, x in arg[1])
                if nxt is not None:
                    leaders.add(nxt)
            elif op in ENDS and nxt is not None:
                leaders.add(nxt)
        for s, e, h, ct in self.handlers:
            leaders.update((s, h))
            if e in ins:
                leaders.add(e)
        self.blocks = {}
        succs = {}
        cur = None
        for i, pc in enumerate(order):
            if pc in leaders:
                cur = []
                self.blocks[pc] = cur
            cur.append(ins[pc])
        starts = sorted(self.blocks)
        for i, b in enumerate(starts):
            last = self.blocks[b][-1]
            ss = []
            nxt = starts[i + 1] if i + 1 < len(starts) else None
            if last[1] in BRANCH:
                ss = [nxt, last[2]]
            elif last[1] == "goto":
                ss = [last[2]]
            elif last[1] == "switch":
                ss = [last[2][0]] + [x for _, x in last[2][1]]
            elif last[1] in ENDS:
                ss = []
            else:
                ss = [nxt]
                self.blocks[b].append((last[0], "goto", nxt))
            if last[1] in BRANCH:
                self.blocks[b][-1] = (last[0], last[1], (last[2], nxt))
            seen = []
            for s in ss:
                if s not in seen:
                    seen.append(s)
            for s, e, h, ct in self.handlers:
                if s <= b < e and h not in seen:
                    seen.append(h)
            succs[b] = seen
        self.entry = 0
        self.cfg = Cfg(0, succs)
        self.succs = succs
        use, define = {}, {}
        for b, code in self.blocks.items():
            u, df = set(), set()
            for _, op, arg in code:
                if op in ("iload", "lload", "aload"):
                    if arg not in df:
                        u.add(arg)
                elif op == "iinc":
                    if arg[0] not in df:
                        u.add(arg[0])
                elif op in ("istore", "lstore", "astore"):
                    df.add(arg)
            # a handler may be entered from anywhere in the block: keep what it needs
            if any(s <= b < e for s, e, h, ct in self.handlers):
                df = set()
            use[b], define[b] = u, df
        lv = liveness(self.cfg.blocks, succs, use, define)
        self._livein = {b: s | {"S"} for b, s in lv.items()}
        self.abort_blocks = set()
        for b, code in self.blocks.items():
            if code[-1][1] == "athrow" and any(op == "new" and arg == "java/lang/AssertionError" for _, op, arg in code):
                self.abort_blocks.add(b)
        self.sensitive = self._sensitive()

    def key(self, b, iters):
        return self.cfg.key(b, iters)

    def next_iters(self, b, nb, iters):
        return self.cfg.next_iters(b, nb, iters)

    def livein(self, b):
        return self._livein[b]

    def _sensitive(self):
        """per block: locals whose value on entry may feed array indices, sizes, int arguments or loop exits"""
        events = {}     # block -> [(local set or None, locals read)]
        for b, code in self.blocks.items():
            st = []
            ev = events[b] = []

            def root(x):
                if x:
                    ev.append((None, x))

            def pop(k=1):
                r = set()
                for _ in range(k):
                    if st:
                        r |= st.pop()
                return r
            for pc, op, arg in code:
                if op in ("iload", "lload"):
                    st.append({arg})
                elif op in ("istore", "lstore"):
                    ev.append((arg, pop()))
                elif op == "astore":
                    pop()
                elif op == "iinc":
                    root({arg[0]})
                elif op in ("iaload", "laload", "aaload", "baload", "caload", "saload"):
                    root(pop())
                    pop()
                    st.append(set())
                elif op in ("iastore", "lastore", "aastore", "bastore", "castore", "sastore"):
                    pop()
                    root(pop())
                    pop()
                elif op in ("newarray", "anewarray"):
                    root(pop())
                    st.append(set())
                elif op in BRANCH:
                    k = pop(2 if op.startswith("if_") else 1)
                    for h, body in self.cfg.loops.items():
                        if b in body and any(s not in body for s in self.succs[b]):
                            root(k)
                            break
                elif op.startswith("invoke"):
                    if arg is None:
                        st.clear()
                        continue
                    a, r = parse_desc(arg[2])
                    for ty in reversed(a):
                        x = pop()
                        if ty in "IJ":
                            root(x)
                    if op != "invokestatic":
                        pop()
                    if r != "V":
                        st.append(set())
                elif op[1:] in ("add", "sub", "mul", "div", "rem", "shl", "shr", "ushr", "and", "or", "xor", "cmp") and op[0] in "il":
                    st.append(pop(2))
                elif op in ("ineg", "lneg", "i2l", "l2i", "i2b", "i2c", "i2s"):
                    st.append(pop())
                elif op in ("iconst", "lconst", "sconst", "aload", "new", "getstatic", "aconst_null", "classconst", "badconst"):
                    st.append(set())
                elif op in ("arraylength", "getfield", "checkcast", "instanceof"):
                    pop()
                    st.append(set())
                elif op == "dup":
                    x = pop()
                    st.append(x)
                    st.append(x)
                elif op in ("putstatic", "pop", "ireturn", "lreturn", "areturn", "athrow"):
                    pop()
                elif op == "putfield":
                    pop(2)
                elif op == "dup2":
                    y, x = pop(), pop()
                    st.extend([x, y, x, y])
                elif op == "switch":
                    pop()
        sens = {b: set() for b in self.blocks}
        changed = True
        while changed:
            changed = False
            for b in self.blocks:
                cur = set()
                for s in self.succs[b]:
                    cur |= sens[s]
                for loc, x in reversed(events[b]):
                    if loc is None:
                        cur |= x
                    elif loc in cur:
                        cur.discard(loc)
                        cur |= x
                if cur != sens[b]:
                    sens[b] = cur
                    changed = True
        return sens
