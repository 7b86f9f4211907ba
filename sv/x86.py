"""Symbolic execution of x86-64 machine code as disassembled by objdump from the assembled .s file.
Memory accesses go through the host machine (same memory model as the LLVM IR executor)."""
import re, subprocess
from . import term as t
from .term import T
from .engine import Ptr, PtrIte, Unsupported, Cfg, State, merge_values

c = t.const
R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
SUB = {}
for _r in R64:
    SUB[_r] = (_r, 64, 0)
for _a, _b in (("ax", "rax"), ("cx", "rcx"), ("dx", "rdx"), ("bx", "rbx"), ("sp", "rsp"), ("bp", "rbp"), ("si", "rsi"), ("di", "rdi")):
    SUB["e" + _a] = (_b, 32, 0)
    SUB[_a] = (_b, 16, 0)
for _a in "acdb":
    SUB[_a + "l"] = ("r" + _a + "x", 8, 0)
    SUB[_a + "h"] = ("r" + _a + "x", 8, 8)
for _a in ("sp", "bp", "si", "di"):
    SUB[_a + "l"] = ("r" + _a, 8, 0)
for _i in range(8, 16):
    SUB["r%dd" % _i] = ("r%d" % _i, 32, 0)
    SUB["r%dw" % _i] = ("r%d" % _i, 16, 0)
    SUB["r%db" % _i] = ("r%d" % _i, 8, 0)
XMM = ["xmm%d" % i for i in range(16)]
FLAGS = ["CF", "ZF", "SF", "OF", "PF"]
CALLEE_SAVED = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
SIZES = {"BYTE": 8, "WORD": 16, "DWORD": 32, "QWORD": 64, "XMMWORD": 128}
CONDS = {"o": "O", "no": "!O", "b": "C", "c": "C", "nae": "C", "ae": "!C", "nb": "!C", "nc": "!C", "e": "Z", "z": "Z", "ne": "!Z", "nz": "!Z",
         "be": "C|Z", "na": "C|Z", "a": "!C|Z", "nbe": "!C|Z", "s": "S", "ns": "!S", "l": "L", "nge": "L", "ge": "!L", "nl": "!L", "le": "L|Z", "ng": "L|Z", "g": "!L|Z", "nle": "!L|Z"}


class Fn:
    """One assembly routine: basic blocks over the shared instruction list."""
    sensitive = ("rcx", "rax", "rdx", "r8", "r9", "r10", "r11")
    retbool = False

    def __init__(self, name, prog, entry):
        self.name = name
        self.prog = prog
        insns = prog.insns
        leaders = {entry}
        seen = set()
        work = [entry]
        succ = {}
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            if a not in insns:
                raise Unsupported("jump outside the code")
            op, args, nxt = insns[a]
            if op in ("ret", "ud2", "hlt"):
                s = []
            elif op == "jmp":
                s = [prog.target(args)]
                leaders.add(s[0])
            elif op[0] == "j":
                s = [prog.target(args), nxt]
                leaders.update(s)
            else:
                s = [nxt]
            succ[a] = s
            work += s
        self.blocks = {}
        bs = {}
        for l in leaders:
            a = l
            body = []
            while True:
                body.append(a)
                s = succ[a]
                if not s or len(s) > 1 or s[0] in leaders:
                    break
                a = s[0]
            self.blocks[l] = body
            bs[l] = succ[a]
        self.cfg = Cfg(entry, bs)
        self.entry = entry
        self.key = self.cfg.key
        self.next_iters = self.cfg.next_iters

    def livein(self, b):
        return R64 + XMM + FLAGS

    def exec(self, mach, block, regs, st):
        return X(mach, self, dict(regs), st).run(block)


class Program:
    def __init__(self, obj):
        txt = subprocess.run(["objdump", "-d", "-r", "-M", "intel", "--no-show-raw-insn", obj], capture_output=True, text=True, check=True).stdout
        self.insns = {}
        self.syms = {}
        prev = None
        for ln in txt.split("\n"):
            m = re.match(r"^([0-9a-f]+) <(.*)>:$", ln)
            if m:
                self.syms[m.group(2)] = int(m.group(1), 16)
                continue
            m = re.match(r"^\s+([0-9a-f]+):\t(.*)$", ln)
            if not m:
                continue
            if "R_X86_64" in ln:
                raise Unsupported("relocation in assembly")
            a = int(m.group(1), 16)
            ins = m.group(2).split("#")[0].strip()
            parts = ins.split(None, 1)
            op = parts[0]
            args = [x.strip() for x in re.split(r",(?![^\[]*\])", parts[1])] if len(parts) > 1 else []
            while op in ("rep", "repz", "lock", "data16", "cs", "notrack", "bnd"):
                if op not in ("data16", "cs", "notrack", "bnd") and args and not args[0].startswith("ret"):
                    break
                p2 = args[0].split(None, 1)
                op = p2[0]
                args = [p2[1]] + args[1:] if len(p2) > 1 else []
            if prev is not None:
                self.insns[prev] = (*self.insns[prev][:2], a)
            self.insns[a] = (op, args, None)
            prev = a
        self.fns = {}

    def target(self, args):
        return int(args[0].split()[0], 16)

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            if name not in self.syms:
                raise Unsupported("no assembly routine " + name)
            f = self.fns[name] = Fn(name, self, self.syms[name])
        return f


class X:
    def __init__(self, mach, fn, regs, st):
        self.m, self.fn, self.r, self.st = mach, fn, regs, st
        self.dead = False

    # -------------------------------------------------------- operands
    def parse(self, a):
        """-> ('r',name) ('x',name) ('i',value) ('m',size,addr expr)"""
        p = self.fn.prog
        k = p.__dict__.setdefault("_opcache", {}).get(a)
        if k is not None:
            return k
        if a in SUB:
            k = ("r", a)
        elif a in XMM:
            k = ("x", a)
        elif "[" in a:
            m = re.match(r"^(?:(\w+) PTR )?(?:\w\w:)?\[(.*)\]$", a)
            if not m:
                raise Unsupported("operand " + a)
            size = SIZES[m.group(1)] if m.group(1) else None
            base = []
            off = 0
            for sgn, x in re.findall(r"([+-]?)([^+-]+)", m.group(2)):
                x = x.strip()
                if "*" in x:
                    rn, sc = x.split("*")
                    base.append((rn, int(sc, 0)))
                elif x in SUB:
                    base.append((x, 1))
                elif x in ("riz",):
                    pass
                else:
                    v = int(x, 0)
                    off += -v if sgn == "-" else v
            k = ("m", size, base, off)
        else:
            try:
                k = ("i", int(a, 0))
            except ValueError:
                raise Unsupported("operand " + a)
        p._opcache[a] = k
        return k

    def getreg(self, name):
        full, w, lo = SUB[name]
        v = self.r[full]
        if w == 64:
            return v
        if not isinstance(v, T):
            v = self.m.ptr_int(v)
        return t.extract(v, lo + w - 1, lo)

    def setreg(self, name, v):
        full, w, lo = SUB[name]
        if w == 64:
            self.r[full] = v
        elif w == 32:
            self.r[full] = t.zext(v, 64)
        else:
            old = self.r[full]
            if not isinstance(old, T):
                old = self.m.ptr_int(old)
            parts = []
            if lo:
                parts.append(t.extract(old, lo - 1, 0))
            parts.append(v)
            parts.append(t.extract(old, 63, lo + w))
            self.r[full] = t.concat_lsb(parts)

    def addr(self, k):
        _, size, base, off = k
        ptr = None
        terms = []
        for rn, sc in base:
            v = self.getreg(rn)
            if isinstance(v, T):
                terms.append((sc, v))
            elif ptr is None and sc == 1:
                ptr = v
            else:
                raise Unsupported("address of two pointers")
        o = t.linear(off, terms, 64)
        if ptr is None:
            raise Unsupported("absolute address")
        return self.m.ptr_add(ptr, o)

    def load(self, k, size=None):
        n = size or k[1]
        p = self.addr(k)
        v = self.m.load_n(self.st, p, n // 8, self.fn.name)
        if v is None:
            self.dead = True
            return t.fresh("undef", n)
        return v

    def store(self, k, v, size=None):
        n = size or k[1] or v.w
        p = self.addr(k)
        if self.m.store(self.st, p, v, n // 8, self.fn.name) is False:
            self.dead = True

    def width(self, *args):
        for a in args:
            k = self.parse(a)
            if k[0] == "r":
                return SUB[k[1]][1]
            if k[0] == "x":
                return 128
            if k[0] == "m" and k[1]:
                return k[1]
        raise Unsupported("operand width")

    def get(self, a, w=None):
        k = self.parse(a)
        if k[0] == "r":
            return self.getreg(k[1])
        if k[0] == "x":
            return self.r[k[1]]
        if k[0] == "i":
            return c(k[1], w)
        return self.load(k, k[1] or w)

    def num(self, a, w=None):
        v = self.get(a, w)
        return v if isinstance(v, T) else self.m.ptr_int(v)

    def put(self, a, v):
        k = self.parse(a)
        if k[0] == "r":
            self.setreg(k[1], v)
        elif k[0] == "x":
            self.r[k[1]] = v
        else:
            self.store(k, v)

    # -------------------------------------------------------- flags
    def flag(self, f):
        v = self.r.get(f)
        if v is None:
            v = self.r[f] = t.fresh("undefflag", 1)
        return v

    def setzs(self, res):
        self.r["ZF"] = t.eq(res, c(0, res.w))
        self.r["SF"] = t.extract(res, res.w - 1, res.w - 1)
        self.r["PF"] = None

    def cond(self, cc):
        s = CONDS.get(cc)
        if s is None:
            raise Unsupported("condition " + cc)
        negate = s.startswith("!")
        v = t.FALSE
        for x in s.lstrip("!").split("|"):
            if x == "C":
                f = self.flag("CF")
            elif x == "Z":
                f = self.flag("ZF")
            elif x == "S":
                f = self.flag("SF")
            elif x == "O":
                f = self.flag("OF")
            else:
                f = t.bxor(self.flag("SF"), self.flag("OF"))
            v = t.bor(v, f)
        return t.bnot(v) if negate else v

    def addsub(self, a, b, cin, sub):
        w = a.w
        za, zb, zc = t.zext(a, w + 1), t.zext(b, w + 1), t.zext(cin, w + 1)
        k = -1 if sub else 1
        s = t.linear(0, [(1, za), (k, zb), (k, zc)], w + 1)
        res = t.trunc(s, w)
        self.r["CF"] = t.extract(s, w, w)
        self.setzs(res)
        sa, sb, sr = (t.extract(x, w - 1, w - 1) for x in (a, b, res))
        if sub:
            self.r["OF"] = t.band(t.bxor(sa, sb), t.bxor(sa, sr))
        else:
            self.r["OF"] = t.band(t.bnot(t.bxor(sa, sb)), t.bxor(sa, sr))
        return res

    # -------------------------------------------------------- execution
    def run(self, block):
        for a in self.fn.blocks[block]:
            op, args, nxt = self.fn.prog.insns[a]
            self.m.steps += 1
            if self.m.steps > self.m.step_limit:
                raise Unsupported("step limit")
            if op == "ret":
                return self.ret()
            if op == "jmp":
                return [("br", self.fn.prog.target(args), self.r, self.st)]
            if op in ("ud2", "hlt"):
                self.m.oblige(self.st, t.FALSE, "trap", self.fn.name)
                return []
            if op[0] == "j":
                cc = self.cond(op[1:])
                tg = self.fn.prog.target(args)
                self.m.hooks.get("x86_branch", lambda *a: None)(self.fn.name, cc)
                if tg == nxt:
                    return [("br", nxt, self.r, self.st)]
                outs = []
                for taken, s2 in self.m.branch(self.st, cc):
                    outs.append(("br", tg if taken else nxt, dict(self.r), s2))
                return outs
            self.one(op, args)
            if self.dead:
                return []
        return [("br", nxt, self.r, self.st)]

    def ret(self):
        sp = self.r["rsp"]
        info = self.st.data["x86_entry"]
        if not isinstance(sp, Ptr) or sp.oid != info[0] or sp.off is not info[1]:
            self.m.oblige(self.st, t.FALSE, "stack-pointer", self.fn.name)
            return []
        tok = self.m.load_n(self.st, sp, 8, self.fn.name)
        self.m.oblige(self.st, t.eq(tok, c(0x1122334455667788, 64)), "return-address", self.fn.name)
        return [("ret", self.st, tuple(self.r.get(x) for x in R64 + ["xmm0"]))]

    def alignchk(self, a):
        k = self.parse(a)
        if k[0] != "m":
            return
        p = self.addr(k)
        o = self.st.mem.get(p.oid) if isinstance(p, Ptr) else None
        ok = o is not None and o.align % 16 == 0
        cond = t.boolc(ok)
        if ok:
            cond = t.eq(t.extract(p.off, 3, 0), c(0, 4))
        self.m.oblige(self.st, cond, "alignment", self.fn.name)

    def one(self, op, args):
        r = self.r
        if op in ("nop", "endbr64", "cld"):
            return
        if op in ("mov", "movabs"):
            w = self.width(*args)
            self.put(args[0], self.get(args[1], w))
            return
        if op == "movzx":
            w = self.width(args[0])
            self.put(args[0], t.zext(self.num(args[1]), w))
            return
        if op in ("movsx", "movsxd"):
            w = self.width(args[0])
            self.put(args[0], t.sext(self.num(args[1]), w))
            return
        if op == "lea":
            k = self.parse(args[1])
            w = self.width(args[0])
            terms, ptr = [], None
            for rn, sc in k[2]:
                v = self.getreg(rn)
                if isinstance(v, T):
                    terms.append((sc, t.zext(v, 64) if v.w < 64 else v))
                else:
                    ptr = v
            o = t.linear(k[3], terms, 64)
            v = o if ptr is None else self.m.ptr_add(ptr, o)
            if w < 64:
                v = t.trunc(v if isinstance(v, T) else self.m.ptr_int(v), w)
            self.put(args[0], v)
            return
        if op in ("add", "sub") and self.parse(args[0])[0] == "r" and self.width(args[0]) == 64 and not isinstance(self.get(args[0]), T):
            v = self.get(args[0])
            b = self.num(args[1], 64)
            self.put(args[0], self.m.ptr_add(v, b if op == "add" else t.neg(b)))
            for f in FLAGS:
                r[f] = None
            return
        if op in ("add", "adc", "sub", "sbb", "cmp"):
            w = self.width(*args)
            a, b = self.num(args[0], w), self.num(args[1], w)
            cin = self.flag("CF") if op in ("adc", "sbb") else t.FALSE
            res = self.addsub(a, b, cin, op in ("sub", "sbb", "cmp"))
            if op != "cmp":
                self.put(args[0], res)
            return
        if op in ("adcx", "adox"):
            w = self.width(*args)
            f = "CF" if op == "adcx" else "OF"
            a, b = self.num(args[0], w), self.num(args[1], w)
            s = t.add_many(t.zext(a, w + 1), t.zext(b, w + 1), t.zext(self.flag(f), w + 1))
            self.put(args[0], t.trunc(s, w))
            r[f] = t.extract(s, w, w)
            return
        if op in ("inc", "dec"):
            w = self.width(args[0])
            cf = r.get("CF")
            res = self.addsub(self.num(args[0], w), c(1, w), t.FALSE, op == "dec")
            r["CF"] = cf
            self.put(args[0], res)
            return
        if op == "neg":
            w = self.width(args[0])
            a = self.num(args[0], w)
            res = self.addsub(c(0, w), a, t.FALSE, True)
            r["CF"] = t.ne(a, c(0, w))
            self.put(args[0], res)
            return
        if op == "not":
            w = self.width(args[0])
            self.put(args[0], t.bnot(self.num(args[0], w)))
            return
        if op in ("and", "or", "xor", "test"):
            w = self.width(*args)
            a, b = self.num(args[0], w), self.num(args[1], w)
            res = {"and": t.band, "or": t.bor, "xor": t.bxor, "test": t.band}[op](a, b)
            if op == "xor" and args[0] == args[1]:
                res = c(0, w)
            r["CF"] = r["OF"] = t.FALSE
            self.setzs(res)
            if op != "test":
                self.put(args[0], res)
            return
        if op in ("shl", "sal", "shr", "sar", "rol", "ror", "rcl", "rcr"):
            w = self.width(args[0])
            n = self.num(args[1], 8) if len(args) > 1 else c(1, 8)
            if n.op != "const":
                raise Unsupported("shift by register")
            k = t.cval(n) & (63 if w == 64 else 31)
            a = self.num(args[0], w)
            if k == 0:
                return
            if op in ("shl", "sal"):
                res = t.shl(a, c(k, w))
                r["CF"] = t.extract(a, w - k, w - k) if k <= w else t.FALSE
                self.setzs(res)
                r["OF"] = None
            elif op == "shr":
                res = t.lshr(a, c(k, w))
                r["CF"] = t.extract(a, k - 1, k - 1)
                self.setzs(res)
                r["OF"] = None
            elif op == "sar":
                res = t.ashr(a, c(k, w))
                r["CF"] = t.extract(a, k - 1, k - 1)
                self.setzs(res)
                r["OF"] = None
            elif op == "rol":
                res = t.rotl(a, k % w)
                r["CF"] = t.extract(res, 0, 0)
                r["OF"] = None
            elif op == "ror":
                res = t.rotr(a, k % w)
                r["CF"] = t.extract(res, w - 1, w - 1)
                r["OF"] = None
            else:
                ext = t.concat(self.flag("CF"), a)       # w+1 bits
                k %= w + 1
                full = t.rotl(ext, k) if op == "rcl" else t.rotr(ext, k)
                res = t.trunc(full, w)
                r["CF"] = t.extract(full, w, w)
                r["OF"] = None
            self.put(args[0], res)
            return
        if op in ("shld", "shrd"):
            w = self.width(args[0])
            k = t.cval(self.num(args[2], 8)) & (63 if w == 64 else 31)
            a, b = self.num(args[0], w), self.num(args[1], w)
            if k == 0:
                return
            if op == "shld":
                res = t.concat(t.extract(a, w - k - 1, 0), t.extract(b, w - 1, w - k))
                r["CF"] = t.extract(a, w - k, w - k)
            else:
                res = t.concat(t.extract(b, k - 1, 0), t.extract(a, w - 1, k))
                r["CF"] = t.extract(a, k - 1, k - 1)
            self.setzs(res)
            r["OF"] = None
            self.put(args[0], res)
            return
        if op == "mul" or (op == "imul" and len(args) == 1):
            w = self.width(args[0])
            ext = t.zext if op == "mul" else t.sext
            if w == 8:
                raise Unsupported("8-bit mul")
            lo, hi = {64: ("rax", "rdx"), 32: ("eax", "edx"), 16: ("ax", "dx")}[w]
            pr = t.mul(ext(self.num(lo), 2 * w), ext(self.num(args[0], w), 2 * w))
            l, h = t.trunc(pr, w), t.extract(pr, 2 * w - 1, w)
            self.setreg(lo, l)
            self.setreg(hi, h)
            r["CF"] = r["OF"] = t.ne(h, c(0, w)) if op == "mul" else t.ne(pr, t.sext(l, 2 * w))
            r["ZF"] = r["SF"] = r["PF"] = None
            return
        if op == "mulx":
            w = self.width(args[0])
            pr = t.mul(t.zext(self.num("rdx" if w == 64 else "edx"), 2 * w), t.zext(self.num(args[2], w), 2 * w))
            self.put(args[1], t.trunc(pr, w))
            self.put(args[0], t.extract(pr, 2 * w - 1, w))
            return
        if op == "imul":
            w = self.width(args[0])
            a = self.num(args[0] if len(args) == 2 else args[1], w)
            b = self.num(args[-1], w)
            pr = t.mul(t.sext(a, 2 * w), t.sext(b, 2 * w))
            res = t.trunc(pr, w)
            r["CF"] = r["OF"] = t.ne(pr, t.sext(res, 2 * w))
            r["ZF"] = r["SF"] = r["PF"] = None
            self.put(args[0], res)
            return
        if op.startswith("set") and op[3:] in CONDS:
            self.put(args[0], t.zext(self.cond(op[3:]), 8))
            return
        if op.startswith("cmov") and op[4:] in CONDS:
            w = self.width(args[0])
            cc = self.cond(op[4:])
            a, b = self.get(args[0], w), self.get(args[1], w)
            self.put(args[0], merge_values(cc, b, a) if cc.op != "const" else (b if cc.args[0] else a))
            return
        if op == "xchg":
            w = self.width(*args)
            a, b = self.get(args[0], w), self.get(args[1], w)
            self.put(args[0], b)
            self.put(args[1], a)
            return
        if op == "bswap":
            self.put(args[0], t.bswap(self.num(args[0])))
            return
        if op in ("stc", "clc", "cmc"):
            r["CF"] = t.TRUE if op == "stc" else t.FALSE if op == "clc" else t.bnot(self.flag("CF"))
            return
        if op == "bt":
            w = self.width(args[0])
            n = self.num(args[1], w)
            if n.op != "const":
                raise Unsupported("bt by register")
            k = t.cval(n) % w
            r["CF"] = t.extract(self.num(args[0], w), k, k)
            return
        if op == "push":
            r["rsp"] = self.m.ptr_add(r["rsp"], c(-8, 64))
            v = self.get(args[0], 64)
            if self.m.store(self.st, r["rsp"], v, 8, self.fn.name) is False:
                self.dead = True
            return
        if op == "pop":
            v = self.m.load_n(self.st, r["rsp"], 8, self.fn.name)
            if v is None:
                self.dead = True
                return
            r["rsp"] = self.m.ptr_add(r["rsp"], c(8, 64))
            self.put(args[0], v)
            return
        self.sse(op, args)

    def src128(self, a):
        self.alignchk(a)
        return self.get(a, 128)

    def sse(self, op, args):
        r = self.r
        L = lambda x, w: [t.extract(x, i + w - 1, i) for i in range(0, 128, w)]
        if op in ("movdqu", "movups", "movupd", "lddqu"):
            self.put(args[0], self.get(args[1], 128))
            return
        if op in ("movdqa", "movaps", "movapd"):
            self.alignchk(args[0])
            self.alignchk(args[1])
            self.put(args[0], self.get(args[1], 128))
            return
        if op in ("movd", "movq"):
            w = 32 if op == "movd" else 64
            d, s = self.parse(args[0]), self.parse(args[1])
            if s[0] == "x":
                v = t.trunc(r[s[1]], w)
            elif s[0] == "r":
                v = t.trunc(self.num(args[1]), w)
            else:
                v = self.load(s, w)
            if d[0] == "x":
                r[d[1]] = t.zext(v, 128)
            elif d[0] == "r":
                self.setreg(d[1], v if SUB[d[1]][1] == w else t.zext(v, SUB[d[1]][1]))
            else:
                self.store(d, v, w)
            return
        if op in ("pand", "andps", "andpd", "pandn", "por", "orps", "orpd", "pxor", "xorps", "xorpd", "andnps"):
            a, b = r[args[0]], self.src128(args[1])
            if args[0] == args[1] and "xor" in op:
                r[args[0]] = c(0, 128)
            elif op in ("pandn", "andnps"):
                r[args[0]] = t.band(t.bnot(a), b)
            else:
                r[args[0]] = (t.bxor if "xor" in op else t.bor if "or" in op else t.band)(a, b)
            return
        if op == "pshufd":
            s = L(self.src128(args[1]), 32)
            k = int(args[2], 0)
            r[args[0]] = t.concat_lsb([s[(k >> (2 * i)) & 3] for i in range(4)])
            return
        if op == "pblendvb":
            s = self.src128(args[1])
            mask = r["xmm0"]
            a = r[args[0]]
            out = []
            for i in range(16):
                bit = t.extract(mask, 8 * i + 7, 8 * i + 7)
                out.append(t.ite(bit, t.extract(s, 8 * i + 7, 8 * i), t.extract(a, 8 * i + 7, 8 * i)))
            r[args[0]] = t.concat_lsb(out)
            return
        if op in ("pcmpeqb", "pcmpeqw", "pcmpeqd", "pcmpeqq"):
            w = {"b": 8, "w": 16, "d": 32, "q": 64}[op[-1]]
            if args[0] == args[1]:
                r[args[0]] = c(-1, 128)
                return
            a, b = L(r[args[0]], w), L(self.src128(args[1]), w)
            r[args[0]] = t.concat_lsb([t.ite(t.eq(x, y), c(-1, w), c(0, w)) for x, y in zip(a, b)])
            return
        if op in ("paddd", "paddq", "psubd", "psubq", "paddb", "psubb"):
            w = {"d": 32, "q": 64, "b": 8}[op[-1]]
            a, b = L(r[args[0]], w), L(self.src128(args[1]), w)
            f = t.add if "add" in op else t.sub
            r[args[0]] = t.concat_lsb([f(x, y) for x, y in zip(a, b)])
            return
        if op in ("punpcklqdq", "punpckhqdq"):
            a, b = L(r[args[0]], 64), L(self.src128(args[1]), 64)
            i = 0 if "l" in op[5:6] else 1
            r[args[0]] = t.concat_lsb([a[i], b[i]])
            return
        if op in ("pslldq", "psrldq"):
            k = min(16, int(args[1], 0)) * 8
            f = t.shl if op == "pslldq" else t.lshr
            r[args[0]] = c(0, 128) if k == 128 else f(r[args[0]], c(k, 128))
            return
        if op in ("psllq", "psrlq", "pslld", "psrld") and self.parse(args[1])[0] == "i":
            w = 64 if op[-1] == "q" else 32
            k = int(args[1], 0)
            f = t.shl if op.startswith("psl") else t.lshr
            r[args[0]] = t.concat_lsb([c(0, w) if k >= w else f(x, c(k, w)) for x in L(r[args[0]], w)])
            return
        if op == "pmovmskb":
            x = r[args[1]]
            self.put(args[0], t.zext(t.concat_lsb([t.extract(x, 8 * i + 7, 8 * i + 7) for i in range(16)]), SUB[args[0]][1]))
            return
        if op == "ptest":
            a, b = r[args[0]], self.src128(args[1])
            r["ZF"] = t.eq(t.band(a, b), c(0, 128))
            r["CF"] = t.eq(t.band(t.bnot(a), b), c(0, 128))
            r["SF"] = r["OF"] = r["PF"] = t.FALSE
            return
        raise Unsupported("instruction " + op)


INT_ARGS = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]


def invoke(mach, prog, name, args, st, garbage="g"):
    """Calls an assembly routine. args: 64-bit terms / pointers, or narrower terms (upper bits become arbitrary).
    Returns [(state, rax)]; obligations cover callee-saved registers and the stack."""
    fn = prog.fn(name)
    mach.functions_used.add(name + " (assembly)")
    regs = {}
    saved = {}
    for x in R64:
        regs[x] = t.fresh("reg_" + x, 64)
    for x in XMM:
        regs[x] = t.fresh("reg_" + x, 128)
    for f in FLAGS:
        regs[f] = None
    for rn, a in zip(INT_ARGS, args):
        if isinstance(a, T) and a.w < 64:
            a = t.concat(t.fresh("upper_" + rn, 64 - a.w), a)
        regs[rn] = a
    stk = mach.new_obj(st, 1024 + 64, "asmstack")
    o = st.wobj(stk.oid)
    up = [t.fresh("caller_stack", 64) for _ in range(7)]
    for i in range(8):
        v = c(0x1122334455667788, 64) if i == 0 else up[i - 1]
        for b in range(8):
            o.cells[1024 + 8 * i + b] = (v, b)
    regs["rsp"] = Ptr(stk.oid, c(1024, 64))
    for x in CALLEE_SAVED:
        saved[x] = regs[x]
    old = st.data.get("x86_entry")
    st.data["x86_entry"] = (stk.oid, c(1024, 64))
    rets = mach.run_activation(fn, regs, st)
    out = []
    for s, rv in rets:
        final = dict(zip(R64 + ["xmm0"], rv))
        for x in CALLEE_SAVED:
            f = final[x]
            mach.oblige(s, t.eq(f, saved[x]) if isinstance(f, T) else t.FALSE, "callee-saved " + x, name)
        for i in range(7):
            v = mach.read_cells(s.obj(stk.oid).cells, 1024 + 8 * (i + 1), 8)
            mach.oblige(s, t.eq(v, up[i]) if isinstance(v, T) else t.FALSE, "caller-stack", name)
        del s.mem[stk.oid]
        s.data["x86_entry"] = old
        out.append((s, final["rax"]))
    return out


def plug(mach, ctx):
    """Makes undefined asm_* functions of an IR module execute the assembled code."""
    prog = Program(ctx.asm_obj())
    orig = mach.external

    def external(callee, d, args, st):
        name = callee[1:]
        if name in prog.syms:
            res = []
            for s, rax in invoke(mach, prog, name, args, st):
                res.append((s, rax))
            return res
        return orig(callee, d, args, st)
    mach.external = external
    # return values narrower than 64 bits are cut by the call site
    mach.asm_prog = prog
