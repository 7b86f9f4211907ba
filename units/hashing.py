"""Hash functions: block functions against their definition, messages of every length up to a bound (block function
opaque), long lengths with a symbolic byte count, incremental hashing by induction on the object state, HMAC."""
import hashlib, random, re
from sv import term as t, solver, hashspec as hs, sweep
from sv.frame import unit
from sv.engine import Unsupported, Ptr
from sv.solver import Q
from sv.cppx import Cpp
from sv.jvm import Java, JExc, JStr, Ref
from sv.ops import solve_obligations

c = t.const


def hx(b):
    return bytes(b).hex() or "-"


class A:
    """one algorithm: names in the two code bases"""

    def __init__(self, key, algo, cls, w, nstate, outlen, jcomp, jres):
        self.key, self.algo, self.cls, self.w, self.nstate, self.outlen = key, algo, cls, w, nstate, outlen
        self.sb = w * nstate
        self.bl = algo.bl if algo else 136
        self.jcomp = jcomp

    def uf(self, tag="c"):
        """the opaque block function over (state words, block bytes)"""
        def f(state, block):
            r = t.uf("%s.%s" % (self.key, tag), self.sb, [t.concat_lsb(state), t.concat_lsb(block)])
            return [t.extract(r, self.w * i + self.w - 1, self.w * i) for i in range(self.nstate)]
        return f

    def fold(self, state, n, arr="msg"):
        """opaque: the state after the first n bytes (n a term) of the unbounded message"""
        r = t.uf("%s.fold.%s" % (self.key, arr), self.sb, [t.concat_lsb(state), t.zext(n, 64) if n.w < 64 else n])
        return [t.extract(r, self.w * i + self.w - 1, self.w * i) for i in range(self.nstate)]


def keccak_fn(uf):
    return lambda lanes: uf(lanes, [c(0, 8)])


SHA256 = A("sha256", hs.SHA256, "Sha256", 32, 8, 32, "([I[BI)V", None)
SHA512 = A("sha512", hs.SHA512, "Sha512", 64, 8, 64, "([J[BI)V", None)
RMD160 = A("rmd160", hs.RMD160, "Ripemd160", 32, 5, 20, "([I[BI)V", None)
KECCAK = A("keccak", None, "Keccak256", 64, 25, 32, "([J)V", None)
ALGOS = {a.key: a for a in (SHA256, SHA512, RMD160, KECCAK)}


def keccak_concrete(b):
    return hs.concrete(hs.keccak256, b)


def concrete(key, b):
    if key == "keccak":
        return keccak_concrete(b)
    if key == "sha256d":
        return hashlib.sha256(hashlib.sha256(b).digest()).digest()
    return hashlib.new({"rmd160": "ripemd160"}.get(key, key), b).digest()


def spec_digest(a, msg, opaque=True):
    if a is KECCAK:
        return hs.keccak256(msg, keccak_fn(a.uf()) if opaque else None)
    return a.algo.digest(msg, a.uf() if opaque else None)


# ---------------------------------------------------------------- block functions: where they are, whether they are right

def rnd_state_block(rnd, a, nb):
    s = [rnd.getrandbits(a.w) for _ in range(a.nstate)]
    b = [rnd.getrandbits(8) for _ in range(a.bl * nb)]
    return s, b


def real_blocks(a, state, blocks):
    if a is KECCAK:
        return hs.keccak_f(state)
    for i in range(0, len(blocks), a.bl):
        state = a.algo.fn(state, blocks[i:i + a.bl])
    return state


def cpp_candidates(m, a):
    res = []
    for name, f in m.funcs.items():
        d = m_demangle(name)
        if d is None or not re.match(r"^(%s::|\(anonymous namespace\)::|[a-z]\w*\()" % a.cls, d) or d.startswith("h_"):
            continue
        if re.match(r"^%s::(%s|append|getHash|getDoubleHash|getHmac)\(" % (a.cls, a.cls), d):
            continue
        tys = [str(p[0]) for p in f.params]
        res.append((name, d, len(tys)))
    return res


def m_demangle(name):
    from sv import llvm
    try:
        return llvm.demangle(name[1:].strip('"'))
    except Exception:
        return None


class CppHash:
    """C++ side of one algorithm: the machine with the block function replaced by an opaque function"""

    def __init__(self, ctx, a, opaque=True):
        self.ctx, self.a = ctx, a
        self.C = Cpp(ctx)
        self.layout = None
        if opaque:
            self.form = self.find()
            self.install(self.form)

    # -- representation of the incremental object
    def obj_size(self):
        st = self.C.start()
        r = self.C.call("h_size_" + self.a.key, [], st)
        return t.cval(r[0][1])

    def init_obj(self):
        st = self.C.start()
        n = self.obj_size()
        p = self.C.buf(st, n, "hasher", align=16)
        r = self.C.call("h_%s_init" % self.a.key, [p], st)
        if len(r) != 1:
            raise Unsupported("constructor paths")
        return r[0][0], p, n

    def cells(self, st, p, n):
        res = []
        for i in range(n):
            e = st.mem[p.oid].cells[i]
            res.append(None if e is None else t.extract(e[0], 8 * e[1] + 7, 8 * e[1]) if e[0].w != 8 else e[0])
        return res

    def state_offset(self, n, cells):
        want = b"".join(x.to_bytes(self.a.w // 8, "little") for x in self.a.algo.init)
        have = [None if x is None or x.op != "const" else t.cval(x) for x in cells]
        offs = [i for i in range(n - len(want) + 1) if have[i:i + len(want)] == list(want)]
        if len(offs) != 1:
            raise Unsupported("state words not found in the object")
        return offs[0]

    def buffer_offset(self):
        """offset of the block buffer: where a first appended byte goes"""
        st, p, n = self.init_obj()
        b = t.var("probe", 8)
        m = self.C.bytes_obj(st, [b], "pm", const=True)
        r = self.C.call("h_%s_append" % self.a.key, [p, m, c(1, 64)], st)
        if len(r) != 1:
            raise Unsupported("append paths")
        cl = self.cells(r[0][0], p, n)
        offs = [i for i in range(n) if cl[i] is b]
        if len(offs) != 1:
            raise Unsupported("block buffer not found in the object")
        return offs[0]

    def find(self):
        """the block function: (mangled name, form), recognised by what it computes on one random input"""
        a = self.a
        if ("form", a.key) in self.ctx.machs:
            return self.ctx.machs["form", a.key]
        rnd = random.Random(5)
        s, b = rnd_state_block(rnd, a, 1)
        want = [t.cval(x) for x in real_blocks(a, [c(x, a.w) for x in s], [c(x, 8) for x in b])]
        cands = cpp_candidates(self.C.m, a)
        cands.sort(key=lambda x: ("compress" not in x[1] and "absorb" not in x[1], x[1]))
        for name, d, np in cands:
            for form in ({1: ["object"] if a in (SHA256, SHA512) else ["state"], 2: ["state,block", "object,block"], 3: ["state,block,len"]}).get(np, []):
                if a is KECCAK and form != "state":
                    continue
                try:
                    got = self.run_block(name, form, [c(x, a.w) for x in s], [c(x, 8) for x in b])
                except Exception:
                    continue
                if got is not None and all(x.op == "const" for x in got) and [t.cval(x) for x in got] == want:
                    self.ctx.machs["form", a.key] = (name, d, form)
                    return name, d, form
        raise Unsupported("block function of %s not recognised" % a.cls)

    def order(self):
        """memory order of the state words"""
        if self.a is KECCAK:
            return [x + 5 * y for x in range(5) for y in range(5)]
        return list(range(self.a.nstate))

    def run_block(self, name, form, state, block):
        a, C = self.a, self.C
        mem = t.concat_lsb([state[i] for i in self.order()])
        if form.startswith("object"):
            st, p, n = self.init_obj()
            so = self.state_offset(n, self.cells(st, p, n))
            C.mach.write_term(st, Ptr(p.oid, c(so, 64)), mem)
            args = [p]
            rd = (p, so)
            if form == "object":
                C.mach.write_term(st, Ptr(p.oid, c(self.buffer_offset(), 64)), t.concat_lsb(block))
            else:
                args.append(C.bytes_obj(st, block, "block", const=True))
        else:
            st = C.start()
            p = C.obj(st, mem, "state")
            args = [p]
            rd = (p, 0)
            if "block" in form:
                args.append(C.bytes_obj(st, block, "block", const=True))
            if "len" in form:
                args.append(c(len(block), 64))
        r = C.mach.call(name, args, st)
        if len(r) != 1:
            return None
        out = C.read(r[0][0], rd[0], a.sb // 8, rd[1])
        W = [t.extract(out, a.w * i + a.w - 1, a.w * i) for i in range(a.nstate)]
        res = [None] * a.nstate
        for k, i in enumerate(self.order()):
            res[i] = W[k]
        return res

    def install(self, fm):
        name, d, form = fm
        a = self.a
        uf = a.uf()
        order = self.order()
        so = bo = None
        if form.startswith("object"):
            st, p, n = self.init_obj()
            so = self.state_offset(n, self.cells(st, p, n))
            if form == "object":
                bo = self.buffer_offset()

        def handler(M, st, args):
            sp = Ptr(args[0].oid, t.add(args[0].off, c(so or 0, 64)))
            mem = M.read_term(st, sp, a.sb // 8)
            W = [t.extract(mem, a.w * i + a.w - 1, a.w * i) for i in range(a.nstate)]
            state = [None] * a.nstate
            for k, i in enumerate(order):
                state[i] = W[k]
            if a is KECCAK:
                state = uf(state, [c(0, 8)])
            elif form == "state,block,len":
                o = st.mem[args[1].oid]
                if o.lazy:
                    M.oblige(st, t.eq(t.urem(args[2], c(a.bl, 64)), c(0, 64)), "precondition", "whole blocks")
                    M.oblige(st, t.conj([t.eq(args[1].off, c(0, 64)), t.ule(args[2], o.size)]), "bounds", "whole blocks")
                    state = a.fold(state, args[2])
                else:
                    if args[2].op != "const":
                        return NotImplemented
                    n = t.cval(args[2])
                    M.oblige(st, t.boolc(n % a.bl == 0), "precondition", "whole blocks")
                    if n:
                        blk = M.read_term(st, args[1], n)
                        B = [t.extract(blk, 8 * i + 7, 8 * i) for i in range(n)]
                        for i in range(0, n - n % a.bl, a.bl):
                            state = uf(state, B[i:i + a.bl])
            else:
                src = Ptr(args[0].oid, t.add(args[0].off, c(bo, 64))) if form == "object" else args[1]
                blk = M.read_term(st, src, a.bl)
                state = uf(state, [t.extract(blk, 8 * i + 7, 8 * i) for i in range(a.bl)])
            M.write_term(st, sp, t.concat_lsb([state[i] for i in order]))
            return None
        self.C.mach.stubs[d] = handler


class JavaHash:
    def __init__(self, ctx, a, opaque=True, algos=None):
        self.ctx, self.a = ctx, a
        self.J = Java(ctx)
        self.M = self.J.mach
        if opaque:
            for x in algos or [a]:
                self.install(x)

    def find(self, a):
        if ("jform", a.key) in self.ctx.machs:
            return self.ctx.machs["jform", a.key]
        rnd = random.Random(6)
        s, b = rnd_state_block(rnd, a, 1)
        want = [t.cval(x) for x in real_blocks(a, [c(x, a.w) for x in s], [c(x, 8) for x in b])]
        cls = self.M.classes[self.M.short[a.cls]]
        K = "J" if a.w == 64 else "I"
        for (n, d), m in sorted(cls.methods.items(), key=lambda kv: kv[0][0] not in ("compress", "absorb")):
            if not m.code or d not in ("([%s[BI)V" % K, "([%s[B)V" % K, "([%s)V" % K):
                continue
            try:
                got = self.run_block(a, m, d, [c(x, a.w) for x in s], [c(x, 8) for x in b])
            except Exception:
                continue
            if got is not None and all(x.op == "const" for x in got) and [t.cval(x) for x in got] == want:
                self.ctx.machs["jform", a.key] = (n, d)
                return n, d
        raise Unsupported("block function of java %s not recognised" % a.cls)

    def run_block(self, a, m, d, state, block):
        M = self.M
        st = self.J.start()
        arr = M.ints(st, list(state)) if a.w == 32 else M.new(st, longs(state))
        args = [arr]
        if "[B" in d:
            args.append(M.bytes(st, block))
        if d.endswith("I)V"):
            args.append(c(len(block), 32))
        r = M.run_method(m, args, st)
        if len(r) != 1 or isinstance(r[0][1], JExc):
            return None
        return list(r[0][0].mem[arr.oid].cells)

    def install(self, a):
        n, d = self.find(a)
        uf = a.uf()

        def handler(M, st, args):
            so = st.wobj(args[0].oid)
            state = list(so.cells)
            if len(state) != a.nstate:
                return NotImplemented
            if a is KECCAK:
                state = uf(state, [c(0, 8)])
            else:
                o = st.mem[args[1].oid]
                n = args[2] if len(args) > 2 else c(a.bl, 32)
                if o.lazy:
                    M.oblige(st, t.eq(t.urem(n, c(a.bl, 32)), c(0, 32)), "precondition", "whole blocks")
                    M.oblige(st, t.ule(n, o.length), "index", "whole blocks")
                    state = a.fold(state, n)
                elif n.op != "const":
                    return NotImplemented
                else:
                    k = t.cval(n)
                    M.oblige(st, t.boolc(k % a.bl == 0 and k <= len(o.cells)), "precondition", "whole blocks")
                    if k > len(o.cells):
                        return NotImplemented
                    for i in range(0, k - k % a.bl, a.bl):
                        state = uf(state, o.cells[i:i + a.bl])
            so.cells[:] = state
            return [(st, None)]
        self.M.stubs["%s.%s%s" % (a.cls, n, d)] = handler


def longs(terms):
    from sv.jvm import JArr
    return JArr("J", list(terms), name="state")


def check_block(ctx, rep, a, lang, nb):
    """the block function on nb blocks from an arbitrary state"""
    t.RAW = True
    S = [t.var("s%d" % i, a.w) for i in range(a.nstate)]
    B = [t.var("b%d" % i, 8) for i in range(a.bl * nb)] if a is not KECCAK else []
    if lang == "cpp":
        H = CppHash(ctx, a, opaque=False)
        name, d, form = H.find()
        H.C.mach.obligations = []
        if nb != 1 and form != "state,block,len" and a is not KECCAK:
            return
        out = H.run_block(name, form, S, B)
        mach = H.C.mach
    else:
        H = JavaHash(ctx, a, opaque=False)
        n, d = H.find(a)
        if nb != 1 and not d.endswith("I)V") and a is not KECCAK:
            return
        m = H.M.classes[H.M.short[a.cls]].methods[n, d]
        H.M.obligations = []
        out = H.run_block(a, m, d, S, B)
        mach = H.M
    label = "%s block function/%s, %d block(s), any state" % (a.cls, lang, nb)
    if out is None:
        rep.claim(label, "undecided", 0, "more than one path")
        return
    rep.use(mach)
    spec = real_blocks(a, S, B)
    r = sweep.Sweep().equal(list(zip(out, spec)))
    if r[0] == "proved":
        rep.claim(label, "proved", sweep.STAT["secs"])
    else:
        rep.claim(label, "undecided", 0, str(r)[:200])
    rep.bound("block functions: %s blocks per call, every state and block content" % "0..2")
    solve_obligations(ctx, rep, mach, [], label)


def native_check(ctx, rep, lang, items, what):
    """items: (line, expected hex): concrete replays; reports a deviation"""
    try:
        got = ctx.native(lang, [l for l, _ in items])
    except Exception as e:
        rep.notes.append("replay: %s" % e)
        return False
    bad = False
    for (l, e), g in zip(items, got):
        rep.validated += 1
        if g != e and g != "?":
            rep.violated(what, lang, l, e, g)
            return True
    return bad


def block_unit(ctx, rep, key, lang):
    a = ALGOS[key]
    rnd = random.Random("%s%s" % (ctx.seed, key))
    lens = [0, 1, a.bl - 1, a.bl, 2 * a.bl, 2 * a.bl + 7] + [rnd.randrange(400) for _ in range(6)]
    items = []
    for n in lens:
        b = bytes(rnd.getrandbits(8) for _ in range(n))
        items.append(("%s %s" % (key, hx(b)), concrete(key, b).hex()))
    if native_check(ctx, rep, lang, items, "%s digest differs from its definition" % key):
        return
    for nb in ((1,) if a is KECCAK else (1, 0, 2)):
        check_block(ctx, rep, a, lang, nb)


for _k in ALGOS:
    for _l in ("cpp", "java"):
        unit("h.block/%s/%s" % (_k, _l), ["ir", "cpp"] if _l == "cpp" else ["java"], limit=200, cost=3, key=_k, lang=_l)(block_unit)


# ---------------------------------------------------------------- whole messages

def cmp_out(ctx, rep, label, lang, paths, spec, pre, envline, want, inline=False):
    """paths: [(pc, output bytes or None)]. Equality with spec on each; envline(env)->line, want(env)->hex on the real code"""
    ok = True
    for pc, out in paths:
        if out is not None and len(out) == len(spec) and all(x is y for x, y in zip(out, spec)):
            solver.STATS["structural"] += 1
            continue
        if t.RAW and out is not None and len(out) == len(spec):
            r = sweep.Sweep().equal(list(zip(out, spec)), deadline=rep.deadline)
            if r[0] == "proved":
                continue
            if r[0] == "open" and inline:
                rep.claim(label, "undecided", 0, str(r)[:200])
                ok = False
                continue
        conds = list(pre) + list(pc)
        if out is not None and len(out) == len(spec):
            conds.append(t.bnot(t.conj([t.eq(x, y) for x, y in zip(out, spec)])))
        q = Q(label, conds, 20)
        solver.solve_many([q], jobs=1)
        if q.result == "unsat":
            continue
        ok = False
        if q.result == "sat" and envline is not None:
            items = [(envline(q.env), want(q.env))]
            if native_check(ctx, rep, lang, items, label + " differs from its definition"):
                return False
            rep.claim(label, "undecided", q.secs, "counterexample not reproduced on the real code: " + items[0][0][:200])
        else:
            rep.claim(label, "undecided", q.secs, q.result)
    cov = t.disj([t.conj(list(pc)) for pc, _ in paths])
    if ok and cov is not t.TRUE:
        q = Q(label, list(pre) + [t.bnot(cov)], 20)
        solver.solve_many([q], jobs=1)
        if q.result != "unsat":
            rep.claim(label, "undecided", 0, "paths not exhaustive")
            ok = False
    return ok


def env_bytes(env, vs):
    return bytes(env.get(v.args[0], 0) for v in vs)


def make(ctx, rep, a, lang):
    """the machine with the block function opaque, or inlined when it cannot be singled out"""
    t.RAW = True
    try:
        return (CppHash(ctx, a) if lang == "cpp" else JavaHash(ctx, a)), False
    except Unsupported as e:
        rep.notes.append(str(e))
        return (CppHash(ctx, a, opaque=False) if lang == "cpp" else JavaHash(ctx, a, opaque=False)), True


def lengths(ctx, bl):
    n = 3 * bl + 3 if ctx.quick else 8 * bl + 3
    return list(range(n)) + [j * bl + d for j in ([4, 5, 6, 7, 8, 12, 16] if ctx.quick else range(9, 40)) for d in (-9, -1, 0, 1)]


CPPFN = {"sha256": ("h_sha256", 32), "sha512": ("h_sha512", 64), "rmd160": ("h_rmd160", 20), "keccak": ("h_keccak", 32), "sha256d": ("h_sha256d", 32)}


def run_cpp_msg(H, fn, outlen, bufs):
    C = H.C
    st = C.start()
    args = []
    for k, b in enumerate(bufs):
        args += [C.bytes_obj(st, b, "m%d" % k, const=True), c(len(b), 64)]
    o = C.buf(st, outlen, "out")
    rets = C.call(fn, args + [o], st)
    return [(s.pc, [C.read(s, o, 1, i) for i in range(outlen)]) for s, _ in rets]


def jbytes(M, s, v):
    """byte terms of a returned byte[] or Sha256Hash"""
    if isinstance(v, JExc) or not isinstance(v, Ref) or not v.oid:
        return None
    o = s.mem[v.oid]
    if type(o).__name__ == "JObj":
        rs = M.call("Sha256Hash", "toBytes", [v], s)
        if len(rs) != 1 or isinstance(rs[0][1], JExc):
            return None
        s, v = rs[0]
        o = s.mem[v.oid]
    return list(o.cells)


def run_java_msg(H, cls, meth, bufs):
    M = H.M
    st = H.J.start()
    args = []
    for k, b in enumerate(bufs):
        a = M.bytes(st, list(b), name="m%d" % k)
        st.wobj(a.oid).frozen = True
        args.append(a)
    rets = M.call(cls, meth, args, st, desc="(" + "[B" * len(bufs) + ")" + ("Lio/nayuki/bitcoin/crypto/Sha256Hash;" if cls == "Sha256" else "[B"))
    return [(s.pc, jbytes(M, s, v)) for s, v in rets]


JMETH = {"sha256": ("Sha256", "getHash"), "sha512": ("Sha512", "getHash"), "rmd160": ("Ripemd160", "getHash"), "keccak": ("Keccak256", "getHash"), "sha256d": ("Sha256", "getDoubleHash")}


def msg_unit(ctx, rep, key, lang):
    a = ALGOS[key.rstrip("d")]
    rnd = random.Random("%s%s" % (ctx.seed, key))
    ls = lengths(ctx, a.bl)
    items = []
    for n in ls:
        b = bytes(rnd.getrandbits(8) for _ in range(n))
        if key == "keccak" and n % 7 and n % 136 not in (0, 1, 134, 135):
            continue
        items.append(("%s %s" % (key, hx(b)), concrete(key, b).hex()))
    if native_check(ctx, rep, lang, items, "%s digest differs from its definition" % key):
        return
    H, inline = make(ctx, rep, a, lang)
    mach = H.C.mach if lang == "cpp" else H.M
    mach.obligations = []
    good = 0
    if inline:
        ls = [n for n in ls if n <= a.bl + 2 and (n % a.bl in (0, 1, 3, a.bl - 1, a.bl - 2) or abs(a.bl - n - (a.algo.lenbytes if a.algo else 0)) < 3)]
    for n in ls:
        mv = [t.var("m%d" % i, 8) for i in range(n)]
        paths = run_cpp_msg(H, CPPFN[key][0], CPPFN[key][1], [mv]) if lang == "cpp" else run_java_msg(H, *JMETH[key], [mv])
        spec = spec_digest(a, mv, not inline)
        if key == "sha256d":
            spec = spec_digest(a, spec, not inline)
        label = "%s of any %d-byte message/%s" % (key, n, lang)
        if not cmp_out(ctx, rep, label, lang, paths, spec, [], lambda env: "%s %s" % (key, hx(env_bytes(env, mv))), lambda env: concrete(key, env_bytes(env, mv)).hex(), inline):
            if rep.violations:
                return
            continue
        good += 1
    rep.use(mach)
    if good == len(ls):
        rep.claim("%s/%s: every message of 0..%d bytes%s" % (key, lang, ls[-1], " (selected lengths)" if inline else ""), "proved")
    rep.bound("%s: message lengths 0..%d and selected lengths up to %d, every content" % (key, (3 if ctx.quick else 8) * a.bl + 2, ls[-1]) if not inline else "%s: message lengths %s, every content" % (key, ls))
    solve_obligations(ctx, rep, mach, [], "%s/%s messages" % (key, lang))


for _k in list(ALGOS) + ["sha256d"]:
    for _l in ("cpp", "java"):
        unit("h.msg/%s/%s" % (_k, _l), ["ir", "cpp"] if _l == "cpp" else ["java"], limit=240, cost=4, key=_k, lang=_l)(msg_unit)


# ---------------------------------------------------------------- HMAC

def hmac_unit(ctx, rep, key, lang, part):
    import hmac as hm
    a = ALGOS[key]
    name = "hmac" + key[3:]
    rnd = random.Random("%s%s" % (ctx.seed, name))
    bl = a.bl
    ks = sorted(set([0, 1, 2, 20, 32, 33, a.outlen - 1, a.outlen, a.outlen + 1, bl - 9, bl - 2, bl - 1, bl, bl + 1, bl + 2, 2 * bl - 17, 2 * bl - 9, 2 * bl - 8, 2 * bl - 1, 2 * bl, 2 * bl + 1]))
    if not ctx.quick:
        ks = list(range(2 * bl + 3))
    nl = (0, 1, 32, 37, bl - 17, bl - 16, bl - 9, bl - 8, bl - 1, bl, bl + 1)
    if part == "key":
        pairs = [(k, n) for k in ks for n in (nl if not ctx.quick else (0, 37, bl))]
        pairs += [(k, 33) for k in range(2 * bl + 2) if not ctx.quick or k < bl + 4 or k % 4 == 0]
    else:
        pairs = [(k, n) for k in (0, 32, bl, bl + 1) for n in nl] + [(32, n) for n in range(2 * bl + 2) if not ctx.quick or n < bl + 4 or n % 4 == 0]
        if not ctx.quick:
            pairs += [(k, n) for k in range(0, 2 * bl + 2, 3) for n in range(0, 2 * bl + 2, 5)]
    pairs = sorted(set(pairs))
    items = []
    for k, n in pairs:
        kb = bytes(rnd.getrandbits(8) for _ in range(k))
        mb = bytes(rnd.getrandbits(8) for _ in range(n))
        items.append(("%s %s %s" % (name, hx(kb), hx(mb)), hm.new(kb, mb, key).hexdigest()))
    if native_check(ctx, rep, lang, items, "HMAC differs from its definition"):
        return
    H, inline = make(ctx, rep, a, lang)
    mach = H.C.mach if lang == "cpp" else H.M
    mach.obligations = []
    good = 0
    if inline:
        pairs = [(k, n) for k, n in pairs if (k, n) in ((0, 0), (32, 37), (bl, 1), (bl + 1, 1))]
    for k, n in pairs:
        kv = [t.var("k%d" % i, 8) for i in range(k)]
        mv = [t.var("m%d" % i, 8) for i in range(n)]
        paths = run_cpp_msg(H, "h_" + name, a.outlen, [kv, mv]) if lang == "cpp" else run_java_msg(H, a.cls, "getHmac", [kv, mv])
        spec = hs.hmac(lambda b: spec_digest(a, b, not inline), bl, kv, mv)
        label = "%s with any %d-byte key, %d-byte message/%s" % (name, k, n, lang)
        if not cmp_out(ctx, rep, label, lang, paths, spec, [], lambda env: "%s %s %s" % (name, hx(env_bytes(env, kv)), hx(env_bytes(env, mv))),
                       lambda env: hm.new(env_bytes(env, kv), env_bytes(env, mv), key).hexdigest(), inline):
            if rep.violations:
                return
            continue
        good += 1
    rep.use(mach)
    if good == len(pairs):
        rep.claim("%s/%s: %d pairs of key and message lengths (%s lengths varied), any contents" % (name, lang, len(pairs), part), "proved")
    rep.bound("%s: key lengths 0..%d with 33-byte messages, message lengths 0..%d with 32-byte keys%s, %d length pairs in all" % (name, 2 * bl + 1, 2 * bl + 1, " (beyond one block every fourth)" if ctx.quick else "", len(pairs)))
    solve_obligations(ctx, rep, mach, [], "%s/%s" % (name, lang))


for _k in ("sha256", "sha512"):
    for _l in ("cpp", "java"):
        for _p in ("key", "msg"):
            unit("h.hmac/%s/%s/%s" % (_k, _l, _p), ["ir", "cpp"] if _l == "cpp" else ["java"], limit=300, cost=5, key=_k, lang=_l, part=_p)(hmac_unit)


# ---------------------------------------------------------------- incremental hashing: induction over the object state

class Repr(CppHash):
    """The incremental object after any byte sequence, as a template: block state, byte counter, pending bytes."""

    def learn(self):
        a, C = self.a, self.C
        st, p, n = self.init_obj()
        init = self.cells(st, p, n)
        self.so = self.state_offset(n, init)
        self.n = n
        self.templates = {}
        runs = {}
        for total in (a.bl + 5, 3 * a.bl + 9):
            runs[total] = self.after(total)
        offs = []
        for i in range(0, n - 7):
            ok = True
            for total, (cl, mv) in runs.items():
                v = cl[i:i + 8]
                if any(x is None or x.op != "const" for x in v) or int.from_bytes(bytes(t.cval(x) for x in v), "little") != total:
                    ok = False
            if ok:
                offs.append(i)
        if len(offs) != 1:
            raise Unsupported("byte counter not found in the object")
        self.lo = offs[0]

    def after(self, total):
        """object bytes after init and one append of `total` fresh bytes"""
        st, p, n = self.init_obj()
        mv = [t.var("pm%d" % i, 8) for i in range(total)]
        m = self.C.bytes_obj(st, mv, "pm", const=True)
        r = self.C.call("h_%s_append" % self.a.key, [p, m, c(total, 64)], st)
        if len(r) != 1:
            raise Unsupported("append paths")
        return self.cells(r[0][0], p, n), mv

    def template(self, b):
        """cells: None (unspecified), ('s', byte) state, ('l', byte) counter, ('t', j) pending byte j, constant term"""
        if b in self.templates:
            return self.templates[b]
        a = self.a
        got = []
        for q in (1, 2):
            total = q * a.bl + b
            cl, mv = self.after(total)
            pos = {v: i for i, v in enumerate(mv)}
            tm = []
            for i, x in enumerate(cl):
                if self.so <= i < self.so + a.sb // 8:
                    tm.append(("s", i - self.so))
                elif self.lo <= i < self.lo + 8:
                    tm.append(("l", i - self.lo))
                elif x is None:
                    tm.append(None)
                elif x in pos:
                    tm.append(("t", pos[x] - q * a.bl) if pos[x] >= q * a.bl else None)
                elif x.op == "const":
                    tm.append(x)
                else:
                    raise Unsupported("object byte %d depends on the message in an unexpected way" % i)
            got.append(tm)
        if got[0] != got[1]:
            raise Unsupported("object representation is not uniform")
        if sorted(x[1] for x in got[0] if isinstance(x, tuple) and x[0] == "t") != list(range(b)):
            raise Unsupported("pending bytes not all in the object")
        self.templates[b] = got[0]
        return got[0]

    def build(self, st, b, S, L, tail):
        """an object in the state after L bytes (L mod block = b)"""
        tm = self.template(b)
        p = self.C.buf(st, self.n, "hasher", align=16)
        o = st.wobj(p.oid)
        mem = t.concat_lsb(S)
        for i, x in enumerate(tm):
            if x is None:
                o.cells[i] = (t.var("stale%d" % i, 8), 0)
            elif isinstance(x, tuple):
                k, j = x
                v = t.extract(mem, 8 * j + 7, 8 * j) if k == "s" else t.extract(L, 8 * j + 7, 8 * j) if k == "l" else tail[j]
                o.cells[i] = (v, 0)
            else:
                o.cells[i] = (x, 0)
        return p

    def expect(self, b, S, L, tail):
        tm = self.template(b)
        mem = t.concat_lsb(S)
        res = []
        for x in tm:
            if isinstance(x, tuple):
                k, j = x
                res.append(t.extract(mem, 8 * j + 7, 8 * j) if k == "s" else t.extract(L, 8 * j + 7, 8 * j) if k == "l" else tail[j])
            else:
                res.append(x)
        return res


def chunk_replays(a, rnd, extra=()):
    """digests of chunked messages on the real code"""
    items = []
    for sizes in list(extra) + [(0,), (0, 0, 3), (1,) * 70, (a.bl,), (a.bl - 1, 1), (a.bl - 1, 2), (a.bl, a.bl, 1), (5, a.bl, 0, a.bl - 5), (2 * a.bl + 1, a.bl - 1), (3, a.bl - 3, 2 * a.bl, 7), (1 << 16,), (5, (1 << 17) + 3), (65535, 1, 70001)] + [(j * a.bl,) for j in range(2, 40)] + [(7, j * a.bl - 7, 1) for j in range(2, 20)] + \
            [tuple(rnd.choice([0, 1, rnd.randrange(2 * a.bl + 3)]) for _ in range(rnd.randrange(1, 6))) for _ in range(20)]:
        ch = [bytes(rnd.getrandbits(8) for _ in range(k)) for k in sizes]
        items.append((" ".join(["%s.inc" % a.key] + [hx(x) for x in ch]), concrete(a.key, b"".join(ch)).hex()))
    return items


def inc_unit(ctx, rep, key):
    a = ALGOS[key]
    lang = "cpp"
    bl = a.bl
    rnd = random.Random("%s%s" % (ctx.seed, key))
    if native_check(ctx, rep, lang, chunk_replays(a, rnd), "incremental digest differs from the digest of the whole message"):
        return
    t.RAW = True
    R = Repr(ctx, a)
    R.learn()
    mach = R.C.mach
    rep.use(mach)
    mach.obligations = []
    uf = a.uf()
    S = [t.var("S%d" % i, a.w) for i in range(a.nstate)]
    lb = bl.bit_length() - 1
    label = "%s incremental" % key
    bad = 0

    def same(have, want):
        return all(w is None or h is w for h, w in zip(have, want))

    def report(what, sizes):
        items = chunk_replays(a, rnd, sizes)
        if native_check(ctx, rep, lang, items, what):
            return True
        rep.claim(what, "undecided", 0, "counterexample not reproduced on the real code")
        return False
    # base: a new object represents the empty message
    st, p, n = R.init_obj()
    if not same(R.cells(st, p, n), R.expect(0, a.algo.start(), c(0, 64), [])):
        if report(label + ": new object", [()]):
            return
        bad += 1
    else:
        rep.claim(label + ": a new object represents the empty message", "proved")
    # step
    cnt = 0
    for b in range(bl):
        L = t.concat_lsb([c(b, lb), t.var("Lq", 64 - lb)])
        tail = [t.var("T%d" % i, 8) for i in range(b)]
        ns = [0, 1, 2, bl - b - 1, bl - b, bl - b + 1, bl, 2 * bl - b - 1, 2 * bl - b, 2 * bl - b + 1] if ctx.quick else list(range(2 * bl + 2))
        if b in (0, 1, bl // 2, bl - 1) or not ctx.quick and b % 16 == 5:
            for j in (3, 4, 5, 7, 8, 9, 16, 17) if ctx.quick else range(3, 34):
                ns += [j * bl - 1, j * bl, j * bl - b, j * bl - b + 1]
        ns = sorted(set(ns))
        for k in ns:
            st = R.C.start()
            p = R.build(st, b, S, L, tail)
            mv = [t.var("m%d" % i, 8) for i in range(k)]
            m = R.C.bytes_obj(st, mv, "m", const=True)
            r = R.C.call("h_%s_append" % key, [p, m, c(k, 64)], st)
            data = tail + mv
            S2 = S
            for i in range(0, len(data) - bl + 1, bl):
                S2 = uf(S2, data[i:i + bl])
            b2 = (b + k) % bl
            want = R.expect(b2, S2, t.add(L, c(k, 64)), data[len(data) - b2:])
            for s, _ in r:
                have = R.cells(s, p, R.n)
                if not same(have, want):
                    qs = [t.eq(h, w) for h, w in zip(have, want) if w is not None and h is not w and h is not None]
                    q = Q(label, list(s.pc) + [t.bnot(t.conj(qs))], 20)
                    solver.solve_many([q], jobs=1)
                    if q.result == "unsat" and all(h is not None or w is None for h, w in zip(have, want)):
                        continue
                    bad += 1
                    if bad < 3 and report(label + ": append of %d bytes with %d pending" % (k, b), [(b, k), (bl + b, k), (b, k, 1), (b, k, bl)]):
                        return
            cnt += 1
    if not bad:
        rep.claim("%s: append keeps the representation, from every state, %d cases of (pending bytes, appended bytes)" % (label, cnt), "proved")
    # finish, with every byte count
    good = 0
    for b in range(bl):
        L = t.concat_lsb([c(b, lb), t.var("Lq", 64 - lb)])
        tail = [t.var("T%d" % i, 8) for i in range(b)]
        st = R.C.start()
        p = R.build(st, b, S, L, tail)
        o = R.C.buf(st, a.outlen, "out")
        r = R.C.call("h_%s_final" % key, [p, o], st)
        bits = t.shl(L, c(3, 64))
        data = a.algo.pad(tail, bits)
        S2 = S
        for i in range(0, len(data), bl):
            S2 = uf(S2, data[i:i + bl])
        want = a.algo.out(S2)
        pre = [t.ult(L, c(1 << 61, 64))]
        ok = True
        for s, _ in r:
            have = [R.C.read(s, o, 1, i) for i in range(a.outlen)]
            if all(x is y for x, y in zip(have, want)):
                continue
            q = Q(label, pre + list(s.pc) + [t.bnot(t.conj([t.eq(x, y) for x, y in zip(have, want)]))], 30)
            solver.solve_many([q], jobs=1)
            if q.result == "unsat":
                continue
            ok = False
            if q.result == "sat":
                if long_replay(ctx, rep, R, a, b, pre + list(s.pc), have, want):
                    return
            rep.claim("%s: digest with %d pending bytes" % (label, b), "undecided", 0, q.result)
        good += ok
    if good == bl:
        rep.claim("%s: digest correct for every message length below 2^61 bytes from every represented state" % label, "proved")
    rep.bound("%s: any number of append calls; each of 0..%d bytes (quick: lengths around the block boundaries), and from selected pending counts of whole blocks and one byte around up to %d bytes; byte counts up to 2^61" % (label, 2 * bl + 1, (17 if ctx.quick else 33) * bl))
    solve_obligations(ctx, rep, mach, [], label)


def long_replay(ctx, rep, R, a, b, conds, have, want):
    """a wrong digest at some byte count: the smallest counts first, on the real code"""
    bl = a.bl
    Lq = t.var("Lq", 64 - (bl.bit_length() - 1))
    for lim in (4, 24, 26, 34, 61):
        q = Q("count", conds + [t.bnot(t.conj([t.eq(x, y) for x, y in zip(have, want)])), t.ult(Lq, c(1 << min(lim, 60) - (bl.bit_length() - 1) if lim > 7 else 4, Lq.w))], 30)
        solver.solve_many([q], jobs=1)
        if q.result != "sat":
            continue
        total = q.env.get("Lq", 0) * bl + b
        msg = bytes((7 * i + 3) & 255 for i in range(bl + b))
        state = a.algo.start()
        state = a.algo.fn(state, [c(x, 8) for x in msg[:bl]])
        data = a.algo.pad([c(x, 8) for x in msg[bl:]], c(8 * total, 64))
        for i in range(0, len(data), bl):
            state = a.algo.fn(state, data[i:i + bl])
        exp = bytes(t.cval(x) for x in a.algo.out(state)).hex()
        line = "%s.poke %x %x %s" % (a.key, R.lo, total, hx(msg))
        what = "%s digest of a message of %d bytes (state after that many bytes)" % (a.key, total)
        if total <= 1 << 24:
            z = bytes(total)
            line, exp, what = "rep %s %x" % (a.key, total), concrete(a.key, z).hex(), "%s digest of %d zero bytes" % (a.key, total)
        if native_check(ctx, rep, "cpp", [(line, exp)], what):
            return True
    return False


for _k in ("sha256", "sha512"):
    unit("h.inc/%s" % _k, ["ir", "cpp"], limit=240, cost=5, key=_k)(inc_unit)


# ---------------------------------------------------------------- one-shot digests of messages of any length

def longmsg_unit(ctx, rep, key, lang):
    """the message is an unbounded read-only memory, its length q * block + b for every b and all q"""
    a = ALGOS[key]
    bl = a.bl
    lb = bl.bit_length() - 1
    H = CppHash(ctx, a) if lang == "cpp" else JavaHash(ctx, a)
    mach = H.C.mach if lang == "cpp" else H.M
    rep.use(mach)
    mach.obligations = []
    iw = 64 if lang == "cpp" else 32
    good = 0
    label = "%s/%s of a message of any length" % (key, lang)
    pre = []
    for b in range(bl):
        qv = t.var("q", (61 if lang == "cpp" else 31) - lb)
        n = t.concat_lsb([c(b, lb), qv, c(0, iw - lb - qv.w)])
        rd = lambda i: t.uf("mem_msg", 8, [t.add(t.concat_lsb([c(0, lb), qv, c(0, iw - lb - qv.w)]), c(i, iw))])
        tail = [rd(i) for i in range(b)]
        S = a.fold(a.algo.start(), t.concat_lsb([c(0, lb), qv, c(0, iw - lb - qv.w)]))
        # for q = 0 the fold is the initial state
        bits = t.zext(n, 64) if iw == 32 else n
        data = a.algo.pad(tail, t.shl(bits, c(3, 64)))
        uf = a.uf()
        for i in range(0, len(data), bl):
            S = uf(S, data[i:i + bl])
        want = a.algo.out(S)
        if lang == "cpp":
            st = H.C.start()
            m = H.C.mach.lazy_obj(st, n, "msg")
            o = H.C.buf(st, a.outlen, "out")
            rets = H.C.call(CPPFN[key][0], [m, n, o], st)
            paths = [(s.pc, [H.C.read(s, o, 1, i) for i in range(a.outlen)]) for s, _ in rets]
        else:
            st = H.J.start()
            m = H.M.lazy_bytes(st, "msg", n)
            cls, meth = JMETH[key]
            rets = H.M.call(cls, meth, [m], st, desc="([B)" + ("Lio/nayuki/bitcoin/crypto/Sha256Hash;" if cls == "Sha256" else "[B"))
            paths = [(s.pc, jbytes(H.M, s, v)) for s, v in rets]
        lab = "%s, remainder %d" % (label, b)

        ok = True
        for pc, out in paths:
            if out is not None and all(x is y for x, y in zip(out, want)):
                solver.STATS["structural"] += 1
                continue
            conds = list(pc) + ([t.bnot(t.conj([t.eq(x, y) for x, y in zip(out, want)]))] if out is not None else [])
            q = Q(lab, conds, 20)
            solver.solve_many([q], jobs=1)
            if q.result == "unsat":
                continue
            ok = False
            done = False
            if q.result == "sat":
                for lim in (3, 10, 23, 24, 26, 27, 28):
                    q2 = Q(lab, conds + [t.ult(qv, c(1 << lim, qv.w))], 20)
                    if lim >= qv.w:
                        break
                    solver.solve_many([q2], jobs=1)
                    if q2.result != "sat":
                        continue
                    total = q2.env.get("q", 0) * bl + b
                    if total > 1 << 33:
                        break
                    h = hashlib.new({"rmd160": "ripemd160"}.get(key, key))
                    z = bytes(1 << 20)
                    for _ in range(total >> 20):
                        h.update(z)
                    h.update(z[:total & 0xFFFFF])
                    line = "rep %s %x" % (key, total) + (" 0" if lang == "java" else "")
                    if native_check(ctx, rep, lang, [(line, h.hexdigest())], "%s of %d zero bytes" % (key, total)):
                        return
            rep.claim(lab, "undecided", 0, q.result)
        cov = t.disj([t.conj(list(pc)) for pc, _ in paths])
        if ok and cov is not t.TRUE:
            q = Q(lab, list(pre) + [t.bnot(cov)], 20)
            solver.solve_many([q], jobs=1)
            if q.result != "unsat":
                rep.claim(lab, "undecided", 0, "paths not exhaustive")
                ok = False
        good += ok and bool(paths)
    if good == bl:
        rep.claim("%s (up to %s bytes), whole-block prefix opaque" % (label, "2^61" if lang == "cpp" else "2^31-1"), "proved")
    rep.bound("%s: every length up to %s; the state after the whole-block prefix is the opaque fold of the block function (block loop itself decided for 0..2 blocks)" % (label, "2^61" if lang == "cpp" else "2^31-1"))
    solve_obligations(ctx, rep, mach, pre, label)


for _k, _l in (("sha256", "java"), ("sha512", "java"), ("rmd160", "java"), ("rmd160", "cpp")):
    unit("h.long/%s/%s" % (_k, _l), ["ir", "cpp"] if _l == "cpp" else ["java"], limit=240, cost=4, key=_k, lang=_l)(longmsg_unit)
