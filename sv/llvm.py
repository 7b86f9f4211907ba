"""Symbolic execution of LLVM IR over the term layer."""
import hashlib, os, re, subprocess, sys
from . import term as t
from .term import T
from .engine import Machine, State, Ptr, PtrIte, Unsupported, NoMerge, merge_values, Obligation
from .llvmir import parse_module, PTR, VOID, mkty

LLVM = "/usr/lib/llvm-18/bin/"
NULL = Ptr(0, t.const(0, 64))


class Obj:
    """A memory object: list of (value, k) byte entries; value is a term or pointer, k the byte within it."""
    __slots__ = ("size", "cells", "name", "const", "lazy", "freed", "addrvar", "align")

    def __init__(self, size, name, cells=None, const=False, lazy=None, align=16):
        self.size = size          # int, or a 64-bit term for lazy objects
        self.cells = cells if cells is not None else [None] * size
        self.name = name
        self.const = const
        self.lazy = lazy          # UF name for unbounded read-only contents
        self.freed = False
        self.align = align

    def copy(self):
        o = Obj(self.size, self.name, None if self.cells is None else list(self.cells), self.const, self.lazy, self.align)
        o.freed = self.freed
        return o

    def merge(self, c, other):
        if self.lazy or other.lazy:
            return self
        o = self.copy()
        cells = o.cells
        oc = other.cells
        if len(cells) != len(oc):
            raise NoMerge()
        memo = {}
        for i in range(len(cells)):
            a, b = cells[i], oc[i]
            if a is b or a == b:
                continue
            if a is None or b is None:
                cells[i] = a if b is None else b
                continue
            (va, ka), (vb, kb) = a, b
            if ka == kb and (not isinstance(va, T)) == (not isinstance(vb, T)) and (not isinstance(va, T) or va.w == vb.w):
                key = (id(va), id(vb))
                r = memo.get(key)
                if r is None:
                    r = memo[key] = merge_values(c, va, vb)
                cells[i] = (r, ka)
            elif isinstance(va, T) and isinstance(vb, T):
                x, y = byte_of(a), byte_of(b)
                cells[i] = (t.ite(c, x, y), 0)
            else:
                raise NoMerge()
        return o


def byte_of(e):
    v, k = e
    if v.w == 8:
        return v
    return t.extract(v, 8 * k + 7, 8 * k)


def fresh_undef():
    return t.fresh("undef", 8)


_symcache = {}


class LLVMMachine(Machine):
    def __init__(self, module, **kw):
        Machine.__init__(self, **kw)
        self.m = module
        self.stubs = {}
        self.globals = {}
        self.g0 = State()
        self.names = {}
        self.undef_reads = 0
        self.call_depth = 0
        self.trace_calls = {}
        self._init_globals()
        self.check_align = False
        self.hooks = {}

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, name, const=False, align=16):
        oid = next(self.oids)
        st.mem[oid] = Obj(size, name, const=const, align=align)
        st.owned.add(oid)
        return Ptr(oid, t.const(0, 64))

    def lazy_obj(self, st, size_term, name):
        oid = next(self.oids)
        o = Obj(size_term, name, cells=[], const=True, lazy=name)
        st.mem[oid] = o
        return Ptr(oid, t.const(0, 64))

    def _init_globals(self):
        st = self.g0
        for name, (ty, init, cst) in self.m.globals.items():
            if name.startswith("@llvm."):
                continue
            size, al = self.m.layout(ty)
            p = self.new_obj(st, size, name, const=cst)
            self.globals[name] = p
        for name, (ty, init, cst) in self.m.globals.items():
            if name not in self.globals or init is None:
                continue
            p = self.globals[name]
            self._write_init(st.mem[p.oid], 0, ty, init)

    def _write_init(self, o, off, ty, v):
        k = v[0]
        size, _ = self.m.layout(ty)
        rt = self.m.resolve(ty)
        if k == "zero":
            for i in range(size):
                o.cells[off + i] = (t.const(0, 8), 0)
        elif k == "undef":
            pass
        elif k == "str":
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (t.const(b, 8), 0)
        elif k == "agg":
            if rt.kind == "struct":
                for i in range(size):
                    o.cells[off + i] = (t.const(0, 8), 0)
                for i, (et, ev) in enumerate(v[1]):
                    fo, _ = self.m.field_offset(rt, i)
                    self._write_init(o, off + fo, et, ev)
            else:
                es, _ = self.m.layout(rt.b)
                for i, (et, ev) in enumerate(v[1]):
                    self._write_init(o, off + i * es, et, ev)
        elif k == "int":
            c = t.const(v[1], size * 8)
            for i in range(size):
                o.cells[off + i] = (c, i)
        else:
            val = self.value(v, ty, None)
            for i in range(8):
                o.cells[off + i] = (val, i)

    # ------------------------------------------------------------ values
    def value(self, v, ty, regs):
        k = v[0]
        if k == "reg":
            r = regs.get(v[1])
            if r is None:
                raise Unsupported("undefined register " + v[1])
            return r
        if k == "int":
            return t.const(v[1], self.m.resolve(ty).a)
        if k == "null":
            return NULL
        if k == "glob":
            n = self.m.aliases.get(v[1], v[1])
            if n in self.globals:
                return self.globals[n]
            if n in self.m.funcs:
                return ("fn", n)
            raise Unsupported("global " + n)
        if k == "undef":
            ty = self.m.resolve(ty)
            if ty.kind == "int":
                return t.fresh("undef", ty.a)
            if ty.kind == "ptr":
                return NULL
            if ty.kind in ("struct", "array"):
                es = ty.a if ty.kind == "struct" else [ty.b] * ty.a
                return tuple(self.value(("undef",), e, regs) for e in es)
            raise Unsupported("undef of " + ty.kind)
        if k == "zero":
            ty = self.m.resolve(ty)
            if ty.kind == "int":
                return t.const(0, ty.a)
            if ty.kind == "ptr":
                return NULL
            es = ty.a if ty.kind == "struct" else [ty.b] * ty.a
            return tuple(self.value(("zero",), e, regs) for e in es)
        if k == "agg":
            return tuple(self.value(ev, et, regs) for et, ev in v[1])
        if k == "cgep":
            base = self.value(v[2][0][1], PTR, regs)
            return self.gep(v[1], base, v[2][1:], regs)
        if k == "ccast":
            return self.value(v[3], v[2], regs)
        raise Unsupported("value kind " + k)

    def gep(self, bt, base, ops, regs):
        off = t.const(0, 64)
        cur = bt
        for i, (ot, ov) in enumerate(ops):
            idx = self.value(ov, ot, regs)
            if i == 0:
                size, _ = self.m.layout(cur)
                off = t.linear(0, [(1, off), (size, t.sext(idx, 64) if idx.w < 64 else idx)], 64)
                continue
            cur = self.m.resolve(cur)
            if cur.kind == "struct":
                fo, ft = self.m.field_offset(cur, t.cval(idx))
                off = t.linear(fo, [(1, off)], 64)
                cur = ft
            elif cur.kind in ("array", "vector"):
                cur = cur.b
                size, _ = self.m.layout(cur)
                off = t.linear(0, [(1, off), (size, t.sext(idx, 64) if idx.w < 64 else idx)], 64)
            else:
                raise Unsupported("gep into " + cur.kind)
        return self.ptr_add(base, off)

    def ptr_add(self, p, off):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.ptr_add(p.a, off), self.ptr_add(p.b, off))
        if not isinstance(p, Ptr):
            raise Unsupported("pointer arithmetic on %r" % (p,))
        return Ptr(p.oid, t.add(p.off, off), p.isnull)

    # ------------------------------------------------------------ memory access
    def _bounds(self, st, p, n, where, write):
        if p.oid == 0:
            self.oblige(st, t.FALSE, "null-deref", where)
            return None
        if p.isnull is not t.FALSE:
            self.oblige(st, t.bnot(p.isnull), "null-deref", where)
        o = st.mem.get(p.oid)
        if o is None:
            self.oblige(st, t.FALSE, "dead-object", where)
            return None
        if o.lazy:
            size = o.size
            if isinstance(size, int):
                size = t.const(size, 64)
            c = t.band(t.ule(p.off, size), t.ule(t.const(n, 64), t.sub(size, p.off)))
            self.oblige(st, c, "bounds", where)
            if write:
                self.oblige(st, t.FALSE, "const-write", where)
            return o
        if p.off.op == "const":
            ok = p.off.args[0] + n <= o.size
            c = t.boolc(ok)
        elif o.size < n:
            c = t.FALSE
        else:
            c = t.ule(p.off, t.const(o.size - n, 64))
        if write and o.const:
            self.oblige(st, t.FALSE, "const-write", where)
            return None
        self.obkinds["bounds"] = self.obkinds.get("bounds", 0) + 1
        if c is not t.TRUE:
            self.obligations.append(Obligation(st.pc, c, "bounds", where))
            if c is t.FALSE:
                return None
        return o

    def read_cells(self, cells, off, n):
        e = cells[off]
        if e is not None:
            v, k = e
            if k == 0:
                w = v.w if isinstance(v, T) else 64
                if w == n * 8:
                    for i in range(1, n):
                        f = cells[off + i]
                        if f is None or f[0] is not v or f[1] != i:
                            break
                    else:
                        return v
        parts = []
        i = 0
        while i < n:
            e = cells[off + i]
            if e is None:
                u = fresh_undef()
                self.undef_reads += 1
                parts.append(u)
                i += 1
                continue
            v, k = e
            if not isinstance(v, T):
                if isinstance(v, (Ptr, PtrIte)):
                    parts.append(("ptr", v, k))
                    i += 1
                    continue
                raise Unsupported("read of %r" % (v,))
            # run of consecutive bytes of the same value
            j = 1
            while i + j < n:
                f = cells[off + i + j]
                if f is None or f[0] is not v or f[1] != k + j:
                    break
                j += 1
            parts.append(v if (k == 0 and v.w == 8 * j) else t.extract(v, 8 * (k + j) - 1, 8 * k))
            i += j
        if any(isinstance(p, tuple) for p in parts):
            if n == 8 and all(isinstance(p, tuple) and p[2] == i for i, p in enumerate(parts)):
                vs = [p[1] for p in parts]
                if all(x == vs[0] for x in vs):
                    return vs[0]
            raise Unsupported("partial pointer read")
        return t.concat_lsb(parts)

    def candidates(self, off, size, n):
        """concrete offsets a symbolic offset may take"""
        lo, hi = off.lo, min(off.hi, size - n)
        step = 1
        # alignment from the linear form
        if off.op == "concat" and off.args[0].op == "const" and off.args[0].args[0] == 0:
            step = 1 << off.args[0].w
            lo = (lo + step - 1) // step * step
        elif off.op == "add":
            import math
            g = 0
            for c, x in off.args[1]:
                cs = c if c < 1 << 63 else (1 << 64) - c
                if x.op == "concat" and x.args[0].op == "const" and x.args[0].args[0] == 0:
                    cs <<= x.args[0].w
                g = math.gcd(g, cs)
            g &= -g     # 2^64 wraps: only powers of two survive
            if g > 1:
                k = off.args[0] % g
                step = g
                lo = lo + (k - lo) % step
        return range(lo, hi + 1, step)

    def load(self, st, p, ty, where):
        ty = self.m.resolve(ty)
        if ty.kind in ("struct", "array"):
            es = ty.a if ty.kind == "struct" else [ty.b] * ty.a
            out = []
            for i, e in enumerate(es):
                o = self.m.field_offset(ty, i)[0] if ty.kind == "struct" else i * self.m.layout(ty.b)[0]
                out.append(self.load(st, self.ptr_add(p, t.const(o, 64)), e, where))
            return tuple(out)
        n = self.m.layout(ty)[0]
        v = self.load_n(st, p, n, where)
        if v is None:
            return None
        if ty.kind == "int":
            if not isinstance(v, T):
                raise Unsupported("integer load of a pointer")
            if ty.a < 8 * n:
                if ty.a == 1:
                    # bool objects hold 0 or 1
                    self.oblige(st, t.ult(v, t.const(2, v.w)), "bool-range", where)
                return t.trunc(v, ty.a)
            return v
        if ty.kind == "ptr":
            if isinstance(v, T):
                if v.op == "const" and v.args[0] == 0:
                    return NULL
                raise Unsupported("pointer load of integer")
            return v
        raise Unsupported("load " + ty.kind)

    def load_n(self, st, p, n, where):
        if isinstance(p, PtrIte):
            a = self.load_n(st, p.a, n, where)
            b = self.load_n(st, p.b, n, where)
            return merge_values(p.c, a, b)
        if not isinstance(p, Ptr):
            raise Unsupported("load from %r" % (p,))
        o = self._bounds(st, p, n, where, False)
        if o is None:
            return None
        if o.lazy:
            return t.concat_lsb([t.uf("mem_" + o.lazy, 8, [t.add(p.off, t.const(i, 64))]) for i in range(n)])
        if p.off.op == "const":
            return self.read_cells(o.cells, p.off.args[0], n)
        cands = self.candidates(p.off, o.size, n)
        if len(cands) > 4096:
            raise Unsupported("symbolic load over %d offsets" % len(cands))
        if not len(cands):
            return None
        vals = [(k, self.read_cells(o.cells, k, n)) for k in cands]
        r = vals[-1][1]
        for k, v in vals[-2::-1]:
            r = merge_values(t.eq(p.off, t.const(k, 64)), v, r)
        return r

    def store(self, st, p, v, n, where):
        if isinstance(p, PtrIte):
            # conditional store on both objects
            for q, c in ((p.a, p.c), (p.b, t.bnot(p.c))):
                old = self.load_n(st, q, n, where)
                if old is None:
                    return False
                if not self.store(st, q, merge_values(c, v, old), n, where):
                    return False
            return True
        o = self._bounds(st, p, n, where, True)
        if o is None:
            return False
        o = st.wobj(p.oid)
        if p.off.op == "const":
            off = p.off.args[0]
            cells = o.cells
            for i in range(n):
                cells[off + i] = (v, i)
            return True
        cands = self.candidates(p.off, o.size, n)
        if len(cands) > 4096:
            raise Unsupported("symbolic store over %d offsets" % len(cands))
        if not isinstance(v, T):
            raise Unsupported("symbolic store of pointer")
        step_lt = len(cands) > 1 and cands.step < n
        if not step_lt:
            for k in cands:
                old = self.read_cells(o.cells, k, n) if any(o.cells[k + i] is not None for i in range(n)) else None
                new = v if old is None else t.ite(t.eq(p.off, t.const(k, 64)), v, old)
                if old is None:
                    new = t.ite(t.eq(p.off, t.const(k, 64)), v, t.fresh("undef", 8 * n))
                for i in range(n):
                    o.cells[k + i] = (new, i)
        else:
            old = list(o.cells)
            for k in cands:
                c = t.eq(p.off, t.const(k, 64))
                for i in range(n):
                    e = o.cells[k + i]
                    ob = byte_of(e) if e is not None else fresh_undef()
                    o.cells[k + i] = (t.ite(c, t.extract(v, 8 * i + 7, 8 * i), ob), 0)
        return True

    # harness helpers
    def write_term(self, st, p, v, where="harness"):
        return self.store(st, p, v, v.w // 8, where)

    def read_term(self, st, p, nbytes):
        return self.load_n(st, p, nbytes, "harness")

    # ------------------------------------------------------------ pointers as integers / comparisons
    def ptr_int(self, p):
        if isinstance(p, PtrIte):
            return t.ite(p.c, self.ptr_int(p.a), self.ptr_int(p.b))
        if p.oid == 0:
            return p.off
        base = t.var("addr_%d" % p.oid, 64, 4096, (1 << 47) - 1)
        r = t.add(base, p.off)
        if p.isnull is not t.FALSE:
            r = t.ite(p.isnull, t.const(0, 64), r)
        return r

    def ptr_eq(self, a, b):
        if isinstance(a, PtrIte):
            return t.ite(a.c, self.ptr_eq(a.a, b), self.ptr_eq(a.b, b))
        if isinstance(b, PtrIte):
            return self.ptr_eq(b, a)
        if isinstance(a, tuple) or isinstance(b, tuple):
            return t.boolc(a == b)
        if a.oid == 0 and b.oid == 0:
            return t.eq(a.off, b.off)
        if a.oid == 0 or b.oid == 0:
            return a.isnull if b.oid == 0 else b.isnull
        if a.oid == b.oid:
            if a.isnull is t.FALSE and b.isnull is t.FALSE:
                return t.eq(a.off, b.off)
            return t.bor(t.band(a.isnull, b.isnull), t.band(t.bnot(a.isnull), t.bnot(b.isnull), t.eq(a.off, b.off)))
        return t.band(a.isnull, b.isnull)

    # ------------------------------------------------------------ instructions
    def exec_block(self, fn, block, regs, st):
        ex = getattr(fn, "exec", None)
        if ex is not None:
            return ex(self, block, regs, st)
        work = [(0, dict(regs), st)]
        instrs = fn.blocks[block]
        outs = []
        while work:
            idx, regs, st = work.pop()
            n = len(instrs)
            while idx < n:
                ins = instrs[idx]
                op = ins[0]
                idx += 1
                self.steps += 1
                if self.steps > self.step_limit:
                    raise Unsupported("step limit")
                if op == "phi":
                    continue
                if op == "call":
                    res = self.exec_call(fn, ins, regs, st)
                    if not res:
                        break
                    for s2, rv in res[1:]:
                        r2 = dict(regs)
                        if ins[1] is not None:
                            r2[ins[1]] = rv
                        work.append((idx, r2, s2))
                    st, rv = res[0]
                    if ins[1] is not None:
                        regs[ins[1]] = rv
                    continue
                if op == "br":
                    outs.append(self._edge(fn, block, ins[1], regs, st))
                    break
                if op == "condbr":
                    c = self.value(ins[1], mkty("int", 1), regs)
                    a, b = ins[2], ins[3]
                    if a == b:
                        outs.append(self._edge(fn, block, a, regs, st))
                        break
                    ab, bb = a in fn.abort_blocks, b in fn.abort_blocks
                    if c.op != "const" and self.lazy_asserts and ab != bb:
                        good = t.bnot(c) if ab else c
                        if good not in st.pc and not (t.bnot(good) in st.pc):
                            self.oblige(st, good, "assert", "%s:%s" % (fn.name, self.assert_msg(fn, a if ab else b)))
                            outs.append(self._edge(fn, block, b if ab else a, regs, st))
                            break
                    for taken, s2 in self.branch(st, c):
                        outs.append(self._edge(fn, block, a if taken else b, regs, s2))
                    break
                if op == "switch":
                    v = self.value(ins[2], ins[1], regs)
                    rest = st
                    dead = False
                    for cv, lb in ins[4]:
                        c = t.eq(v, t.const(cv, v.w))
                        bs = self.branch(rest, c)
                        rest = None
                        for taken, s2 in bs:
                            if taken:
                                outs.append(self._edge(fn, block, lb, regs, s2))
                            else:
                                rest = s2
                        if rest is None:
                            dead = True
                            break
                    if not dead:
                        outs.append(self._edge(fn, block, ins[3], regs, rest))
                    break
                if op == "ret":
                    outs.append(("ret", st, None if ins[2] is None else self.value(ins[2], ins[1], regs)))
                    break
                if op == "unreachable":
                    self.aborts.append((st.pc, fn.name + ":unreachable"))
                    self.obligations.append(Obligation(st.pc, t.FALSE, "unreachable", fn.name))
                    break
                ok = self.exec_simple(fn, ins, regs, st)
                if ok is False:
                    self.aborts.append((st.pc, fn.name + ":" + op))
                    break
        return outs

    def assert_msg(self, fn, block):
        for ins in fn.blocks[block]:
            if ins[0] == "call" and ins[3] == "@__assert_fail":
                v = ins[4][0][1]
                if v[0] == "glob":
                    init = self.m.globals[v[1]][1]
                    if init and init[0] == "str":
                        return init[1].rstrip(b"\0").decode("latin1")
        return "abort"

    def _edge(self, fn, block, nb, regs, st):
        phis = [i for i in fn.blocks[nb] if i[0] == "phi"]
        if phis:
            new = {}
            for i in phis:
                for v, pb in i[3]:
                    if pb == block:
                        if v[0] == "undef":
                            new[i[1]] = self.value(v, i[2], regs)
                        else:
                            new[i[1]] = self.value(v, i[2], regs)
                        break
            live = fn.livein(nb)
            regs = {r: x for r, x in regs.items() if r in live}
            regs.update(new)
        return ("br", nb, regs, st)

    def where(self, fn, ins):
        return fn.name

    def exec_simple(self, fn, ins, regs, st):
        op = ins[0]
        val = self.value
        if op == "gep":
            regs[ins[1]] = self.gep(ins[2], val(ins[3], PTR, regs), ins[4], regs)
            return
        if op == "load":
            v = self.load(st, val(ins[3], PTR, regs), ins[2], fn.name)
            if v is None:
                return False
            regs[ins[1]] = v
            return
        if op == "store":
            v = val(ins[3], ins[2], regs)
            p = val(ins[4], PTR, regs)
            return self.store_ty(st, p, v, ins[2], fn.name)
        if op == "bin":
            ty = self.m.resolve(ins[3])
            if ty.kind != "int":
                raise Unsupported("vector op")
            a = val(ins[4], ty, regs)
            b = val(ins[5], ty, regs)
            regs[ins[1]] = self.binop(fn, st, ins[2], a, b, ins[6])
            return
        if op == "icmp":
            ty = self.m.resolve(ins[3])
            a = val(ins[4], ty, regs)
            b = val(ins[5], ty, regs)
            regs[ins[1]] = self.icmp(ins[2], a, b)
            return
        if op == "cast":
            v = val(ins[4], ins[3], regs)
            w = self.m.resolve(ins[5]).a
            c = ins[2]
            if c == "zext":
                r = t.zext(v, w)
            elif c == "sext":
                r = t.sext(v, w)
            elif c == "trunc":
                r = t.trunc(v, w)
            elif c == "ptrtoint":
                r = self.ptr_int(v)
                if w != 64:
                    raise Unsupported("ptrtoint width")
            elif c == "inttoptr":
                raise Unsupported("inttoptr")
            else:
                r = v
            regs[ins[1]] = r
            return
        if op == "select":
            c = val(ins[3], mkty("int", 1), regs)
            a = val(ins[4], ins[2], regs)
            b = val(ins[5], ins[2], regs)
            regs[ins[1]] = (a if c.args[0] else b) if c.op == "const" else merge_values(c, a, b)
            return
        if op == "alloca":
            cnt = val(ins[3], mkty("int", 64), regs) if ins[3][0] != "int" else t.const(ins[3][1], 64)
            if cnt.op != "const":
                raise Unsupported("symbolic alloca")
            size, al = self.m.layout(ins[2])
            regs[ins[1]] = self.new_obj(st, size * t.cval(cnt), fn.name + ins[1], align=al)
            return
        if op == "extractvalue":
            v = val(ins[3], ins[2], regs)
            for i in ins[4]:
                v = v[i]
            regs[ins[1]] = v
            return
        if op == "insertvalue":
            v = val(ins[3], ins[2], regs)
            e = val(ins[5], ins[4], regs)
            idx = ins[6]

            def put(v, idx):
                if not idx:
                    return e
                return v[:idx[0]] + (put(v[idx[0]], idx[1:]),) + v[idx[0] + 1:]
            regs[ins[1]] = put(v, idx)
            return
        if op == "freeze":
            regs[ins[1]] = val(ins[3], ins[2], regs)
            return
        raise Unsupported("exec " + op)

    def store_ty(self, st, p, v, ty, where):
        ty = self.m.resolve(ty)
        if ty.kind in ("struct", "array"):
            es = ty.a if ty.kind == "struct" else [ty.b] * ty.a
            for i, e in enumerate(es):
                o = self.m.field_offset(ty, i)[0] if ty.kind == "struct" else i * self.m.layout(ty.b)[0]
                if self.store_ty(st, self.ptr_add(p, t.const(o, 64)), v[i], e, where) is False:
                    return False
            return True
        n = self.m.layout(ty)[0]
        if ty.kind == "int" and v.w < 8 * n:
            v = t.zext(v, 8 * n)
        return self.store(st, p, v, n, where)

    def binop(self, fn, st, op, a, b, flags):
        w = a.w
        if op == "add":
            if "nsw" in flags:
                self.signed_ok(fn, st, a, b, "add")
            return t.add(a, b)
        if op == "sub":
            if "nsw" in flags:
                self.signed_ok(fn, st, a, b, "sub")
            return t.sub(a, b)
        if op == "mul":
            if "nsw" in flags:
                self.signed_ok(fn, st, a, b, "mul")
            return t.mul(a, b)
        if op == "and":
            return t.band(a, b)
        if op == "or":
            return t.bor(a, b)
        if op == "xor":
            return t.bxor(a, b)
        if op in ("shl", "lshr", "ashr"):
            self.oblige(st, t.ult(b, t.const(w, w)) if w > 1 else t.eq(b, t.const(0, 1)), "shift-range", fn.name)
            if op == "shl":
                return t.shl(a, b)
            if op == "lshr":
                return t.lshr(a, b)
            return t.ashr(a, b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.oblige(st, t.ne(b, t.const(0, w)), "div-zero", fn.name)
            return {"udiv": t.udiv, "urem": t.urem, "sdiv": t.sdiv, "srem": t.srem}[op](a, b)
        raise Unsupported("binop " + op)

    def signed_ok(self, fn, st, a, b, op):
        """no signed overflow"""
        w = a.w
        s = 1 << (w - 1)
        if a.hi < s and b.hi < s:
            if op == "add" and a.hi + b.hi < s:
                self.obkinds["signed-overflow"] = self.obkinds.get("signed-overflow", 0) + 1
                return
            if op == "sub":
                self.obkinds["signed-overflow"] = self.obkinds.get("signed-overflow", 0) + 1
                return
            if op == "mul" and a.hi * b.hi < s:
                self.obkinds["signed-overflow"] = self.obkinds.get("signed-overflow", 0) + 1
                return
        w2 = w + 1 if op != "mul" else 2 * w
        x, y = t.sext(a, w2), t.sext(b, w2)
        r = {"add": t.add, "sub": t.sub, "mul": t.mul}[op](x, y)
        self.oblige(st, t.eq(r, t.sext(t.trunc(r, w), w2)), "signed-overflow", fn.name)

    def icmp(self, pred, a, b):
        if not isinstance(a, T) or not isinstance(b, T):
            if pred in ("eq", "ne"):
                e = self.ptr_eq(a, b)
                return e if pred == "eq" else t.bnot(e)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid:
                a, b = a.off, b.off
            else:
                raise Unsupported("pointer ordering")
        if pred == "eq":
            return t.eq(a, b)
        if pred == "ne":
            return t.ne(a, b)
        if pred == "ult":
            return t.ult(a, b)
        if pred == "ugt":
            return t.ult(b, a)
        if pred == "ule":
            return t.ule(a, b)
        if pred == "uge":
            return t.ule(b, a)
        if pred == "slt":
            return t.slt(a, b)
        if pred == "sgt":
            return t.slt(b, a)
        if pred == "sle":
            return t.sle(a, b)
        if pred == "sge":
            return t.sle(b, a)
        raise Unsupported("icmp " + pred)

    # ------------------------------------------------------------ calls
    def exec_call(self, fn, ins, regs, st):
        callee = ins[3]
        callee = self.m.aliases.get(callee, callee)
        args = [self.value(v, ty, regs) for ty, v in ins[4]]
        res = self.call(callee, args, st, fn)
        if callee not in self.m.funcs and ins[1] is not None:
            # machine code leaves a whole register: the caller uses the declared width
            rt = self.m.resolve(ins[2])
            if rt.kind == "int":
                out = []
                for s, rv in res:
                    if isinstance(rv, T) and rv.w > rt.a:
                        if rt.a == 1:
                            self.oblige(s, t.ult(t.trunc(rv, 8), t.const(2, 8)), "bool-result", callee)
                        rv = t.trunc(rv, rt.a)
                    out.append((s, rv))
                res = out
        return res

    def demangle(self, name):
        r = self.names.get(name)
        if r is None:
            r = self.names[name] = demangle(name[1:].strip('"'))
        return r

    def call(self, callee, args, st, caller=None):
        """Returns list of (state, return value)."""
        d = self.demangle(callee)
        h = self.stubs.get(d)
        if h is not None:
            r = h(self, st, args)
            if r is not NotImplemented:
                self.trace_calls[d] = self.trace_calls.get(d, 0) + 1
                return r if isinstance(r, list) else [(st, r)]
        f = self.m.funcs.get(callee)
        if f is None:
            return self.external(callee, d, args, st)
        f.prepare()
        self.functions_used.add(d)
        if self.call_depth > 60:
            raise Unsupported("recursion depth")
        regs = {}
        for (ty, reg, byval), v in zip(f.params, args):
            if byval is not None:
                size, al = self.m.layout(byval)
                p = self.new_obj(st, size, f.name + reg, align=al)
                self.memcpy(st, p, v, size, f.name)
                v = p
            regs[reg] = v
        first = next(self.oids)
        self.call_depth += 1
        try:
            rets = self.run_activation(f, regs, st)
        finally:
            self.call_depth -= 1
        # locals die
        for s, rv in rets:
            for oid in [o for o in s.mem if o > first]:
                nm = s.mem[oid].name
                if nm.startswith(f.name + "%"):
                    del s.mem[oid]
        return rets

    def memcpy(self, st, dst, src, n, where):
        if n == 0:
            return True
        if isinstance(src, PtrIte) or isinstance(dst, PtrIte) or dst.off.op != "const" or src.off.op != "const" or st.mem.get(src.oid) is None or st.mem[src.oid].lazy:
            vals = [self.load_n(st, self.ptr_add(src, t.const(i, 64)), 1, where) for i in range(n)]
            if any(v is None for v in vals):
                return False
            for i, v in enumerate(vals):
                if self.store(st, self.ptr_add(dst, t.const(i, 64)), v, 1, where) is False:
                    return False
            return True
        so = self._bounds(st, src, n, where, False)
        do = self._bounds(st, dst, n, where, True)
        if so is None or do is None:
            return False
        a = t.cval(src.off)
        b = t.cval(dst.off)
        data = so.cells[a:a + n]
        do = st.wobj(dst.oid)
        do.cells[b:b + n] = data
        return True

    def conc_len(self, n):
        if n.op == "const":
            return t.cval(n)
        return None

    def external(self, callee, d, args, st):
        name = callee[1:]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            dst, src, n = args[:3]
            k = self.conc_len(n)
            res = []
            for kk, s in self.split_len(st, n):
                if kk == 0:
                    res.append((s, dst))
                    continue
                if name.endswith("memcpy") or "memcpy" in name:
                    if isinstance(src, Ptr) and isinstance(dst, Ptr) and src.oid == dst.oid and src.off is not dst.off:
                        diff = t.sub(src.off, dst.off)
                        self.oblige(s, t.band(t.ule(t.const(kk, 64), diff), t.ule(diff, t.const(-kk, 64))), "memcpy-overlap", "memcpy")
                if self.memcpy(s, dst, src, kk, name) is not False:
                    res.append((s, dst))
            return res
        if name.startswith("llvm.memset") or name == "memset":
            dst, v, n = args[:3]
            v = t.trunc(v, 8)
            res = []
            for k, s in self.split_len(st, n):
                ok = True
                if k:
                    if isinstance(dst, Ptr) and dst.off.op == "const":
                        o = self._bounds(s, dst, k, name, True)
                        if o is None:
                            ok = False
                        else:
                            o = s.wobj(dst.oid)
                            b = t.cval(dst.off)
                            o.cells[b:b + k] = [(v, 0)] * k
                    else:
                        for i in range(k):
                            if self.store(s, self.ptr_add(dst, t.const(i, 64)), v, 1, name) is False:
                                ok = False
                                break
                if ok:
                    res.append((s, dst))
            return res
        if name == "memcmp" or name == "bcmp":
            a, b, n = args
            res = []
            for k, s in self.split_len(st, n):
                r = t.const(0, 32)
                for i in range(k - 1, -1, -1):
                    x = self.load_n(s, self.ptr_add(a, t.const(i, 64)), 1, name)
                    y = self.load_n(s, self.ptr_add(b, t.const(i, 64)), 1, name)
                    if x is None or y is None:
                        r = None
                        break
                    r = t.ite(t.eq(x, y), r, t.sub(t.zext(x, 32), t.zext(y, 32)))
                if r is not None:
                    res.append((s, r))
            return res
        if name == "strlen":
            p = args[0]
            return self.strlen(st, p)
        if name in ("strchr", "memchr"):
            return self.strchr(st, args, name)
        if name == "__assert_fail" or name in ("abort", "_ZSt9terminatev", "__cxa_pure_virtual"):
            msg = name
            self.aborts.append((st.pc, msg))
            self.obligations.append(Obligation(st.pc, t.FALSE, "assert", "assert/abort reached"))
            return []
        if name.startswith("llvm.umin") or name.startswith("llvm.umax") or name.startswith("llvm.smin") or name.startswith("llvm.smax"):
            a, b = args
            lt = t.ult(a, b) if name[5] == "u" else t.slt(a, b)
            return [(st, t.ite(lt, a, b) if "min" in name else t.ite(lt, b, a))]
        if name.startswith("llvm.fshl") or name.startswith("llvm.fshr"):
            a, b, c = args
            w = a.w
            if c.op != "const":
                raise Unsupported("funnel shift by symbolic amount")
            s = t.cval(c) % w
            ab = t.concat(a, b)
            if name.startswith("llvm.fshl"):
                return [(st, t.extract(ab, 2 * w - 1 - s, w - s))]
            return [(st, t.extract(ab, w + s - 1, s))]
        if name.startswith("llvm.bswap"):
            return [(st, t.bswap(args[0]))]
        if name.startswith("llvm.abs"):
            a = args[0]
            return [(st, t.ite(t.slt(a, t.const(0, a.w)), t.neg(a), a))]
        if name.startswith("llvm.uadd.with.overflow") or name.startswith("llvm.usub.with.overflow") or name.startswith("llvm.umul.with.overflow"):
            a, b = args
            w = a.w
            f = {"uadd": t.add, "usub": t.sub, "umul": t.mul}[name[5:9]]
            w2 = 2 * w if name[5:9] == "umul" else w + 1
            r = f(t.zext(a, w2), t.zext(b, w2))
            return [(st, (t.trunc(r, w), t.ne(t.extract(r, w2 - 1, w), t.const(0, w2 - w))))]
        if name.startswith("llvm.assume") or name.startswith("llvm.stack") or name.startswith("llvm.trap"):
            return [(st, None)]
        if name == "__cxa_atexit":
            return [(st, t.const(0, 32))]
        raise Unsupported("external function " + d)

    def split_len(self, st, n):
        """forks on a symbolic length"""
        if n.op == "const":
            return [(t.cval(n), st)]
        if n.hi - n.lo > 300:
            raise Unsupported("symbolic length with wide range")
        res = []
        rest = st
        for k in range(n.lo, n.hi + 1):
            bs = self.branch(rest, t.eq(n, t.const(k, n.w)))
            rest = None
            for taken, s in bs:
                if taken:
                    res.append((k, s))
                else:
                    rest = s
            if rest is None:
                break
        return res

    def strlen(self, st, p):
        if isinstance(p, PtrIte) or p.off.op != "const":
            raise Unsupported("strlen of symbolic pointer")
        res = []
        o = st.mem.get(p.oid)
        off = t.cval(p.off)
        i = 0
        cur = st
        while True:
            if off + i >= o.size:
                self.oblige(cur, t.FALSE, "bounds", "strlen")
                return res
            b = self.load_n(cur, Ptr(p.oid, t.const(off + i, 64)), 1, "strlen")
            bs = self.branch(cur, t.eq(b, t.const(0, 8)))
            cur = None
            for taken, s in bs:
                if taken:
                    res.append((s, t.const(i, 64)))
                else:
                    cur = s
            if cur is None:
                return res
            i += 1

    def strchr(self, st, args, name):
        p, ch = args[0], t.trunc(args[1], 8)
        if isinstance(p, PtrIte) or p.off.op != "const":
            raise Unsupported("strchr of symbolic pointer")
        o = st.mem[p.oid]
        base = t.cval(p.off)
        # contents must be concrete
        chars = []
        i = base
        limit = None
        if name == "memchr":
            if args[2].op != "const":
                raise Unsupported("memchr length")
            limit = t.cval(args[2])
        while True:
            if limit is not None and i - base >= limit:
                break
            if i >= o.size:
                self.oblige(st, t.FALSE, "bounds", name)
                return []
            b = self.load_n(st, Ptr(p.oid, t.const(i, 64)), 1, name)
            if b.op != "const" and limit is None:
                raise Unsupported("strchr in symbolic string")
            chars.append((i, b))
            if limit is None and t.cval(b) == 0:
                break
            i += 1
        hits = [(i, t.eq(ch, b)) for i, b in chars]
        off = t.const(0, 64)
        isnull = t.bnot(t.disj([h for _, h in hits]))
        for i, h in hits[::-1]:
            off = t.ite(h, t.const(i, 64), off)
        return [(st, Ptr(p.oid, off, isnull))]


_dem = {}


def demangle(name):
    r = _dem.get(name)
    if r is None:
        r = subprocess.run(["c++filt", name], capture_output=True, text=True).stdout.strip()
        _dem[name] = r
    return r


def demangle_all(names):
    todo = [n for n in names if n not in _dem]
    if todo:
        out = subprocess.run(["c++filt"], input="\n".join(todo) + "\n", capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(todo, out):
            _dem[n] = d.strip()


# ---------------------------------------------------------------- compilation of the real sources

def compile_cpp(src_dir, files, workdir, defines=(), level="mem2reg", extra=()):
    """Compiles the given sources to one IR module; returns its text."""
    outs = []
    procs = []
    for f in files:
        o = os.path.join(workdir, os.path.basename(f).replace(".cpp", "") + ".ll")
        cmd = [LLVM + "clang++", "-std=c++11", "-w", "-fno-exceptions", "-S", "-emit-llvm", "-fno-discard-value-names"]
        if level == "mem2reg":
            cmd += ["-O0", "-Xclang", "-disable-O0-optnone"]
        else:
            cmd += [level, "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]
        cmd += ["-D" + d for d in defines] + ["-I" + src_dir] + list(extra) + [os.path.join(src_dir, f), "-o", o]
        procs.append((subprocess.Popen(cmd, stderr=subprocess.PIPE), f))
        outs.append(o)
    for p, f in procs:
        err = p.communicate()[1]
        if p.returncode != 0:
            raise Unsupported("clang failed on %s: %s" % (f, err.decode()[-500:]))
    linked = os.path.join(workdir, "all.ll")
    subprocess.run([LLVM + "llvm-link", "-S", "-o", linked] + outs, check=True, capture_output=True)
    if level == "mem2reg":
        final = os.path.join(workdir, "final.ll")
        subprocess.run([LLVM + "opt", "-S", "-passes=sroa,mem2reg", linked, "-o", final], check=True, capture_output=True)
    else:
        final = linked
    return open(final).read()


def global_ctors(module):
    g = module.globals.get("@llvm.global_ctors")
    if not g or not g[1] or g[1][0] != "agg":
        return []
    res = []
    for ty, v in g[1][1]:
        res.append(v[1][1][1][1])
    return res


def init_statics(mach, st, order=None):
    fns = global_ctors(mach.m) if order is None else order
    for f in fns:
        rets = mach.call(f, [], st)
        if len(rets) != 1:
            raise Unsupported("static initialiser forked")
        st = rets[0][0]
    return st
