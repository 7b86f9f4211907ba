"""Run-time framework of the checks: building the code under test, running units in worker
processes, replaying counterexamples on the real code, writing the evidence."""
import glob, json, os, pickle, re, select, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from . import term as t, solver

sys.setrecursionlimit(200000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPP = REPO + "/cpp"
JAVA = REPO + "/java"
SAN = ["-std=c++11", "-w", "-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def cpp_files():
    """the library's own translation units: everything but the test and benchmark programs"""
    res = []
    for f in sorted(glob.glob(CPP + "/*.cpp")):
        src = open(f, errors="replace").read()
        if re.search(r"^\s*int\s+main\s*\(", src, re.M):
            continue
        res.append(os.path.basename(f))
    return res


def java_files():
    res = []
    for f in sorted(glob.glob(JAVA + "/**/*.java", recursive=True)):
        src = open(f, errors="replace").read()
        if "org.junit" in src:
            continue
        res.append(f)
    return res


def run_all(cmds, what):
    """runs commands in parallel (8 at a time)"""
    procs, pend = [], list(cmds)
    while pend or procs:
        while pend and len(procs) < 10:
            c = pend.pop(0)
            procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        c, p = procs.pop(0)
        out, err = p.communicate()
        if p.returncode != 0:
            for _, q in procs:
                q.kill()
            raise BuildError("%s: %s\n%s" % (what, " ".join(c), err.decode(errors="replace")[-2000:]))


def _nolimit():
    import resource
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


class Ctx:
    def __init__(self, tier="quick", seed=1):
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.work = tempfile.mkdtemp(prefix="verif_")
        self._mods = {}
        self.errors = {}
        self.built = set()
        self.lock = threading.Lock()
        self.machs = {}

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- building
    def build(self, needs):
        """needs: subset of ir, ir_asm, ir_O1, asmobj, cpp, asm, java"""
        ths = []

        def go(n):
            try:
                getattr(self, "_b_" + n)()
                self.built.add(n)
            except Exception as e:      # noqa
                self.errors[n] = e
        for n in needs:
            th = threading.Thread(target=go, args=(n,))
            th.start()
            ths.append(th)
        for th in ths:
            th.join()

    def _native(self, name, defs, extra):
        d = os.path.join(self.work, name)
        os.makedirs(d)
        objs, cmds = [], []
        for f in [CPP + "/" + x for x in cpp_files()] + [VERIF + "/native/driver.cpp"]:
            o = os.path.join(d, os.path.basename(f)[:-4] + ".o")
            objs.append(o)
            cmds.append(["g++"] + SAN + defs + ["-I" + CPP, "-c", f, "-o", o])
        run_all(cmds, "native " + name)
        run_all([["g++"] + SAN + objs + extra + ["-o", os.path.join(self.work, name + ".exe")]], "link " + name)

    def _order(self, lang):
        """the driver linked so that the named files are initialised in this order"""
        if not os.path.exists(os.path.join(self.work, "cpp.exe")):
            self._b_cpp()
        d = os.path.join(self.work, "cpp")
        first = [x[:-4] + ".o" for x in lang[4:].split("+")]
        objs = [os.path.join(d, x) for x in first] + sorted(os.path.join(d, x) for x in os.listdir(d) if x not in first)
        run_all([["g++"] + SAN + objs + ["-o", os.path.join(self.work, lang + ".exe")]], "link " + lang)

    def _b_cpp(self):
        self._native("cpp", [], [])

    def _b_cpphm(self):
        """the driver with a replaceable HMAC-SHA-512 value"""
        w = os.path.join(self.work, "hmacwrap.o")
        run_all([["g++"] + SAN + ["-I" + CPP, "-c", VERIF + "/native/hmacwrap.cpp", "-o", w]], "hmacwrap")
        self._native("cpphm", [], [w, "-Wl,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh"])

    def _b_asm(self):
        self._native("asm", ["-DUSE_X8664_ASM_IMPL"], [CPP + "/AsmX8664.s"])

    def _b_ctcpp(self, name="ctcpp", defs=(), extra=()):
        """the constant-time driver, compiled as the Makefile does (without the sanitizer), and the trace reader"""
        d = os.path.join(self.work, name)
        os.makedirs(d)
        objs, cmds = [], [["gcc", "-O2", "-w", VERIF + "/native/cthash.c", "-o", os.path.join(d, "cthash")]]
        for f in [CPP + "/" + x for x in cpp_files()] + [VERIF + "/native/ctdriver.cpp"]:
            o = os.path.join(d, os.path.basename(f)[:-4] + ".o")
            objs.append(o)
            cmds.append(["g++", "-std=c++11", "-w", "-O1", "-DNDEBUG", "-no-pie", "-fno-pie"] + list(defs) + ["-I" + CPP, "-c", f, "-o", o])
        run_all(cmds, name)
        run_all([["g++", "-no-pie"] + objs + list(extra) + ["-o", os.path.join(d, "ct")]], "link " + name)

    def _b_ctasm(self):
        self._b_ctcpp("ctasm", ["-DUSE_X8664_ASM_IMPL"], [CPP + "/AsmX8664.s"])

    def _b_ctjava(self):
        d = os.path.join(self.work, "ctjava")
        os.makedirs(d)
        run_all([["javac", "-Xlint:none", "-nowarn", "--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED", "--add-exports", "java.base/jdk.internal.org.objectweb.asm.tree=ALL-UNNAMED",
                  "-d", d, VERIF + "/native/CtDriver.java"]], "javac")

    def ct_traces(self, lang, lines, timeout):
        """lines: 'op operands', or two of them separated by '|'; fingerprints of the traces"""
        todo = [x.strip() for ln in lines for x in ln.split("|")]
        d = os.path.join(self.work, lang)
        if lang == "ctjava":
            cmd = ["java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-ea", "--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED", "--add-exports", "java.base/jdk.internal.org.objectweb.asm.tree=ALL-UNNAMED",
                   "-cp", d, "CtDriver", os.path.join(self.work, "java")]
            p = subprocess.run(cmd, input="\n".join(todo) + "\n", capture_output=True, text=True, timeout=timeout, preexec_fn=_nolimit)
            got = p.stdout.split("\n")[:-1]
            if len(got) != len(todo):
                raise RuntimeError("trace driver failed: " + p.stderr[-300:])
        else:
            mark = [x.split()[0] for x in subprocess.run(["nm", d + "/ct"], capture_output=True, text=True).stdout.split("\n") if x.endswith(" ct_mark")][0]
            sh = "valgrind -q --tool=lackey --basic-counts=no --trace-mem=yes --log-fd=9 %s/ct 9>&1 >/dev/null 2>/dev/null | %s/cthash %s" % (d, d, mark)

            def one(ln):
                p = subprocess.run(["bash", "-c", sh], input=ln + "\n", capture_output=True, text=True, timeout=timeout, preexec_fn=_nolimit)
                return p.stdout.strip() if p.returncode == 0 and p.stdout.startswith("2 ") else "!" + p.stdout.strip()
            from concurrent.futures import ThreadPoolExecutor
            got = list(ThreadPoolExecutor(8).map(one, todo))
        it = iter(got)
        return [" | ".join(next(it) for _ in ln.split("|")) for ln in lines]

    def _b_java(self):
        d = os.path.join(self.work, "java")
        os.makedirs(d)
        run_all([["javac", "--release", "8", "-Xlint:none", "-nowarn", "-g", "-d", d] + java_files() + [VERIF + "/native/VerifDriver.java"]], "javac")

    def _b_asmobj(self):
        run_all([["gcc", "-c", CPP + "/AsmX8664.s", "-o", os.path.join(self.work, "asm.o")]], "assemble")

    def _b_asmcall(self):
        run_all([["gcc", "-O1", "-w", "-rdynamic", VERIF + "/native/asmcall.c", CPP + "/AsmX8664.s", "-ldl", "-o", os.path.join(self.work, "asmcall.exe")]], "asmcall")

    def _ir(self, name, defs, level):
        from . import llvm
        from .llvmir import parse_module
        d = os.path.join(self.work, name)
        os.makedirs(d)
        shutil.copy(VERIF + "/native/harness.cpp", d)
        txt = llvm.compile_cpp(CPP, cpp_files() + [VERIF + "/native/harness.cpp"], d, defines=defs, level=level)
        m = parse_module(txt)
        llvm.demangle_all([f[1:] for f in m.funcs])
        self._mods[name] = m

    def _b_ir(self):
        self._ir("ir", [], "mem2reg")

    def _b_ir_nd(self):
        self._ir("ir_nd", ["NDEBUG"], "mem2reg")

    def _b_ir_asm_nd(self):
        self._ir("ir_asm_nd", ["NDEBUG", "USE_X8664_ASM_IMPL"], "mem2reg")

    def _b_ir_asm(self):
        self._ir("ir_asm", ["USE_X8664_ASM_IMPL"], "mem2reg")

    def _b_ir_O1(self):
        self._ir("ir_O1", [], "-O1")

    def module(self, name):
        if name in self.errors:
            raise self.errors[name]
        if name not in self._mods:
            getattr(self, "_b_" + name)()
        return self._mods[name]

    def java_dir(self):
        if "java" in self.errors:
            raise self.errors["java"]
        return os.path.join(self.work, "java")

    def asm_obj(self):
        if "asmobj" in self.errors:
            raise self.errors["asmobj"]
        return os.path.join(self.work, "asm.o")

    # ---------------------------------------------------------------- native execution
    def native(self, lang, lines, timeout=120):
        """Runs the real code; returns one result line per input line ('!...' for a crash or hang)."""
        if lang in self.errors:
            raise self.errors[lang]
        if lang.startswith("ct"):
            return self.ct_traces(lang, lines, timeout)
        if lang.startswith("cpp@") and not os.path.exists(os.path.join(self.work, lang + ".exe")):
            self._order(lang)
        if lang == "java":
            cmd = ["java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-ea", "-cp", self.java_dir(), "io.nayuki.bitcoin.crypto.VerifDriver"]
        else:
            cmd = [os.path.join(self.work, lang + ".exe")]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
        out = []
        i = 0
        while i < len(lines):
            chunk = lines[i:]
            try:
                p = subprocess.run(cmd, input="\n".join(chunk) + "\n", capture_output=True, text=True, timeout=timeout, env=env, preexec_fn=_nolimit)
                got = p.stdout.split("\n")
                if got and got[-1] == "":
                    got.pop()
                err = p.stderr
            except subprocess.TimeoutExpired as e:
                got = (e.stdout or b"").decode(errors="replace").split("\n")[:-1]
                err = "timeout"
            out += got[:len(chunk)]
            i += len(got)
            if i < len(lines) and err == "timeout" and got:
                continue        # slow, not stuck: only a line that takes all the time by itself is
            if i < len(lines):
                m = re.search(r"(runtime error: [^\n]*|AddressSanitizer: (?!out of memory|failed)[^\n]*|Assertion [^\n]*|^timeout$|Exception in[^\n]*)", err)
                if not m and p.returncode < 0 and lang == "asmcall":
                    m = re.search("(.*)", "signal %d" % -p.returncode)
                if not m:
                    raise RuntimeError("replay driver failed: " + err[-300:])
                out.append("!crash " + m.group(1).replace("\n", " "))
                i += 1
        return out[:len(lines)]


# -------------------------------------------------------------------------------- units and reports

class Report:
    """What a unit establishes."""

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.name = name
        self.claims = []        # (name, status, secs, detail)
        self.violations = []    # dict(what, lang, line, expected, got)
        self.functions = set()
        self.bounds = []
        self.assumptions = []
        self.stubs = set()
        self.kinds = {}
        self.witness = 0
        self.validated = 0
        self.notes = []

    def claim(self, name, status, secs=0.0, detail=""):
        self.claims.append((name, status, round(secs, 3), detail))

    def violated(self, what, lang, line, expected, got):
        self.violations.append(dict(unit=self.name, what=what, lang=lang, line=line, expected=expected, got=got))

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def use(self, mach):
        self.functions |= mach.functions_used
        for k, v in mach.obkinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + v
        for k in getattr(mach, "trace_calls", {}):
            self.stubs.add(k)

    def data(self):
        return dict(name=self.name, claims=self.claims, violations=self.violations, functions=sorted(self.functions),
                    bounds=self.bounds, assumptions=self.assumptions, stubs=sorted(self.stubs), kinds=self.kinds,
                    witness=self.witness, validated=self.validated, notes=self.notes, stats=dict(solver.STATS))


UNITS = {}


class Unit:
    def __init__(self, name, fn, needs, limit, cost, thorough_limit=None):
        self.name, self.fn, self.needs, self.limit, self.cost = name, fn, needs, limit, cost
        self.thorough_limit = thorough_limit or 4 * limit


def unit(name, needs, limit=120, cost=1, thorough_limit=None, **kw):
    def deco(fn):
        def g(ctx, rep):
            return fn(ctx, rep, **kw)
        UNITS[name] = Unit(name, g, needs, limit, cost, thorough_limit)
        return fn
    return deco


def _run_unit(ctx, u, wfd):
    rep = Report(ctx, u.name)
    t0 = time.time()
    for k in solver.STATS:
        solver.STATS[k] = 0
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        rep.deadline = t0 + (u.limit if ctx.quick else u.thorough_limit) - 5
        u.fn(ctx, rep)
    except BaseException as e:      # noqa
        if isinstance(e, KeyboardInterrupt):
            os._exit(1)
        rep.claim(u.name, "undecided", time.time() - t0, "%s: %s" % (type(e).__name__, str(e)[:400]))
        rep.notes.append("".join(traceback.format_exc()[-1500:]))
    d = rep.data()
    d["secs"] = round(time.time() - t0, 2)
    with os.fdopen(wfd, "wb") as f:
        f.write(pickle.dumps(d))
        f.flush()
    os._exit(0)


def run_units(ctx, names, jobs=8, stop_on_violation=True, verbose=False, wall=None, only=None):
    units = sorted((UNITS[n] for n in names), key=lambda u: -u.cost)
    pend = list(units)
    running = {}
    results = []
    stopped = False
    t_end = time.time() + wall if wall else None
    sys.stdout.flush()
    sys.stderr.flush()

    def kill(fd):
        pid, u, st, buf = running.pop(fd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(fd)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        return u, buf, st

    while pend or running:
        while pend and len(running) < jobs and not stopped:
            u = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                for fd in running:
                    os.close(fd)
                _run_unit(ctx, u, w)
            try:
                os.setpgid(pid, pid)
            except (PermissionError, ProcessLookupError):
                pass
            os.close(w)
            running[r] = (pid, u, time.time(), bytearray())
        if stopped:
            pend.clear()
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for fd in list(running):
            pid, u, st, buf = running[fd]
            res = None
            if fd in rd:
                chunk = os.read(fd, 1 << 16)
                if chunk:
                    buf.extend(chunk)
                    continue
                kill(fd)
                try:
                    res = pickle.loads(bytes(buf))
                except Exception:
                    res = dict(name=u.name, claims=[(u.name, "undecided", now - st, "worker died")], violations=[], functions=[], bounds=[],
                               assumptions=[], stubs=[], kinds={}, witness=0, validated=0, notes=[], stats={}, secs=now - st)
            elif now - st > (u.limit if ctx.quick else u.thorough_limit) + 10 or (t_end and now > t_end) or stopped:
                kill(fd)
                res = dict(name=u.name, claims=[(u.name, "undecided", now - st, "time limit" if not stopped else "not finished: violation found elsewhere")], violations=[], functions=[], bounds=[],
                           assumptions=[], stubs=[], kinds={}, witness=0, validated=0, notes=[], stats={}, secs=now - st)
            if res is not None:
                if only is not None and res["violations"]:
                    res["notes"] += ["not a violation of this property: " + v["what"] for v in res["violations"] if not only(v)]
                    res["violations"] = [v for v in res["violations"] if only(v)]
                results.append(res)
                if verbose:
                    und = [c for c in res["claims"] if c[1] != "proved"]
                    print("%-34s %6.1fs claims %d/%d queries %s%s%s" % (
                        res["name"], res["secs"], len(res["claims"]) - len(und), len(res["claims"]), res["stats"].get("queries"),
                        " UNDECIDED " + "; ".join("%s (%s)" % (c[0], c[3]) for c in und)[:600] if und else "",
                        " VIOLATED " + repr(res["violations"][0])[:600] if res["violations"] else ""))
                    for nt in res["notes"]:
                        print("    note:", nt)
                    sys.stdout.flush()
                if res["violations"] and stop_on_violation:
                    stopped = True
    return results
