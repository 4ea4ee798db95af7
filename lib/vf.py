"""Shared machinery: build harnesses from /repo, run TLC, generate scripts, run drivers, validate traces."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = 8
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class CheckError(Exception):
    pass


def tlcerr(out, n=3000):
    """the part of TLC's output that says what went wrong"""
    i = out.find("Error: ")
    return out[i:i + n] if i >= 0 else out[-n:]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ---------------------------------------------------------------- building
LIB_SRC = ["src/libcopp/fcontext/asm/%s_x86_64_sysv_elf_gas.S" % f for f in ("jump", "make", "ontop")]


def repo_sources():
    out = list(LIB_SRC)
    skip = re.compile(r"windows|split_segment|fcontext/")
    for top in ("src/libcopp", "src/libcotask"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, top))):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), REPO)
                if (f.endswith(".cpp") or f.endswith(".c")) and not skip.search(p):
                    out.append(p)
    return out


def tree_hash(extra=()):
    h = hashlib.sha256()
    for top in ("include", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(REPO, "CMakeLists.txt"), "rb") as fh:
        h.update(fh.read())
    for e in extra:
        if os.path.isfile(str(e)):
            with open(e, "rb") as fh:
                h.update(fh.read())
        else:
            h.update(str(e).encode())
    return h.hexdigest()[:16]


def gen_features(outdir):
    inc = os.path.join(outdir, "include", "libcopp", "utils", "config")
    os.makedirs(inc, exist_ok=True)
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        m = re.search(r'VERSION "(\d+)\.(\d+)\.(\d+)"', f.read())
    maj, mnr, pat = m.groups() if m else ("2", "0", "0")
    vals = dict(LIBCOPP_VERSION_MAJOR=maj, LIBCOPP_VERSION_MINOR=mnr, LIBCOPP_VERSION_PATCH=pat,
                LIBCOPP_VERSION="%s.%s.%s" % (maj, mnr, pat), LIBCOPP_API_LEVEL=str(1000 * int(maj) + int(mnr)),
                LIBCOPP_ABI_TAG="v%d" % (1000 * int(maj) + int(mnr)), LIBCOPP_MACRO_SYS_POSIX="1",
                LIBCOPP_FCONTEXT_USE_TSX="1", LIBCOTASK_MACRO_ENABLED="1", LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER="1",
                THREAD_TLS_USE_PTHREAD="1", LIBCOPP_MACRO_ENABLE_STD_COROUTINE="1", LIBCOPP_MACRO_ENABLE_EXCEPTION="1",
                LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR="1", LIBCOPP_MACRO_ENABLE_RTTI="1",
                LIBCOPP_MACRO_ENABLE_STD_SPAN="1")
    out = []
    with open(os.path.join(REPO, "include/libcopp/utils/config/libcopp_build_features.h.in")) as f:
        for line in f:
            m = re.match(r"\s*#\s*cmakedefine(01)?\s+(\w+)(.*)", line)
            if m:
                k = m.group(2)
                if m.group(1):
                    line = "#define %s %d\n" % (k, 1 if k in vals else 0)
                elif k in vals:
                    line = "#define %s%s\n" % (k, m.group(3))
                else:
                    line = "/* #undef %s */\n" % k
            out.append(re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), ""), line))
    text = "".join(out)
    p = os.path.join(inc, "libcopp_build_features.h")
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    return os.path.join(outdir, "include")


SAN = ["-fsanitize=address", "--param", "asan-stack=0", "-fno-omit-frame-pointer"]


def build(name, flags=(), sources=None, harness=None, link=(), lib_flags=None, opt="-O1"):
    """Compile harness/<name>.cpp with /repo's sources. Content addressed: identical inputs reuse the binary."""
    harness = harness or [name + ".cpp"]
    hpaths = [os.path.join(VERIF, "harness", h) for h in harness]
    hdrs = sorted(os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".h"))
    srcs = repo_sources() if sources is None else sources
    key = tree_hash(hpaths + hdrs + [opt] + list(flags) + list(link) + list(lib_flags or []) + list(srcs))
    out = os.path.join(BUILD, "bin", name + "-" + key)
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    geninc = gen_features(tmp)
    base = ["g++", "-std=gnu++20", opt, "-g1", "-w", "-I" + os.path.join(REPO, "include"), "-I" + geninc,
            "-I" + os.path.join(VERIF, "harness"), "-DLIBCOPP_FCONTEXT_USE_TSX=1", "-DNDEBUG",
            "-DLIBCOPP_API_COPP_NATIVE=1", "-DLIBCOPP_API_COTASK_NATIVE=1", "-fvisibility=hidden", "-pthread"]
    jobs = []
    for s in srcs:
        o = os.path.join(tmp, s.replace("/", "_") + ".o")
        if s.endswith(".S"):
            jobs.append((["gcc", "-c", "-x", "assembler-with-cpp", "-DLIBCOPP_FCONTEXT_USE_TSX=1", os.path.join(REPO, s), "-o", o], o))
        else:
            jobs.append((base + list(flags if lib_flags is None else lib_flags) + ["-c", os.path.join(REPO, s), "-o", o], o))
    for h in hpaths:
        o = os.path.join(tmp, os.path.basename(h) + ".o")
        # the runtime of the concurrent harnesses must not be instrumented itself
        fl = [f for f in flags if f != "-fsanitize=thread"] if os.path.basename(h) == "mtrt.cpp" else list(flags)
        jobs.append((base + fl + ["-c", h, "-o", o], o))
    t = time.time()
    # put harness compilations (slow) first
    jobs.sort(key=lambda j: 0 if "/harness/" in j[0][-3] else 1)
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for r, (cmd, _) in zip(ex.map(lambda j: sh(j[0], timeout=800), jobs), jobs):
            if r.returncode != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    r = sh(["g++", "-pthread"] + [o for _, o in jobs] + [f for f in flags if f.startswith("-fsanitize=address")] + list(link) + ["-o", os.path.join(tmp, name)])
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise CheckError("link failed:\n" + r.stdout[-4000:])
    for f in os.listdir(tmp):
        if f.endswith(".o"):
            os.unlink(os.path.join(tmp, f))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    log("built %s in %.1fs" % (name, time.time() - t))
    return exe


# ---------------------------------------------------------------- work directories
_work = None
_lock = threading.Lock()


def work():
    global _work
    with _lock:
        if _work is None:
            d = os.path.join(BUILD, "work", "%d-%d-%d" % (os.getpid(), int(time.time()), random.SystemRandom().randrange(1 << 30)))
            os.makedirs(d)
            _work = d
        return _work


def cleanup():
    global _work
    if _work:
        shutil.rmtree(_work, ignore_errors=True)
        _work = None


def spec_dir(sub):
    """A scratch directory holding all specification modules."""
    d = os.path.join(work(), sub)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    return d


_jvms = threading.Semaphore(CPUS)


def tlc(d, module, cfg, args=(), timeout=800, workers=1, mem="3g", env=None):
    with _jvms:
        return tlc1(d, module, cfg, args, timeout, workers, mem, env)


def tlc1(d, module, cfg, args, timeout, workers, mem, env):
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    meta = os.path.join(d, "meta-%s-%d" % (module, random.SystemRandom().randrange(1 << 40)))
    cmd = ["java", "-Xmx" + mem, "-Xss32m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", module + ".cfg"] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 30)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf-8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def consts(c):
    return "CONSTANTS\n" + "".join("  %s = %s\n" % (k, v) for k, v in c.items()) if c else ""


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


GEN = """---- MODULE {mod}Gen ----
EXTENDS {mod}, Json
CONSTANT MaxCmds
VARIABLE hist
GInit == Init /\\ hist = <<>>
GNext == \\/ /\\ Quiet /\\ Len(hist) < MaxCmds
            /\\ \\E c \\in Cmds : Do(c) /\\ hist' = Append(hist, c)
         \\/ Internal /\\ UNCHANGED hist
         \\/ Observe /\\ UNCHANGED hist
GView == vars
GEmit == (Len(hist') > Len(hist)) => PrintT("@@" \\o ToJson(hist'))
GSim == ((Len(hist) = MaxCmds) \\/ (Quiet /\\ Cmds = {{}})) => PrintT("@@" \\o ToJson(hist))
====
"""

SIM = """---- MODULE {mod}Sim ----
EXTENDS {mod}, Json
CONSTANT MaxCmds
VARIABLE hist
GInit == Init /\\ hist = <<>>
SimOps == {{c[1] : c \\in AllCmds}}
OpCmds == [o \\in SimOps |-> {{c \\in AllCmds : c[1] = o}}]
GNext == \\/ /\\ Quiet /\\ Len(hist) < MaxCmds
            /\\ \\E O \\in {{{{o \\in SimOps : \\E c \\in OpCmds[o] : Ok(c)}}}} : O # {{}} /\\ \\E o \\in {{RandomElement(O)}} :
                 \\E c \\in {{RandomElement({{c \\in OpCmds[o] : Ok(c)}})}} : Do(c) /\\ hist' = Append(hist, c)
         \\/ Internal /\\ UNCHANGED hist
         \\/ Observe /\\ UNCHANGED hist
GSim == (Quiet /\\ ((Len(hist) = MaxCmds) \\/ (\\A c \\in AllCmds : ~Ok(c)))) => PrintT("@@" \\o ToJson(hist))
====
"""

TRACE = """---- MODULE {mod}Trace ----
EXTENDS {mod}, Json, IOUtils
Nodes == ndJsonDeserialize(IOEnv.VF_TRACE)
NN == Len(Nodes)
VARIABLE n
ASSUME \\A i \\in 1..NN : TLCSet(i, 0)
TInit == Init /\\ n = 1 /\\ TLCSet(1, 1)
Step(m) == LET nd == Nodes[m] IN
  /\\ IF nd.k = "c" THEN Quiet /\\ Legal(nd.c) /\\ Do(nd.c)
     ELSE nd.k = "o" /\\ Pending(nd.o) /\\ Observe
  /\\ n' = m /\\ TLCSet(m, 1)
TNext == \\/ Internal /\\ UNCHANGED n
         \\/ \\E k \\in DOMAIN Nodes[n].ch : Step(Nodes[n].ch[k])
Rejected == {{ m \\in 2..NN : TLCGet(m) = 0 /\\ TLCGet(Nodes[m].p) = 1 }}
Accepted == PrintT("@@REJ " \\o ToJson(Rejected)) /\\ PrintT("@@END")
Dbg == PrintT(<<"@@STATE", n, vars>>)
====
"""


def write_mod(d, tmpl, mod):
    name = re.search(r"MODULE (\w+)", tmpl.format(mod=mod)).group(1)
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write(tmpl.format(mod=mod))
    return name


def unquote(line):
    """TLC prints strings with quotes and backslash escapes."""
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


class Job:
    pass


def design_check(mod, cst, invs=(), props=(), workers=2, timeout=600, extra="", action_cov=True):
    """Exhaustive TLC run of the specification itself; returns (generated, distinct)."""
    d = spec_dir("mc-%s-%s" % (mod, hashlib.sha1(repr((cst, invs, props)).encode()).hexdigest()[:8]))
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + consts(cst) + "".join("INVARIANT %s\n" % i for i in invs) + \
          "".join("PROPERTY %s\n" % p for p in props) + extra
    rc, out = tlc(d, mod, cfg, workers=workers, timeout=timeout)
    if rc != 0:
        raise CheckError("design check of %s failed (rc %d):\n%s" % (mod, rc, tlcerr(out, 6000)))
    return stats(out)


def gen_exhaustive(mod, cst, maxcmds, timeout=600, extra="", mem="4g"):
    d = spec_dir("gen-%s-%s" % (mod, hashlib.sha1(repr((cst, maxcmds)).encode()).hexdigest()[:8]))
    name = write_mod(d, GEN, mod)
    cfg = "INIT GInit\nNEXT GNext\nVIEW GView\nACTION_CONSTRAINT GEmit\nCHECK_DEADLOCK FALSE\n" + consts(dict(cst, MaxCmds=maxcmds)) + extra
    rc, out = tlc(d, name, cfg, workers=1, timeout=timeout, mem=mem)
    if rc != 0:
        raise CheckError("script generation of %s failed:\n%s" % (mod, tlcerr(out)))
    scripts = [unquote(l)[2:] for l in out.splitlines() if l.startswith('"@@')]
    return scripts, stats(out)


def gen_simulate(mod, cst, maxcmds, num, seed, timeout=300, extra="", depth=None, procs=4):
    d = spec_dir("sim-%s-%s" % (mod, hashlib.sha1(repr((cst, maxcmds, num, seed)).encode()).hexdigest()[:8]))
    name = write_mod(d, SIM, mod)
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT GSim\nCHECK_DEADLOCK FALSE\n" + consts(dict(cst, MaxCmds=maxcmds)) + extra

    def one(i):
        dd = d + "-%d" % i
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(d, dd)
        rc, out = tlc(dd, name, cfg, args=["-simulate", "num=%d" % (num // procs + 1), "-depth", str(depth or maxcmds * 12),
                                           "-seed", str(seed * 1000 + i)], workers=1, timeout=timeout, mem="1500m")
        if rc != 0:
            raise CheckError("simulation of %s failed:\n%s" % (mod, tlcerr(out)))
        return [unquote(l)[2:] for l in out.splitlines() if l.startswith('"@@')]
    with cf.ThreadPoolExecutor(procs) as ex:
        res = []
        for s in ex.map(one, range(procs)):
            res += s
    return list(dict.fromkeys(res))


# ---------------------------------------------------------------- scripts and drivers
def script_text(js):
    """[["op",1,2],...] -> 'op 1 2;...'"""
    return ";".join(" ".join(str(x).lower() if isinstance(x, bool) else str(x) for x in c) for c in json.loads(js))


def maximal(scripts):
    """Drop scripts that are a proper prefix of another one (their trace is contained in the longer one... up to
    teardown), keeping every n-th of them so that teardown is exercised from intermediate states too."""
    s = sorted(set(scripts))
    out = []
    for i, x in enumerate(s):
        if i + 1 < len(s) and s[i + 1].startswith(x + ";"):
            continue
        out.append(x)
    return out


def run_driver(exe, scripts, args=(), procs=CPUS, timeout=600, tag="drv", max_crash=6, env=None):
    """Execute scripts; returns list of traces (list of event JSON strings), aligned with scripts."""
    d = os.path.join(work(), "%s-%d" % (tag, random.SystemRandom().randrange(1 << 40)))
    os.makedirs(d)
    n = len(scripts)
    procs = max(1, min(procs, (n + 199) // 200))
    res = [None] * n
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:quarantine_size_mb=64:hard_rss_limit_mb=3000:log_path=%s/asan" % d
    e.update(env or {})

    def part(k):
        idx = list(range(k, n, procs))
        crashes = 0
        start = 0
        while start < len(idx):
            sf, of = os.path.join(d, "s%d" % k), os.path.join(d, "o%d" % k)
            with open(sf, "w") as f:
                for i in idx[start:]:
                    f.write(scripts[i] + "\n")
            with open(of, "w"):
                pass
            try:
                r = subprocess.run([exe, sf, of] + [str(x) for x in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                rc, out = r.returncode, r.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                rc, out = -999, "timeout"
            cur, done = None, 0
            # a driver that died leaves the log at its (sparse) mapped size: stop at the first NUL
            chunks = []
            with open(of, "rb") as f:
                while True:
                    b = f.read(1 << 20)
                    z = b.find(b"\0")
                    if z >= 0:
                        chunks.append(b[:z])
                        break
                    if not b:
                        break
                    chunks.append(b)
            data = b"".join(chunks)
            for line in data.decode("utf-8", "replace").split("\n"):
                if line.startswith("T "):
                    cur = []
                    res[idx[start + int(line[2:])]] = cur
                    done = int(line[2:]) + 1
                elif line and cur is not None:
                    cur.append(line)
            if rc == 0:
                if done == len(idx) - start:
                    return
                # control went astray: the program ended as if there were no more scripts
                out = "driver stopped early without an error: " + out
            if done == 0:
                raise CheckError("driver failed before its first script (rc %d): %s" % (rc, out[-3000:]))
            # crashed or hung in script done-1
            if cur and not cur[-1].endswith("}"):
                cur.pop()
            cur.append(json.dumps({"k": "x", "why": "rc %d" % rc}))
            crashes += 1
            start += done
            if crashes >= max_crash:
                return
    with cf.ThreadPoolExecutor(procs) as ex:
        list(ex.map(part, range(procs)))
    shutil.rmtree(d, ignore_errors=True)
    return res


# ---------------------------------------------------------------- trace validation
class Trie:
    def __init__(self):
        self.nodes = [[0, None, {}]]  # parent, event text, children

    def add(self, tr):
        cur = 0
        path = []
        for ev in tr:
            ch = self.nodes[cur][2]
            nx = ch.get(ev)
            if nx is None:
                nx = len(self.nodes)
                self.nodes.append([cur, ev, {}])
                ch[ev] = nx
            cur = nx
            path.append(cur)
        return path

    def dump(self, path):
        with open(path, "w") as f:
            for p, ev, ch in self.nodes:
                c = json.dumps([x + 1 for x in ch.values()])
                if ev is None:
                    f.write('{"p":1,"k":"r","ch":%s}\n' % c)
                else:
                    f.write('{"p":%d,"ch":%s,%s\n' % (p + 1, c, ev[1:]))


def validate(mod, cst, traces, timeout=700, procs=CPUS, invs=(), mem="2500m", tmpl=None):
    """TLC-validate traces. Returns (rejections, nodes, stats): rejections = [(trace index, event index)]."""
    idx = [i for i, t in enumerate(traces) if t is not None]
    idx.sort(key=lambda i: traces[i])
    total = sum(len(traces[i]) for i in idx)
    procs = max(1, min(procs, total // 8000 + 1))
    size = (len(idx) + procs - 1) // procs if idx else 1
    chunks = [idx[i:i + size] for i in range(0, len(idx), size)]
    rej, nn, gen, dist = [], 0, 0, 0

    def one(k):
        d = spec_dir("tr-%s-%d" % (mod, random.SystemRandom().randrange(1 << 40)))
        name = write_mod(d, tmpl or TRACE, mod)
        t = Trie()
        ends = {}
        for i in chunks[k]:
            path = t.add(traces[i])
            ends[i] = path
        t.dump(os.path.join(d, "trace.ndjson"))
        cfg = "INIT TInit\nNEXT TNext\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" + consts(cst) + "".join("INVARIANT %s\n" % i for i in invs)
        rc, out = tlc(d, name, cfg, workers=1, timeout=timeout, mem=mem, env={"VF_TRACE": os.path.join(d, "trace.ndjson")})
        r = None
        for l in out.splitlines():
            l = unquote(l)
            if l.startswith("@@REJ "):
                r = json.loads(l[6:])
        if r is None or "@@END" not in out or rc != 0:
            raise CheckError("trace validation of %s failed to run (rc %d):\n%s" % (mod, rc, tlcerr(out)))
        bad = set(x - 1 for x in r)
        found = []
        if bad:
            for i, path in ends.items():
                for j, nd in enumerate(path):
                    if nd in bad:
                        found.append((i, j))
                        break
        shutil.rmtree(d, ignore_errors=True)
        return found, len(t.nodes), stats(out)
    with cf.ThreadPoolExecutor(procs) as ex:
        for f, c, (g, di) in ex.map(one, range(len(chunks))):
            rej += f
            nn += c
            gen += g
            dist += di
    return rej, nn, (gen, dist)


def explain(mod, cst, trace, tmpl=None):
    """Expected observation at the point of rejection (for the report)."""
    d = spec_dir("ex-%s-%d" % (mod, random.SystemRandom().randrange(1 << 40)))
    name = write_mod(d, tmpl or TRACE, mod)
    t = Trie()
    t.add(trace)
    t.dump(os.path.join(d, "trace.ndjson"))
    cfg = "INIT TInit\nNEXT TNext\nPOSTCONDITION Accepted\nINVARIANT Dbg\nCHECK_DEADLOCK FALSE\n" + consts(cst)
    rc, out = tlc(d, name, cfg, workers=1, timeout=120, env={"VF_TRACE": os.path.join(d, "trace.ndjson")})
    i = out.rfind("@@STATE")
    shutil.rmtree(d, ignore_errors=True)
    return out[i:i + 6000].split("@@REJ")[0] if i >= 0 else out[-2000:]
