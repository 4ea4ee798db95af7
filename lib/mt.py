"""Concurrent properties: programs from the specification, controlled schedules of the real code, histories checked by TLC."""
import collections, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, time
import vf

TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]

PROG = """---- MODULE {mod}Prog ----
EXTENDS {mod}, Json
CONSTANTS Pre, Per
VARIABLES prog, at
GInit == Init /\\ prog = [i \\in 0..T |-> <<>>] /\\ at = 0
Room(t) == Len(prog[t]) < IF t = 0 THEN Pre ELSE Per
GNext == /\\ UNCHANGED vars
         /\\ \\/ Room(at) /\\ at' = at /\\ \\E c \\in Menu(at, prog[at]) : prog' = [prog EXCEPT ![at] = Append(@, c)]
            \\/ at < T /\\ (at = 0 \\/ ~Room(at) \\/ Menu(at, prog[at]) = {{}}) /\\ at' = at + 1 /\\ UNCHANGED prog
GEmit == (at = T /\\ (~Room(T) \\/ Menu(T, prog[T]) = {{}})) => PrintT("@@" \\o ToJson([i \\in 1..(T + 1) |-> prog[i - 1]]))
====
"""

TRACE = """---- MODULE {mod}Trace ----
EXTENDS {mod}, Json, IOUtils
Nodes == ndJsonDeserialize(IOEnv.VF_TRACE)
NN == Len(Nodes)
VARIABLE n
ASSUME \\A i \\in 1..NN : TLCSet(i, 0)
TInit == Init /\\ n = 1 /\\ TLCSet(1, 1)
Step(m) == LET nd == Nodes[m] IN
  /\\ IF nd.k = "c" THEN Call(nd.c) ELSE nd.k = "o" /\\ Obs(nd.o)
  /\\ n' = m /\\ TLCSet(m, 1)
TNext == \\/ Internal /\\ UNCHANGED n
         \\/ \\E k \\in DOMAIN Nodes[n].ch : Step(Nodes[n].ch[k])
Rejected == {{ m \\in 2..NN : TLCGet(m) = 0 /\\ TLCGet(Nodes[m].p) = 1 }}
Accepted == PrintT("@@REJ " \\o ToJson(Rejected)) /\\ PrintT("@@END")
Dbg == PrintT(<<"@@STATE", n, vars>>)
====
"""


def text(js):
    p = json.loads(js)
    return [";".join(" ".join(str(x) for x in c) for c in th) for th in p]


def programs(mod, cst, pre, per, num=0, seed=1, symmetric=True, procs=2, timeout=300):
    """All programs (num = 0) or num random ones."""
    d = vf.spec_dir("prog-%s-%s" % (mod, hashlib.sha1(repr((cst, pre, per, num, seed)).encode()).hexdigest()[:8]))
    name = vf.write_mod(d, PROG, mod)
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT GEmit\nCHECK_DEADLOCK FALSE\n" + vf.consts(dict(cst, Pre=pre, Per=per))
    args = ["-simulate", "num=%d" % num, "-depth", "200", "-seed", str(seed)] if num else []
    rc, out = vf.tlc(d, name, cfg, args=args, workers=1, timeout=timeout, mem="2g")
    if rc != 0:
        raise vf.CheckError("program generation of %s failed:\n%s" % (mod, vf.tlcerr(out)))
    res = []
    for l in out.splitlines():
        if l.startswith('"@@'):
            th = text(vf.unquote(l)[2:])
            if symmetric:
                th[1:] = sorted(th[1:])
            res.append("|".join(th))
    return list(dict.fromkeys(res))


def run(exe, scripts, opts, args=(), procs=vf.CPUS, timeout=800, max_crash=4):
    """Returns per script: list of (schedule, trace), executions, complete?"""
    d = os.path.join(vf.work(), "mt-%d" % random.SystemRandom().randrange(1 << 40))
    os.makedirs(d)
    n = len(scripts)
    procs = max(1, min(procs, n))
    res = [None] * n
    pre = [str(opts["bound"]), str(opts["max"]), str(opts["random"]), str(opts["seed"]), "1" if opts.get("races") else "0"]

    def part(k):
        idx = list(range(k, n, procs))
        crashes = start = 0
        while start < len(idx):
            sf, of = os.path.join(d, "s%d" % k), os.path.join(d, "o%d" % k)
            with open(sf, "w") as f:
                for i in idx[start:]:
                    f.write(scripts[i] + "\n")
            open(of, "w").close()
            try:
                r = subprocess.run([exe, sf, of] + pre + [str(x) for x in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                rc, out = r.returncode, r.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                rc, out = -999, "timeout"
            chunks = []
            with open(of, "rb") as f:
                while True:
                    b = f.read(1 << 20)
                    z = b.find(b"\0")
                    chunks.append(b if z < 0 else b[:z])
                    if z >= 0 or not b:
                        break
            os.unlink(of)
            done, cur, rep = 0, None, None
            for line in b"".join(chunks).decode("utf-8", "replace").split("\n"):
                if line.startswith("T "):
                    rep = dict(traces=[], execs=0, full=False)
                    res[idx[start + int(line[2:])]] = rep
                    done = int(line[2:]) + 1
                elif line.startswith("S "):
                    cur = [line[2:], []]
                    rep["traces"].append(cur)
                elif line.startswith("R "):
                    cur[0] = line[2:]
                elif line.startswith("X "):
                    e, fl = line[2:].split()
                    rep["execs"], rep["full"] = int(e), fl == "1"
                elif line.startswith("{") and line.endswith("}") and cur is not None:
                    cur[1].append(line)
            if rc == 0 and done == len(idx) - start:
                return
            if done == 0:
                raise vf.CheckError("driver failed before its first script (rc %d): %s" % (rc, out[-3000:]))
            if cur is None:
                cur = ["-", []]
                rep["traces"].append(cur)
            if not (cur[1] and '"k":"x"' in cur[1][-1]):
                cur[1].append(json.dumps({"k": "x", "why": "rc %d" % rc}))
            crashes += 1
            start += done
            if crashes >= max_crash:
                return
    with cf.ThreadPoolExecutor(procs) as ex:
        list(ex.map(part, range(procs)))
    shutil.rmtree(d, ignore_errors=True)
    return res


class MtLeg:
    """design: [(constants, invariants, properties)], progs: [(constants, pre, per, number (0: all))],
    opts: dict(bound, max, random): schedules per program."""

    def __init__(self, spec, harness, progs, opts, design=(), args=(), symmetric=True, extra=(), cst=None, mem="3g", procs=None, xdesign=()):
        self.__dict__.update(locals())

    def builds(self):
        return [dict(name=self.harness, flags=TSAN, harness=[self.harness + ".cpp", "mtrt.cpp"])]


def flatten(scripts, res):
    names, traces = [], []
    for s, r in zip(scripts, res):
        for sch, tr in (r["traces"] if r else ()):
            names.append("%s@%s" % (s.split("@")[0], sch) if sch != "-" else s)
            traces.append(tr)
    return names, traces


def run_leg(leg, pool, cov, viol, ops, obs):
    exe_f = pool.submit(vf.build, **leg.builds()[0])
    designs = [(leg.spec, c, i, p, pool.submit(vf.design_check, leg.spec, c, i, p, 2, 800)) for c, i, p in leg.design] + \
              [(m, c, i, p, pool.submit(vf.design_check, m, c, i, p, 2, 800)) for m, c, i, p in leg.xdesign]
    gens = [(c, pool.submit(programs, leg.spec, c, pre, per, num, vf.SEED + k, leg.symmetric)) for k, (c, pre, per, num) in enumerate(leg.progs)]
    groups = collections.OrderedDict()

    def add(c, scripts):
        c = leg.cst(c) if leg.cst else c
        a = tuple(str(x) for x in (leg.args(c) if callable(leg.args) else leg.args))
        groups.setdefault((tuple(sorted(c.items())), a), []).extend(scripts)
    for c, s in leg.extra:
        add(c, s)
    for c, fu in gens:
        s = fu.result()
        cov["programs_from_spec"] = cov.get("programs_from_spec", 0) + len(s)
        add(c, s)
    exe = exe_f.result()
    opts = dict(leg.opts, seed=vf.SEED)
    for (c, a), scripts in groups.items():
        c = dict(c)
        scripts = list(dict.fromkeys(scripts))
        res = run(exe, scripts, opts, a, procs=leg.procs or vf.CPUS)
        names, traces = flatten(scripts, res)
        rej, nn, (g, d) = vf.validate(leg.spec, c, traces, tmpl=TRACE, mem=leg.mem)
        cov["schedules_executed"] = cov.get("schedules_executed", 0) + sum(r["execs"] for r in res if r)
        cov["programs_fully_explored"] = cov.get("programs_fully_explored", 0) + sum(1 for r in res if r and r["full"])
        cov["programs_run"] = cov.get("programs_run", 0) + len(scripts)
        cov["traces_validated_against_impl"] += len(traces)
        cov["trace_events_validated"] += sum(len(t) for t in traces)
        cov["trace_states"] += d
        for t in traces:
            for e in t:
                if e.startswith('{"k":"c"'):
                    ops[e[e.index("[") + 1:].split(",")[0].strip('"]}')] += 1
                elif '"op":"' in e:
                    obs[e.split('"op":"', 1)[1].split('"', 1)[0]] += 1
        if names and len(cov["samples"]) < 6:
            k = random.Random(vf.SEED).randrange(len(names))
            cov["samples"].append(dict(spec=leg.spec, script=names[k], trace_head=[json.loads(x) for x in traces[k][:8]]))
        if rej:
            rej.sort(key=lambda ij: (len(names[ij[0]]), ij[1]))
            sub = [names[i] for i, _ in rej[:6]]
            n2, t2 = flatten(sub, run(exe, sub, opts, a, procs=1, max_crash=len(sub)))
            rej2, _, _ = vf.validate(leg.spec, c, t2, procs=1, tmpl=TRACE)
            if not rej2:
                # the schedule alone did not repeat it: explore these programs again
                progs = list(dict.fromkeys(x.split("@")[0] for x in sub))
                n2, t2 = flatten(progs, run(exe, progs, opts, a, max_crash=len(progs)))
                rej2, _, _ = vf.validate(leg.spec, c, t2, procs=1, tmpl=TRACE)
            if not rej2:
                raise vf.CheckError("a rejection did not repeat: %s" % sub)
            for i, j in rej2[:3]:
                viol.append(dict(spec=leg.spec, harness=leg.harness, constants=c, args=list(a), script=n2[i], rejected_event=json.loads(t2[i][j]),
                                 trace=[json.loads(x) for x in t2[i][:j + 1]], spec_state_before=vf.explain(leg.spec, c, t2[i][:j + 1], tmpl=TRACE),
                                 n_rejected=len(rej)))
        elif any(r is None for r in res):
            raise vf.CheckError("%d programs were not executed" % sum(r is None for r in res))
    for m, c, i, p, fu in designs:
        g, d = fu.result()
        cov["states"] += d
        cov["transitions"] += g
        cov["design_runs"].append(dict(spec=m, constants=c, invariants=list(i), properties=list(p), states=d, transitions=g))
