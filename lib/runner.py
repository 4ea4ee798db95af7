"""Runs the legs of one property and reports."""
import collections, concurrent.futures as cf, json, os, random, sys, threading, time, traceback
import vf
import mt

EVID = os.environ.get("VF_EVID") or os.path.join(vf.VERIF, "evidence")


class Leg:
    """One specification bound to one driver.
    design: list of (constants, invariants, temporal properties) for exhaustive TLC runs
    gen:    list of (constants, max commands) - every transition becomes a script
    sim:    list of (constants, max commands, number of behaviours)
    cst:    constants used for validation (must admit everything generated); defaults to those of the generator
    """

    def __init__(self, spec, harness, flags=None, args=(), design=(), gen=(), sim=(), extra_scripts=(), post=None, sample=None,
                 traces=None, cst=None, sources=None, link=(), lib_flags=None, opt="-O1", env=None, invs=()):
        self.__dict__.update(locals())
        self.flags = vf.SAN if flags is None else flags

    def builds(self):
        return [dict(name=self.harness, flags=self.flags, sources=self.sources, link=self.link, lib_flags=self.lib_flags, opt=self.opt)]


def known_findings():
    p = os.path.join(vf.VERIF, "known-findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return []


def run_property(pid, legs, tier):
    t0 = time.time()
    cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0, trace_events_validated=0,
                                  trace_states=0, generation_states=0, scripts_from_spec_transitions=0, scripts_from_simulation=0,
                                  design_runs=[], commands={}, observations={}, samples=[])
    viol, known = [], []
    ops, obs = collections.Counter(), collections.Counter()
    pool = cf.ThreadPoolExecutor(24)
    mtlegs = [l for l in legs if isinstance(l, mt.MtLeg)]
    legs = [l for l in legs if not isinstance(l, mt.MtLeg)]
    builds = [pool.submit(vf.build, **l.builds()[0]) for l in legs]
    gens, designs = [], []
    for li, l in enumerate(legs):
        for k, (cst, n, num) in enumerate(l.sim):
            gens.append((li, "sim", cst, pool.submit(vf.gen_simulate, l.spec, cst, n, num, vf.SEED * 100 + k)))
        for cst, n in l.gen:
            gens.append((li, "gen", cst, pool.submit(vf.gen_exhaustive, l.spec, cst, n)))
    for l in legs:
        for cst, invs, props in l.design:
            designs.append((l.spec, cst, invs, props, pool.submit(vf.design_check, l.spec, cst, invs, props)))
    groups = collections.OrderedDict()

    def add(li, cst, scripts):
        leg = legs[li]
        cst = leg.cst(cst) if callable(leg.cst) else leg.cst or cst
        a = [str(x) for x in (leg.args(cst) if callable(leg.args) else leg.args)]
        groups.setdefault((li, tuple(sorted(cst.items())), tuple(a)), []).extend(scripts)
    for li, kind, cst, fu in gens:
        r = fu.result()
        if kind == "gen":
            s, (g, d) = r
            cov["generation_states"] += d
            cov["scripts_from_spec_transitions"] += len(s)
        else:
            s = r
            cov["scripts_from_simulation"] += len(s)
        add(li, cst, [vf.script_text(x) for x in s])
    for li, l in enumerate(legs):
        for cst, s in l.extra_scripts:
            add(li, cst, s() if callable(s) else list(s))

    def group(item):
        (li, cst, a), scripts = item
        leg, cst, viol = legs[li], dict(cst), []
        scripts = list(dict.fromkeys(scripts))
        exe = builds[li].result()

        def execute(sc, procs=vf.CPUS):
            tr = vf.run_driver(exe, sc, args=a, procs=procs, env=leg.env)
            return [leg.post(t) if (leg.post and t is not None) else t for t in tr]
        traces = execute(scripts)
        rej, nn, (g, d) = vf.validate(leg.spec, cst, traces, invs=leg.invs)
        if rej:
            # a rejection must repeat before it is reported
            rej.sort(key=lambda ij: ij[1])
            sub = [scripts[i] for i, _ in rej[:6]]
            again = execute(sub, procs=1)
            rej2, _, _ = vf.validate(leg.spec, cst, again, procs=1)
            if not rej2:
                # not repeatable one by one: repeat the whole batch
                again, sub = execute(scripts), scripts
                rej2, _, _ = vf.validate(leg.spec, cst, again)
            if not rej2:
                raise vf.CheckError("a rejection did not repeat: %s" % scripts[rej[0][0]])
            for i, j in rej2[:3]:
                viol.append(dict(spec=leg.spec, harness=leg.harness, constants=cst, args=a, script=sub[i],
                                 rejected_event=json.loads(again[i][j]), trace=[json.loads(x) for x in again[i][:j + 1]],
                                 spec_state_before=vf.explain(leg.spec, cst, again[i][:j + 1]), n_rejected=len(rej)))
        elif any(t is None for t in traces):
            raise vf.CheckError("%d scripts were not executed" % sum(t is None for t in traces))
        return leg, scripts, traces, d, viol
    for leg, scripts, traces, d, v in pool.map(group, groups.items()):
        viol += v
        cov["traces_validated_against_impl"] += sum(t is not None for t in traces)
        cov["trace_events_validated"] += sum(len(t) for t in traces if t is not None)
        cov["trace_states"] += d
        for t in traces:
            for e in t or ():
                if e.startswith('{"k":"c"'):
                    ops[e[e.index("[") + 1:].split(",")[0].strip('"]}')] += 1
                elif '"op":"' in e:
                    obs[e.split('"op":"', 1)[1].split('"', 1)[0]] += 1
        if scripts:
            k = random.Random(vf.SEED).randrange(len(scripts))
            if len(cov["samples"]) < 6 and traces[k]:
                cov["samples"].append(dict(spec=leg.spec, script=scripts[k], trace_head=[json.loads(x) for x in traces[k][:6]]))
    for spec, cst, invs, props, fu in designs:
        g, d = fu.result()
        cov["states"] += d
        cov["transitions"] += g
        cov["design_runs"].append(dict(spec=spec, constants=cst, invariants=list(invs), properties=list(props), states=d, transitions=g))
    for l in mtlegs:
        mt.run_leg(l, pool, cov, viol, ops, obs)
    cov["commands"] = dict(ops)
    cov["observations"] = dict(obs)
    return cov, viol, time.time() - t0


def main(table):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    try:
        fn = table[a.pid]
        res = fn(a.tier)
        if isinstance(res, list):
            cov, viol, _ = run_property(a.pid, res, a.tier)
        else:
            cov, viol = res
        ev = dict(property=a.pid, tier=a.tier, seed=vf.SEED, level="model_checking", coverage=cov,
                  wall_s=round(time.time() - t0, 1), violations=len(viol))
        with open(os.path.join(EVID, a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if viol:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            for k, v in enumerate(viol):
                p = os.path.join(rd, "%s-%d.json" % (a.pid, k))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print("property %s: %s script=%s rejected=%s" % (a.pid, v.get("spec"), v.get("script"), json.dumps(v.get("rejected_event"))))
                print("VIOLATION property=%s replay=%s" % (a.pid, p))
            rc = 1
        else:
            print("property %s held: %d states, %d traces validated, %.1fs" % (a.pid, cov.get("states", 0), cov.get("traces_validated_against_impl", 0), time.time() - t0))
        return rc
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        vf.cleanup()
