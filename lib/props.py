"""Property table: which specification, driver and bounds decide each property."""
from runner import Leg
from mt import MtLeg

TABLE = {}


def prop(pid):
    def deco(f):
        TABLE[pid] = f
        return f
    return deco


def tset(*xs):
    return "{" + ",".join('"%s"' % x for x in xs) + "}"


def T(tier, q, t):
    return t if tier == "thorough" else q


# ---------------------------------------------------------------- coroutine contexts
CTX_INV = ["OneFrame", "MainBelow", "RefsMatch", "FnMatch"]
CTX_PROP = ["FinalSticky", "EnterOnce", "ReturnBelow"]


def ctx(n, vals, *features, nt=1):
    return dict(N=n, NT=nt, Vals="{" + ",".join(map(str, vals)) + "}", Features=tset(*features))


def ctx_leg(gen, sim):
    return Leg("Ctx", "ctx", args=lambda c: [str(c["N"]), str(c["NT"])], design=[(g[0], CTX_INV, CTX_PROP) for g in gen], gen=gen, sim=sim)


def cmt(t, n, *feats):
    return dict(T=t, N=n, Features=tset(*feats))


CMT_INV = ["OneDriver", "Pieces", "GoneAtLast"]


def cmt_leg(tier, progs, design):
    return MtLeg("CtxMT", "ctxmt", args=lambda c: [c["T"], c["N"]], opts=dict(bound=T(tier, 2, 3), max=T(tier, 200, 2000), random=T(tier, 5, 50), races=True),
                 design=[(c, CMT_INV, ["FinalSticky"]) for c in design], progs=progs)


@prop("C01")
def c01(tier):
    return [ctx_leg([(ctx(2, [1], "runner", "yieldany", "throw", "refs"), 12),
                     (ctx(1, [1], "runner", "yieldany", "throw", "modes", "refs", "flags", "variants"), 12),
                     (ctx(2, [1], "yieldany", nt=2), 12)] +
                    T(tier, [], [(ctx(3, [1], "runner", "yieldany"), 12), (ctx(2, [1], "runner", "yieldany", "throw", "modes", "refs"), 12),
                                 (ctx(2, [1], "runner", "yieldany", "throw", nt=3), 12)]),
                    [(ctx(3, [0, 1, 2], "runner", "yieldany", "throw", "modes", "refs", "flags", "variants"), 60, T(tier, 300, 4000)),
                     (ctx(4, [0, 1, 2], "runner", "yieldany", "throw", "modes", "refs", nt=3), 60, T(tier, 300, 4000))]),
            cmt_leg(tier, [(cmt(2, 1, "runner", "fin", "throw"), 1, 2, T(tier, 80, 0)), (cmt(2, 1, "runner", "fin", "throw", "drop", "two"), 1, 3, T(tier, 30, 600)),
                           (cmt(3, 1, "runner", "two"), 1, 2, T(tier, 30, 600))], [cmt(2, 1, "fin", "runner", "throw")] + T(tier, [], [cmt(3, 1, "runner", "throw")]))]


@prop("C02")
def c02(tier):
    return [ctx_leg([(ctx(2, [0, 1], "modes", "throw"), 12)] + T(tier, [], [(ctx(3, [0, 1], "throw"), 12), (ctx(2, [0, 1], "throw", "modes", nt=2), 12)]),
                    [(ctx(4, [0, 1, 2, 3], "modes", "throw"), 60, T(tier, 400, 4000)),
                     (ctx(4, [0, 1, 2], "modes", "throw", nt=3), 60, T(tier, 200, 3000))]),
            cmt_leg(tier, [(cmt(2, 1, "throw", "two"), 1, 2, 0), (cmt(2, 2, "throw", "two", "nest"), 2, 3, T(tier, 50, 600)),
                           (cmt(3, 2, "throw", "two", "nest"), 2, 2, T(tier, 20, 400))], [cmt(2, 2, "throw")])]


@prop("C03")
def c03(tier):
    return [ctx_leg([(ctx(3, [1], "throw"), T(tier, 12, 16)), (ctx(2, [1], "throw", nt=2), 12)],
                    [(ctx(5, [1], "throw", "yieldany"), 80, T(tier, 400, 4000)),
                     (ctx(5, [1], "throw", "yieldany", nt=4), 80, T(tier, 300, 4000))]),
            cmt_leg(tier, [(cmt(2, 2, "nest"), 2, 2, T(tier, 40, 0)), (cmt(2, 3, "nest", "throw", "two"), 3, 3, T(tier, 40, 600)),
                           (cmt(3, 2, "nest", "two"), 2, 2, T(tier, 20, 400))], [cmt(2, 2, "nest")])]


@prop("C04")
def c04(tier):
    return [ctx_leg([(ctx(2, [1], "refs", "sizes", "runner", "throw"), 12), (ctx(2, [1], "refs", "runner", nt=2), 12)],
                    [(ctx(4, [1], "refs", "sizes", "runner", "throw", "variants"), 60, T(tier, 400, 4000)),
                     (ctx(4, [1], "refs", "runner", "throw", "variants", nt=3), 60, T(tier, 200, 3000))]),
            cmt_leg(tier, [(cmt(2, 1, "drop", "throw"), 2, 3, T(tier, 80, 0)), (cmt(2, 2, "drop", "nest", "throw"), 3, 3, T(tier, 40, 600)),
                           (cmt(3, 1, "drop", "runner"), 1, 2, T(tier, 40, 600))], [cmt(2, 1, "drop", "throw"), cmt(3, 1, "drop")])]


# ---------------------------------------------------------------- stackful tasks and their manager
TASK_INV = ["StatusReal", "CallbackLate", "FinOnce", "NoLostFollower", "WaitersKnown", "Reclaimed", "Settled", "BindMatch",
            "TimersOfMembers", "MembersAlive"]
TASK_PROP = ["StatusMoves", "NeverEarly"]
TASK_ALL = ["wkill", "yn", "resume", "kill", "cancel", "drop", "next", "await", "throw", "modes", "status", "cb", "mdel", "mreset", "mset", "mtick",
            "mrem", "mop", "then", "variants"]
NOMGR = [f for f in TASK_ALL if f[0] != "m" or f == "modes"]


def iset(xs):
    return "{" + ",".join(map(str, xs)) + "}"


def tk(n, nw, nm, feats, privs=(1,), tos=(0,), ticks=(10,), nx=1, depth=5):
    return dict(N=n, NW=nw, NM=nm, Privs=iset(privs), Timeouts=iset(tos), Ticks=iset(ticks), Features=tset(*feats), MaxNext=nx, MaxDepth=depth)


def task_leg(gen, sim):
    def relax(c):
        return dict(tk(max(4, c["N"]), 2, 2, ["lenient"] + TASK_ALL))
    return Leg("Task", "task", args=lambda c: [c["N"], c["NW"], c["NM"]], design=[(g, TASK_INV, TASK_PROP) for g in gen],
               gen=[(g, 14) for g in gen], sim=sim, cst=relax)


def task_sim(tier, n=400):
    """everything at once"""
    return [(tk(3, 1, 2, TASK_ALL, (1, 2), (0, 1, 10, 15), (10, 13, 21, 25, 34, 50), 3, 14), 60, T(tier, n, 20 * n))]


def many_sim(tier, feats, num, nw=0, nm=0):
    """many tasks at once: long follower lists, many members, many waiters"""
    return [(tk(10, nw, nm, feats, (1,), (0, 10, 15), (10, 21, 34, 50), 9, 14), 80, T(tier, num, 20 * num))]


def cb_sim(tier, feats, n=3, nw=0, nm=0, num=400, **kw):
    return [(tk(n, nw, nm, feats, **dict(dict(privs=(1, 2), nx=3, depth=14, tos=(0, 10, 15), ticks=(10, 13, 21, 25, 34, 50)), **kw)), 50, T(tier, num, 20 * num))]


@prop("T01")
def t01(tier):
    f = ["kill", "cancel", "drop", "resume", "throw", "status", "cb", "modes"]
    return [task_leg([tk(1, 0, 0, f + ["variants"], depth=6), tk(2, 0, 0, ["kill", "cancel", "resume", "throw", "cb"], depth=6),
                      tk(1, 0, 1, ["mop", "mtick", "status", "resume", "kill", "cancel"], tos=(10,), ticks=(10, 30))]
                     + T(tier, [], [tk(2, 0, 0, f, depth=8), tk(3, 0, 0, ["kill", "cb"], depth=5)]),
                     task_sim(tier) + cb_sim(tier, f))]


@prop("T02")
def t02(tier):
    f = ["kill", "cancel", "drop", "throw", "status", "cb"]
    return [task_leg([tk(2, 0, 0, ["kill", "cancel", "throw", "status", "cb"], depth=6), tk(1, 0, 0, f + ["variants"], depth=6),
                      tk(1, 1, 1, ["mtick", "mreset", "kill", "mrem"], tos=(10,), ticks=(10, 30))]
                     + T(tier, [], [tk(2, 0, 0, f + ["next"], depth=8), tk(2, 0, 1, ["mtick", "kill", "cb", "mreset"], tos=(10,), ticks=(10, 30))]),
                     task_sim(tier) + cb_sim(tier, f + ["next", "await"]))]


@prop("T03")
def t03(tier):
    return [task_leg([tk(2, 0, 0, ["kill", "drop", "next", "throw"], nx=2), tk(3, 0, 0, ["kill", "next"], depth=3), tk(2, 0, 0, ["kill", "then", "next"], depth=4)]
                     + T(tier, [], [tk(3, 0, 0, ["kill", "next", "drop", "throw"], depth=4, nx=2), tk(2, 0, 0, ["kill", "next", "await", "cb", "drop"], nx=2, depth=6)]),
                     task_sim(tier) + cb_sim(tier, ["kill", "drop", "next", "then", "cb", "await", "throw", "variants", "status"], n=4)
                     + many_sim(tier, ["hub", "next", "drop", "kill", "cb"], 60))]


@prop("T04")
def t04(tier):
    return [task_leg([tk(2, 0, 0, ["kill", "await", "drop", "cb"], depth=5), tk(2, 1, 0, ["kill", "await"], depth=5),
                      tk(3, 0, 0, ["kill", "await"], depth=3), tk(1, 2, 0, ["kill", "drop", "wkill", "cb"], depth=5),
                      tk(2, 0, 0, ["kill", "await", "status"], depth=5), tk(1, 1, 0, ["kill", "status"], depth=5)]
                     + T(tier, [], [tk(2, 0, 0, ["kill", "await", "next", "drop", "cb", "throw"], nx=2, depth=6), tk(3, 0, 0, ["kill", "await", "resume"], nx=2, depth=5)]),
                     task_sim(tier) + cb_sim(tier, ["kill", "await", "drop", "cb", "throw", "cancel", "status"], n=4, nw=1) + cb_sim(tier, ["kill", "drop", "cb", "cancel", "wkill", "await", "status"], n=2, nw=2)
                     + many_sim(tier, ["hub", "await", "kill", "cancel"], 60, nw=2))]


@prop("T05")
def t05(tier):
    f = ["kill", "cancel", "drop", "status", "throw"]
    return [task_leg([tk(2, 0, 0, ["kill", "drop", "cb"], privs=(1, 2), depth=4), tk(1, 0, 0, f + ["cb", "resume"], privs=(1, 2), depth=6),
                      tk(1, 0, 0, ["kill", "cancel", "drop", "ylong"]),
                      tk(1, 0, 1, ["drop", "mtick", "mreset", "mdel", "mrem", "cb"], tos=(0, 10), ticks=(10, 30))]
                     + T(tier, [], [tk(2, 0, 0, f + ["cb"], privs=(1, 2), depth=7), tk(2, 0, 1, ["drop", "mtick", "mreset", "mdel", "mrem"], tos=(10,), ticks=(10, 30))]),
                     task_sim(tier) + cb_sim(tier, f + ["cb", "next", "await"]))]


@prop("T06")
def t06(tier):
    return [task_leg([tk(2, 0, 0, ["drop", "next", "cb"], depth=5), tk(2, 0, 0, ["drop", "await", "kill"], depth=5), tk(1, 0, 0, ["drop", "kill", "variants"], depth=5),
                      tk(1, 1, 1, ["drop", "mtick", "mreset", "mdel", "mrem"], tos=(10,), ticks=(10, 30))]
                     + T(tier, [], [tk(2, 1, 0, ["drop", "next", "await", "kill", "cb", "throw"], nx=2, depth=6), tk(3, 0, 0, ["drop", "next", "kill"], nx=2, depth=5)]),
                     task_sim(tier) + cb_sim(tier, ["drop", "next", "await", "then", "kill", "cb", "throw", "status"], n=4, nw=1))]


MFULL = ["kill", "status", "drop", "mdel", "mreset", "mset", "mtick", "mrem", "mop", "cb", "next"]


@prop("M01")
def m01(tier):
    return [task_leg([tk(1, 0, 2, ["kill", "mdel", "mrem", "cb"], tos=(0, 10), depth=4), tk(2, 0, 1, ["mrem", "mop"], depth=4),
                      tk(1, 0, 1, ["kill", "drop", "mreset", "mset", "mtick", "mrem"], tos=(0, 10), ticks=(10, 30))]
                     + T(tier, [], [tk(2, 0, 2, ["kill", "mrem", "mop", "mdel"], depth=4), tk(2, 0, 1, ["mrem", "mop", "mreset", "cb"], depth=5)]),
                     task_sim(tier) + cb_sim(tier, MFULL, nm=2)),
            std_mgr(tier, [((2, 0, ["task", "mop", "mrem", "kill", "nest"]), dict(depth=4, nm=1), 8), ((1, 0, ["task", "copy", "drop", "mrem", "mdel", "nest"]), dict(depth=4, nm=2, tos=(0, 10)), 9)]
                    + T(tier, [], [((2, 0, ["task", "mop", "mrem", "kill", "mreset", "nest"]), dict(depth=5, nm=2), 9)]),
                    ["task", "copy", "then", "kill", "drop", "nest", "mrem", "mop", "mreset", "mset"])]


@prop("M02")
def m02(tier):
    return [task_leg([tk(1, 0, 1, ["mset", "mtick"], tos=(0, 1, 5, 13), ticks=(10, 11, 25, 31), depth=3),
                      tk(2, 0, 1, ["mtick", "mset"], tos=(0, 10), ticks=(10, 30), depth=3)]
                     + T(tier, [], [tk(2, 0, 1, ["mtick", "mset", "mreset"], tos=(0, 1, 13), ticks=(10, 25, 31), depth=3),
                                    tk(3, 0, 1, ["mtick"], tos=(5, 10, 13), ticks=(10, 25, 31, 40), depth=3)]),
                     task_sim(tier) + cb_sim(tier, ["mset", "mtick", "drop"], n=4, nm=1, num=800, tos=(0, 1, 2, 3, 4, 5, 10, 13, 15, 25),
                                             ticks=(1, 10, 13, 15, 20, 22, 24, 25, 31, 33, 35, 40, 55))),
            std_mgr(tier, [((1, 0, ["task", "mset", "mtick"]), dict(depth=4, nm=1, tos=(0, 1, 5, 13), ticks=(10, 11, 25, 31)), 9),
                            ((2, 0, ["task", "mset", "mtick"]), dict(depth=4, nm=1, tos=(0, 10), ticks=(10, 30)), 8)]
                    + T(tier, [], [((3, 0, ["task", "mtick"]), dict(depth=3, nm=1, tos=(5, 10, 13), ticks=(10, 25, 31, 40)), 9)]),
                    ["task", "mset", "mtick", "nest", "drop"])]


@prop("M03")
def m03(tier):
    return [task_leg([tk(2, 0, 1, ["mop"], depth=4), tk(2, 0, 1, ["mreset", "mdel", "drop", "throw"], depth=4),
                      tk(1, 0, 1, ["kill", "mdel", "mreset", "mtick", "mrem", "mop", "cb"], tos=(0, 10), ticks=(10, 30), depth=5)]
                     + T(tier, [], [tk(2, 0, 1, ["mop", "mreset", "mdel", "drop", "cb", "throw"], depth=5), tk(2, 0, 2, ["mop", "mdel", "drop"], depth=4)]),
                     task_sim(tier) + cb_sim(tier, MFULL + ["throw", "modes"], nm=2)
                     + many_sim(tier, ["hub", "mreset", "mop", "mtick", "cb"], 50, nm=1)),
            std_mgr(tier, [((1, 0, ["task", "mrem", "mop", "mreset", "mdel", "drop", "nest", "kill"]), dict(depth=4, nm=1), 9),
                            ((2, 0, ["task", "mop", "mreset", "mtick"]), dict(depth=4, nm=1, tos=(10,), ticks=(10, 30)), 8)]
                    + T(tier, [], [((2, 0, ["task", "then", "mop", "mreset", "mdel", "drop", "nest"]), dict(depth=5, nm=1), 8)]),
                    ["task", "copy", "then", "call", "kill", "drop", "force", "nest", "mrem", "mop", "mreset", "mdel", "mtick"])]


# ---------------------------------------------------------------- C++20 coroutines
STD_INV = ["OnlySuspendedResumed", "NoBadResume", "OneBody", "BodyIsRunning", "RegisteredC", "RegisteredG", "LazyStart", "ReadyMeansEnded",
           "Reclaimed", "SomeSound", "SomeCompletes", "SomeDetached", "NoIdleWaiter", "InOne", "TimersOfMembers", "ResetEnds"]
STD_PROP = ["FinalSticky", "Forward", "NeverEarly"]
STD_ALL = ["call", "task", "awn", "copy", "then", "kill", "drop", "dropm", "ys", "gdrop", "gkeep", "greset", "status", "force", "gagain", "nest"]
STD_MGR = ["mrem", "mop", "mreset", "mdel", "mset", "mtick"]


def sd(n, ng, feats, mode=0, depth=4, vals=(1,), nm=0, tos=(0,), ticks=(10,)):
    return dict(N=n, NG=ng, NM=nm, Vals=iset(vals), Mode=mode, Timeouts=iset(tos), Ticks=iset(ticks), MaxDepth=depth, Features=tset(*feats))


def std_leg(gen, sim):
    def relax(c):
        return dict(c, MaxDepth=9, Vals="{1,2}", Timeouts="{0}", Ticks="{10}", Features=tset(*(STD_ALL + STD_MGR + ["lenient"] + [f for f in ("scb", "rcb", "some") if '"%s"' % f in c["Features"]])))

    def args(c):
        return [c["N"], c["NG"], c["Mode"], int('"scb"' in c["Features"]), int('"rcb"' in c["Features"]), c["NM"]]
    return Leg("Std", "std", args=args, design=[(g[0], STD_INV, STD_PROP) for g in gen], gen=gen, sim=sim, cst=relax)


def std_sim(tier, *variants, num=240, length=70):
    """everything at once, for each value type"""
    r = [(sd(3 + (m == 0), 2, list(STD_ALL) + list(extra), m, 8, (1, 2)), length, T(tier, num, 12 * num)) for m, extra in variants]
    return r + T(tier, [], [(sd(4, 3, list(STD_ALL) + ["some", "scb", "rcb"], m, 9, (1, 2)), 90, 8 * num) for m in (0, 1, 2)])


def std_mgr(tier, gen, feats=(), num=200):
    """the manager of C++20 tasks"""
    big = dict(depth=9, vals=(1, 2), tos=(0, 1, 10, 15), ticks=(10, 13, 21, 25, 34, 50))
    return std_leg([(sd(*a, **k), n) for a, k, n in gen], hub_sim(tier, (0, ["one", "task", "mreset", "mtick", "mop"]), num=25, nm=1, tos=(0, 10, 15), ticks=(10, 21, 34, 50)) +
                   [(sd(3, 1, STD_ALL + STD_MGR + list(x), m, nm=2, **big), 70, T(tier, num, 12 * num)) for m, x in ((0, ()), (1, ("some",)), (2, ("scb", "rcb")))]
                   + [(sd(3, 1, list(feats), 0, nm=1 + len(feats) % 2, **big), 50, T(tier, num, 12 * num))] * bool(feats))


def hub_sim(tier, *variants, num=40, **kw):
    """many waiters of one generator or task, or many members of one manager"""
    return [(sd(9, 1, ["hub"] + feats, m, 10, (1, 2), **kw), 60, T(tier, num, 20 * num)) for m, feats in variants]


def foc_sim(tier, feats, n=4, ng=2, mode=0, num=300, length=60):
    return [(sd(n, ng, feats, mode, 8, (1, 2)), length, T(tier, num, 12 * num))]


def tmt(t, n, m, y, *feats):
    return dict(T=t, N=n, NM=m, MaxY=y, Features=tset(*feats))


TMT_T = ["OneRunner", "FinOnce", "EndedOnce", "NotGoneInUse"]
TMT_M = TMT_T + ["NoLate", "MembersAlive", "BoundOnce", "CalmOnce", "NoTimerLeft"]
TMT_ALL = ["start", "resume", "kill", "cancel", "status", "drop", "killdone"]
TMT_MG = ["start", "resume", "kill", "madd", "mrem", "mkill", "mcancel", "mstart", "mresume"]


def tmt_leg(tier, design, progs, mx=300):
    return [MtLeg("TaskMT", "taskmt", args=lambda c: [c["T"], c["N"], c["NM"]],
                  opts=dict(bound=T(tier, 2, 3), max=T(tier, mx, 10 * mx), random=T(tier, 5, 50), races=True), design=design, progs=progs)]


@prop("T07")
def t07(tier):
    return tmt_leg(tier, [(tmt(2, 1, 0, 1, "start", "resume", "kill", "cancel", "status", "drop"), TMT_T, ["FinalSticky"])]
                   + T(tier, [], [(tmt(2, 1, 0, 2, *TMT_ALL), TMT_T, ["FinalSticky"]), (tmt(3, 1, 0, 1, "start", "resume", "kill", "cancel"), TMT_T, ["FinalSticky"])]),
                   [(tmt(2, 1, 0, 1, *TMT_ALL), 1, 2, T(tier, 30, 0)), (tmt(2, 1, 0, 1, *(TMT_ALL + ["bop", "pre"])), 3, 2, T(tier, 30, 400)),
                    (tmt(3, 1, 0, 1, "start", "resume", "kill", "cancel", "drop", "pre"), 2, 1, T(tier, 20, 300))]
                   + T(tier, [], [(tmt(2, 2, 0, 2, *(TMT_ALL + ["bop", "pre"])), 4, 3, 60)]))


@prop("T08")
def t08(tier):
    return tmt_leg(tier, [(tmt(2, 2, 0, 0, "start", "next", "drop"), TMT_T + ["NoLate"], ["FinalSticky"])]
                   + T(tier, [], [(tmt(2, 2, 0, 1, "start", "kill", "next", "drop"), TMT_T + ["NoLate"], ["FinalSticky"])]),
                   [(tmt(2, 2, 0, 1, "start", "next", "kill"), 0, 1, 0), (tmt(2, 2, 0, 1, "start", "next", "kill", "cancel", "drop", "pre"), 3, 2, T(tier, 30, 400)),
                    (tmt(2, 3, 0, 1, "start", "next", "kill", "bop", "pre"), 3, 2, T(tier, 20, 300)), (tmt(3, 3, 0, 0, "start", "next", "pre"), 2, 1, T(tier, 20, 300))])


def smt(t, n, m, *feats):
    return dict(T=t, N=n, NM=m, Features=tset(*feats))


SMT_INV = ["OneRunner", "EnterOnce", "NotGoneInUse", "GoneWhenUnused", "LockFree", "MembersAlive", "CalmOnce", "NoTimerLeft"]
SMT_MG = ["start", "kill", "madd", "mrem", "mkill", "mstart"]


def smt_leg(tier, design, progs, mx=300):
    return [MtLeg("StdMT", "stdmt", args=lambda c: [c["T"], c["N"], c["NM"]],
                  opts=dict(bound=T(tier, 2, 3), max=T(tier, mx, 10 * mx), random=T(tier, 5, 50)), design=[(c, SMT_INV, []) for c in design], progs=progs)]


@prop("P08")
def p08(tier):
    a = ["start", "kill", "drop", "wait", "pre"]
    return smt_leg(tier, [smt(2, 1, 0, "start", "kill", "drop", "wait")] + T(tier, [], [smt(2, 2, 0, "start", "kill", "drop", "wait"), smt(3, 1, 0, "start", "kill", "drop", "wait")]),
                   [(smt(2, 1, 0, *a), 1, 2, 0), (smt(2, 1, 0, *a), 2, 2, T(tier, 60, 600)), (smt(2, 2, 0, *a, "bop"), 3, 2, T(tier, 60, 600)),
                    (smt(3, 1, 0, *a), 2, 1, T(tier, 40, 400))] + T(tier, [], [(smt(3, 2, 0, *a, "bop"), 3, 2, 200)]))


@prop("M04")
def m04(tier):
    return smt_leg(tier, [smt(2, 1, 1, "start", "kill", "madd", "mrem", "mstart", "wait"), smt(2, 1, 1, "start", "madd", "mkill", "mreset", "drop")]
                   + T(tier, [], [smt(2, 1, 2, "start", "madd", "mrem", "mkill", "mreset")]),
                   [(smt(2, 1, 1, "start", "madd"), 1, 1, 0), (smt(2, 1, 1, "start", "madd", "mreset"), 2, 2, T(tier, 24, 0)), (smt(2, 2, 2, *SMT_MG, "pre", "bop", "wait"), 3, 2, T(tier, 10, 150)),
                    (smt(2, 2, 1, *SMT_MG, "mtick", "mset", "pre"), 3, 2, T(tier, 10, 150)),
                    (smt(2, 2, 1, *SMT_MG, "mreset", "mtick", "pre", "wait", "drop"), 3, 2, T(tier, 10, 150))], mx=200) + m04_stackful(tier)


def m04_stackful(tier):
    return tmt_leg(tier, [(tmt(2, 1, 1, 0, "start", "madd", "mrem", "mkill", "mcancel", "mstart"), TMT_M, ["FinalSticky"]),
                          (tmt(2, 1, 2, 0, "start", "madd", "mrem", "mkill", "mreset"), TMT_M, ["FinalSticky"])]
                   + T(tier, [], [(tmt(2, 1, 1, 1, "start", "kill", "madd", "mrem", "mkill", "mcancel", "mstart", "drop"), TMT_M, ["FinalSticky"]),
                                  (tmt(2, 1, 2, 0, "start", "madd", "mrem", "mkill", "mcancel", "mstart", "mreset"), TMT_M, ["FinalSticky"])]),
                   [(tmt(2, 1, 1, 1, "start", "madd"), 1, 1, 0), (tmt(2, 2, 2, 1, *(TMT_MG + ["bop", "pre"])), 3, 2, T(tier, 10, 150)),
                    (tmt(2, 2, 1, 1, "start", "kill", "madd", "mrem", "mtick", "mset", "mreset", "pre"), 4, 2, T(tier, 20, 200)),
                    (tmt(2, 2, 1, 1, *(TMT_MG + ["mtick", "mreset", "bop", "pre", "next", "drop"])), 4, 2, T(tier, 10, 150)),
                    (tmt(3, 2, 1, 1, *(TMT_MG + ["mtick", "mreset", "pre"])), 3, 1, T(tier, 8, 100))], mx=200)


@prop("P01")
def p01(tier):
    return [std_leg([(sd(3, 1, ["call", "awn"]), 14), (sd(2, 1, ["call", "awn", "kill", "nest"], 1), 11)]
                    + T(tier, [], [(sd(4, 1, ["call", "awn"]), 15), (sd(3, 1, ["call", "awn", "nest"]), 13), (sd(3, 0, ["call", "kill", "nest"], 2), 13)]),
                    std_sim(tier, (0, ["scb"]), (1, []), (2, ["some"])) + foc_sim(tier, ["call", "awn", "kill", "nest", "status"], 4, 1, 1))]


@prop("P02")
def p02(tier):
    return [std_leg([(sd(2, 1, ["call", "awn", "kill", "status"]), 11), (sd(3, 1, ["call", "kill"]), 11), (sd(2, 1, ["call", "kill", "force", "drop", "nest"], 1), 11)]
                    + T(tier, [], [(sd(3, 1, ["call", "awn", "kill", "status", "nest"]), 10), (sd(3, 1, ["call", "awn", "kill", "force", "drop"]), 13)]),
                    std_sim(tier, (0, ["some"]), (1, ["rcb"]), (2, []), (3, [])) + foc_sim(tier, ["call", "awn", "kill", "force", "drop", "nest", "status"], 4, 1, 0))]


@prop("P03")
def p03(tier):
    return [std_leg([(sd(2, 2, ["call", "scb"]), 9), (sd(2, 1, ["call", "gdrop", "gkeep", "rcb"], 1), 11), (sd(1, 1, ["call", "gdrop", "gkeep", "greset", "gagain", "nest", "kill", "scb", "rcb"], vals=(1, 2)), 9)]
                    + T(tier, [], [(sd(3, 2, ["call", "kill"], 1), 11), (sd(2, 1, ["call", "task", "gdrop", "gkeep", "greset", "nest", "kill"]), 10)]),
                    std_sim(tier, (0, ["scb", "rcb"]), (1, ["scb", "rcb"]), (2, ["scb", "rcb", "some"]), (3, ["scb"]))
                    + foc_sim(tier, ["call", "task", "kill", "nest", "status", "gdrop", "gkeep", "greset", "gagain", "scb", "rcb"], 3, 2, 1)
                    + hub_sim(tier, (0, ["call", "task", "kill", "gdrop", "gkeep"])))]


@prop("P04")
def p04(tier):
    return [std_leg([(sd(2, 0, ["task", "kill", "status", "force", "ys"]), 9), (sd(1, 1, ["task", "copy", "kill", "drop", "status", "force", "ys", "nest"], 1), 11),
                     (sd(2, 1, ["task", "copy", "kill", "drop"]), 10)]
                    + T(tier, [], [(sd(2, 1, ["task", "kill", "status", "nest", "ys", "force"]), 10), (sd(3, 0, ["task", "kill", "drop", "nest"], 2), 11)]),
                    std_sim(tier, (0, ["some"]), (1, []), (2, ["rcb"]), (3, [])) + foc_sim(tier, ["task", "kill", "drop", "copy", "status", "force", "ys", "nest", "then"], 4, 1, 0))]


@prop("P05")
def p05(tier):
    return [std_leg([(sd(3, 0, ["task", "kill"], 1), 11), (sd(3, 0, ["task", "then"]), 9), (sd(2, 1, ["task", "call", "then", "kill", "drop"]), 8)]
                    + T(tier, [], [(sd(3, 0, ["task", "then", "kill", "nest"], 1), 9), (sd(3, 1, ["task", "call", "kill", "drop"]), 9)]),
                    std_sim(tier, (0, []), (1, ["some"]), (2, []), (3, [])) + foc_sim(tier, ["task", "then", "call", "kill", "copy", "drop", "nest", "force", "status"], 4, 1, 1)
                    + hub_sim(tier, (0, ["one", "task", "kill"]), (1, ["one", "task", "kill", "drop", "copy"])))]


@prop("P06")
def p06(tier):
    return [std_leg([(sd(2, 1, ["task", "call", "drop", "dropm", "gdrop"]), 9), (sd(2, 0, ["task", "then", "copy", "drop"]), 10), (sd(2, 1, ["call", "awn", "drop", "kill", "nest", "gdrop"], 1), 11)]
                    + T(tier, [], [(sd(3, 1, ["task", "call", "drop", "awn"]), 9), (sd(3, 0, ["task", "then", "copy", "drop", "nest"]), 10), (sd(2, 2, ["call", "task", "drop", "gdrop", "gkeep", "some"]), 9)]),
                    std_sim(tier, (0, ["some"]), (1, ["scb"]), (2, ["some"])) + foc_sim(tier, ["call", "awn", "task", "then", "drop", "copy", "gdrop", "gkeep", "kill", "nest", "force", "status"], 4, 2, 1))]


@prop("P07")
def p07(tier):
    return [std_leg([(sd(1, 3, ["call", "some"]), 9), (sd(2, 1, ["call", "some", "kill", "status"]), 10), (sd(2, 0, ["task", "some", "kill", "nest"]), 9), (sd(3, 0, ["task", "some"]), 9),
                     (sd(1, 2, ["call", "some", "kill", "gdrop", "scb", "rcb"]), 9)]
                    + T(tier, [], [(sd(1, 4, ["call", "some"]), 10), (sd(3, 1, ["call", "some", "kill", "nest"]), 10), (sd(3, 1, ["task", "some", "kill"]), 9), (sd(1, 3, ["call", "some", "kill", "scb", "rcb"]), 10)]),
                    std_sim(tier, (0, ["some", "scb", "rcb"]), (1, ["some"]), (2, ["some", "rcb"]))
                    + foc_sim(tier, ["task", "some", "kill", "nest", "force", "drop", "status"], 4, 2) + foc_sim(tier, ["call", "awn", "some", "kill", "nest", "rcb", "status"], 4, 3))]


def fit(s, stacks, privs, extras, kinds, modes, raws, *feats):
    return dict(S=s, Stacks=iset(stacks), Privs=iset(privs), Extras=iset(extras), Kinds=iset(kinds), Modes=iset(modes), Raws=iset(raws), Features=tset(*feats))


FIT_INV = ["FollowersAreTasks", "RunnableOnly", "EmptyIsClean", "OneLeader"]
HUGE = 500000000


@prop("C05")
def c05(tier):
    stacks = (0, 1, 64, 700, 4096, 16384, 20000, 30000, 65536, 200000, 2000000, HUGE, HUGE + 64)
    privs = (0, 1, 31, 64, 100, 1000, 4096, 16000, 24000, 60000, 1000000, HUGE, HUGE + 7, HUGE + 31, HUGE + 63, HUGE + 64, HUGE + 600, HUGE + 5000)
    extras = (0, 1, 40, 500, 4000, 20000, HUGE, HUGE + 32, HUGE + 700, HUGE + 20000)
    few = (fit(2, (0, 16384, 65536), (0, 100, 1000), (0, 40), (1, 4, 5), (0, 1), (), "then"), 12)
    some = (0, 64, 4096, 16384, 65536, 200000, HUGE), (0, 100, 1000, 16000, 60000, HUGE, HUGE + 31, HUGE + 63, HUGE + 5000), (0, 40, 20000, HUGE, HUGE + 700)
    gen = [(fit(1, *some, (1,), (0, 1), ()), 6), (fit(1, stacks, privs, (0,), (4,), (0, 1), ()), 6),
           (fit(1, (0, 30000, 65536), (0, 100, 60000), (0, 40), (1, 2, 3, 4, 5, 6), (0, 1, 2), ()), 6),
           (fit(1, (700, 1000), (0, 64), tuple(range(200, 720, 16)), (1,), (0,), ()), 4),
           (fit(2, (), (), (), (), (), tuple(range(1, 18))), 8), (fit(3, (65536,), (0, 100), (0,), (4, 6), (0, 1), (1,), "then"), 14)] + T(tier, [], [few, (fit(1, stacks, privs, extras, (1, 2, 3), (0, 1, 2), ()), 6), (fit(1, stacks, privs, (0,), (4, 5, 6), (0, 1, 2), ()), 6)])
    return [Leg("Fit", "fit", args=lambda c: [c["S"]], design=[(g[0], FIT_INV, []) for g in gen], gen=gen,
                sim=[(fit(4, *some, (1, 3, 4, 6), (0, 1), tuple(range(1, 18)), "then"), 60, T(tier, 300, 6000)),
                     (fit(5, (0, 16384, 65536), (0, 64, 100, 1000), (0, 40, 4000), (1, 4, 5, 6), (0, 1), (1, 2, 3), "then"), 60, T(tier, 300, 6000))])]



# ---------------------------------------------------------------- stack pool and allocators
POOL_INV = ["Disjoint", "IdleNotUsed", "IdleOnce", "BigEnough", "DeadHoldsNothing"]
POOL_PROP = ["Accounted", "Maxima", "NewestFirst", "CollectOldest"]
POOL_ALL = ["fail", "gc", "clear", "maxn", "maxs", "minn", "mins", "auto", "gcn", "drop"]


def pl(n, feats, sizes=(1, 2), limits=(0,), modes=(0,), mf=3):
    return dict(N=n, Unit=65536, MinSz=20000, Page=4096, Sizes=iset(sizes), Limits=iset(limits), Modes=iset(modes), MaxFree=mf, Features=tset(*feats))


def pool_leg(gen, sim):
    return Leg("Pool", "pool", args=lambda c: [c["N"], c["Unit"]], design=[(g, POOL_INV, POOL_PROP) for g in gen],
               gen=[(g, 12) for g in gen], sim=sim, cst=lambda c: dict(c, MaxFree=99))


def pool_sim(tier, *more):
    lim = (0, 1, 2, 3, 4, 101, 102, 103, 104)
    return [(pl(5, POOL_ALL, (0, 1, 2, 3), lim, (0, 1, 2, 3, 4), 9), 60, T(tier, 400, 8000))] + \
           [(pl(5, f, sz, lim, (0, 1, 2, 3, 4), 9), 50, T(tier, 400, 8000)) for f, sz in more]


@prop("K01")
def k01(tier):
    return [pool_leg([pl(2, ["gc", "clear", "drop", "fail"], modes=(0, 1, 2)), pl(3, ["gc", "drop", "auto"], (1, 2), modes=(3,)), pl(2, ["clear", "drop", "maxn"], (0, 2, 3), (0, 1), (4,))]
                     + T(tier, [], [pl(3, ["gc", "clear", "drop", "fail", "auto"], (1, 2, 3), modes=(0, 1, 2, 3, 4), mf=4)]),
                     pool_sim(tier, (["gc", "clear", "drop", "auto", "fail"], (1, 2, 3)), (["clear", "drop", "gc", "minn"], (1, 2))))]


@prop("K02")
def k02(tier):
    return [pool_leg([pl(3, ["maxn", "maxs", "auto"], (1,), (0, 2, 102), (0, 1)), pl(3, ["gc", "minn", "mins", "auto"], (1,), (0, 2), (0,), 3),
                      pl(3, ["gc", "gcn", "auto", "minn"], (1,), (0, 1), (0,), 3), pl(2, ["maxs", "fail"], (1, 2), (0, 1, 2), (3,))]
                     + T(tier, [], [pl(4, ["gc", "minn", "mins", "auto", "gcn"], (1, 2), (0, 2, 3, 103), (0, 1), 4), pl(4, ["maxn", "maxs", "gc"], (1, 2), (0, 2, 3, 103), (0, 1, 2), 4)]),
                     pool_sim(tier, (["gc", "minn", "mins", "auto", "gcn"], (1,)), (["maxn", "maxs", "fail", "auto"], (1, 2)), (["gc", "auto", "gcn"], (1,))))]


ALLOC_INV = ["BlockOnce", "OneHome", "UsedHasStack"]


def al(s, m, b, feats, reqs, mx=0):
    return dict(S=s, M=m, Blocks=b, Reqs=iset(reqs), MinSz=20000, MaxSz=mx, Page=4096, Features=tset(*feats))


def pmt(t, k, *feats):
    return dict(T=t, K=k, Features=tset(*feats))


@prop("K03")
def k03(tier):
    inv = ["OneOwner", "IdleApart", "AllAccounted"]
    return [MtLeg("PoolMT", "poolmt", args=lambda c: [c["T"], c["K"]], opts=dict(bound=2, max=T(tier, 300, 3000), random=T(tier, 5, 50), races=True),
                  design=[(pmt(2, 1, "gc", "clear"), inv, []), (pmt(2, 1, "drop", "gc"), inv, []), (pmt(2, 1, "size"), inv, []),
                          (pmt(2, 1, "maxn"), inv + ["WithinMax"], [])] + T(tier, [], [(pmt(2, 2), inv, []), (pmt(3, 1, "gc"), inv, [])]),
                  progs=[(pmt(2, 2, "gc"), 2, 1, 0), (pmt(2, 1, "maxn", "maxs"), 2, 1, 0),
                         (pmt(2, 2, "gc", "clear", "maxn", "maxs", "size", "drop", "minn", "gcn", "noauto"), 3, 2, T(tier, 150, 3000)),
                         (pmt(3, 1, "gc", "clear", "maxn", "drop", "size"), 2, 2, T(tier, 20, 400))]
                  + T(tier, [], [(pmt(2, 2, "gc", "clear", "maxn"), 3, 2, 0)]))]


@prop("K04")
def k04(tier):
    big = (0, 1, 4096, 19999, 20000, 20001, 20480, 20481, 29000, 65536, 65537, 100000, 200000, 1000000, 7, 8)
    gen = [al(2, 2, 2, ["mem"], (0, 29000, 100000)), al(2, 1, 1, ["sys"], big), al(1, 1, 6, ["mem"], big), al(1, 1, 1, ["sys"], big, 99999),
           al(1, 1, 6, ["mem"], big, 24000)] + T(tier, [], [al(2, 3, 2, ["mem"], (0, 29000)), al(3, 1, 2, ["sys", "mem"], (0, 29000, 7))])
    return [Leg("Alloc", "alloc", args=lambda c: [c["S"], c["M"], c["MaxSz"]], design=[(g, ALLOC_INV, []) for g in gen], gen=[(g, 12) for g in gen],
                sim=[(al(3, 3, 6, ["mem", "sys"], big, mx), 60, T(tier, 400, 8000)) for mx in (0, 99999)])]


# ---------------------------------------------------------------- small utilities
def lmt(t, *feats):
    return dict(T=t, Features=tset(*feats))


@prop("U01")
def u01(tier):
    def ids(t, near, *f):
        return dict(T=t, Near=near, Features=tset(*f))
    o = dict(bound=T(tier, 2, 3), max=T(tier, 200, 2000), random=T(tier, 10, 100), races=True)
    alg = [(dict(T=2, SB=1, CB=1, Max=T(tier, 4, 6), K=T(tier, 3, 4)), ["Unique", "NonZero", "Behind"], []),
           (dict(T=3, SB=1, CB=1, Max=3, K=2), ["Unique", "NonZero", "Behind"], [])]
    return [MtLeg("IdMT", "idmt", args=lambda c: [c["Near"]], opts=o, design=(), xdesign=[("IdAlg",) + x for x in alg],
                  progs=[(ids(2, 0), 0, 1, 0), (ids(2, 0, "pre", "tick", "task"), 2, 2, T(tier, 40, 600)), (ids(3, 0, "tick"), 0, 2, T(tier, 20, 300))]),
            MtLeg("IdMT", "idmt", args=lambda c: [c["Near"]], opts=dict(o, max=T(tier, 60, 2000)), procs=2,
                  progs=[(ids(2, 3, "pre", "tick"), 1, 2, T(tier, 25, 200))])]


@prop("U02")
def u02(tier):
    def g(l, n, kinds, feats):
        return dict(L=l, G=n, Kinds=iset(kinds), Features=tset(*feats))
    gen = [g(2, 2, (1, 2, 3), ["raw"]), g(2, 3, (4, 5), ["raw"])] + T(tier, [], [g(3, 3, (1, 2), ["raw"]), g(2, 4, (4, 5), ["raw"]), g(3, 3, (3,), ["raw"])])
    return [Leg("Guard", "guard", args=lambda c: [c["L"], c["G"]], design=[(x, ["OwnersExclude", "OwnedIsHeld", "ReadersCounted"], []) for x in gen],
                gen=[(x, 12) for x in gen], sim=[(g(3, 4, (1, 2, 3, 4, 5), ["raw"]), 60, T(tier, 400, 8000)), (g(1, 4, (4, 5), ["raw"]), 60, T(tier, 200, 8000))]),
            MtLeg("LockMT", "lockmt", opts=dict(bound=2, max=T(tier, 200, 3000), random=T(tier, 5, 50), races=True),
                  design=[(lmt(3, "guard"), ["OneOwner", "OwnerHolds"], []), (lmt(2, "tryun"), ["OneOwner", "OwnerHolds"], [])],
                  progs=[(lmt(2, "guard"), 0, 2, 0), (lmt(2, "tryun"), 0, 3, T(tier, 60, 1000)), (lmt(3, "guard"), 0, 3, T(tier, 20, 400))])]


@prop("U03")
def u03(tier):
    def g(o, p, pb, feats):
        return dict(NO=o, P=p, PB=pb, Features=tset(*feats))
    gen = [g(2, 2, 1, ["more", "detach"]), g(2, 2, 2, ["link", "more"])] + T(tier, [], [g(2, 3, 2, ["more", "detach"]), g(3, 2, 2, ["link", "detach"])])
    return [Leg("Iptr", "iptr", args=lambda c: [c["NO"], c["P"], c["PB"]], design=[(x, ["AliveIffReferenced", "NoDangling"], []) for x in gen],
                gen=[(x, 12) for x in gen], sim=[(g(4, 5, 3, ["more", "link", "detach"]), 60, T(tier, 400, 8000)), (g(5, 4, 4, ["link"]), 60, T(tier, 200, 8000)),
                                                 (g(3, 4, 2, []), 60, T(tier, 200, 8000))])]


@prop("U04")
def u04(tier):
    def g(p, r, v, pk, rk, feats):
        return dict(P=p, R=r, V=v, PK=pk, RK=rk, Features=tset(*feats))
    gen = [g(2, 1, 2, pk, 1, ["poll"]) for pk in range(1, 8)] + [g(1, 2, 2, 1, rk, ["res"]) for rk in range(1, 10)] + \
          T(tier, [], [g(3, 1, 2, pk, 1, ["poll"]) for pk in range(1, 8)] + [g(1, 2, 1, 8, rk, ["poll", "res"]) for rk in range(1, 10)])
    return [Leg("Fut", "fut", args=lambda c: [c["P"], c["R"], c["PK"], c["RK"]], design=[(x, ["TypeOK"], ["OnlyMoved"]) for x in gen if x["PK"] in (1, 5, 8)],
                gen=[(x, 12) for x in gen], sim=[(g(3, 3, 4, 8, rk, ["poll", "res"]), 60, T(tier, 100, 4000)) for rk in range(1, 10)]
                + [(g(4, 1, 4, pk, 1, ["poll"]), 60, T(tier, 60, 4000)) for pk in range(1, 8)])]


@prop("U05")
def u05(tier):
    def g(ty, args, forms=(0, 1, 2, 3)):
        return dict(Ty=ty, Args=iset(args), Forms=iset(forms))
    inv = ["InRange", "Laws"]
    small, big = (0, 1, 2, 127, 128, 255), (0, 1, 2, 3, 5, 64, 85, 100, 127, 128, 170, 200, 254, 255)
    legs = [Leg("Int", "int", args=lambda c: [c["Ty"]], design=[(g(ty, big, (0,)), inv, []) for ty in (1, 5, 13)],
                gen=[(g(ty, small), 3) for ty in T(tier, (1, 3), range(1, 15))],
                sim=[(g(ty, big), 60, T(tier, 60, 2000)) for ty in range(1, 15)])]

    def m(t, *f):
        return dict(T=t, Features=tset(*f))
    o = dict(bound=2, max=T(tier, 100, 2000), random=T(tier, 5, 50), races=True)
    legs.append(MtLeg("IntMT", "intmt", opts=o, design=[(m(2, "sum"), [], []), (m(2, "bits"), [], []), (m(3, "msg"), ["Published"], [])],
                      progs=[(m(2, "sum"), 0, 1, 0), (m(2, "bits"), 0, 1, 0), (m(2, "swap"), 0, 1, 0), (m(2, "msg"), 0, 1, 0),
                             (m(2, "sum", "bits", "swap"), 0, 2, T(tier, 60, 1000)), (m(3, "msg"), 0, 2, T(tier, 20, 300)), (m(3, "sum", "swap"), 0, 2, T(tier, 20, 300))]))
    return legs


CHAIN_INV = ["NoIdleWaiter", "ParentLives", "CalledInOrder", "OneFrame"]


def ch(n, feats, vals=(1,), depth=3):
    return dict(N=n, Vals=iset(vals), MaxDepth=depth, Features=tset(*feats))


@prop("P09")
def p09(tier):
    every = ["gate", "drop", "pd", "cget", "allrt", "allhk", "kill"]
    gen = [(ch(2, ["gate", "kill", "allrt"], depth=3), 9), (ch(3, ["gate", "kill"], depth=2), 7), (ch(2, ["gate", "drop", "allrt", "allhk"], depth=3), 10), (ch(2, ["pd", "cget"], (1, 2)), 7), (ch(3, ["gate", "drop", "callrt"], depth=2), 8)] \
        + T(tier, [], [(ch(3, ["gate", "callrt", "allhk"], depth=3), 9), (ch(2, every, (1, 2), depth=4), 9)])
    return [Leg("Chain", "chain", args=lambda c: [c["N"]], design=[(g[0], CHAIN_INV, ["OverStaysOver"]) for g in gen], gen=gen,
                sim=[(ch(4, every, (1, 2), 6), 60, T(tier, 300, 6000)), (ch(6, ["gate", "drop", "allrt", "allhk"], (1,), 6), 60, T(tier, 200, 4000)), (ch(4, ["gate", "drop", "kill", "allrt", "allhk"], (1,), 6), 60, T(tier, 200, 4000)),
                     (ch(3, ["pd", "cget", "gate", "taskrt"], (1, 2, 3), 5), 50, T(tier, 200, 4000))],
                cst=lambda c: dict(c, MaxDepth=30, Features=tset(*(every + ["lenient"]))))]


TECH = {"default": "TLA+ specification checked with TLC; scripts generated from it by TLC replayed into the real code, and the recorded traces validated against it by TLC"}
NOTE = {"default": "The specification's invariants are checked exhaustively by TLC within the stated bounds; every transition of the bounded "
        "state graph (plus seeded random behaviours of a larger instance) is executed on the real code and every recorded observation must be one the "
        "specification allows. Trusts TLC, the driver's observation code and the compiler; bounded in tasks/objects and script length."}
NA = {}
