"""Which machinery decides which property."""
from . import gen_fut, gen_exe, gen_ch, gen_kf, gen_prog
from .core import SEED

CHECKS = {}
META = {}   # property -> (technique, level note)


# ------------------------------------------------------------- exhaustive checks of the specifications themselves
def fut_env(prog, pool=2, red=0):
    return dict(FUTURE_PROG=prog, FUTURE_POOL=str(pool), FUTURE_RED=str(red))


def ch_env(net, sends, err=0, drop=0, buf=1):
    return dict(CH_NET=net, CH_SENDS=str(sends), CH_ERR=str(err), CH_DROP=str(drop), CH_BUFFER=str(buf))


def timer_env(n, horizon):
    return dict(TIMER_TASKS=str(n), TIMER_HORIZON=str(horizon))


def serial_env(n, q):
    return dict(SERIAL_TASKS=str(n), SERIAL_QUEUES=str(q))


def pool_env(n, cores, mode):
    return dict(POOL_TASKS=str(n), POOL_CORES=str(cores), POOL_MODE=mode)


# property -> (configurations of the quick tier, of the thorough tier)
MC = {
    "F01": ("Future", [fut_env("acr")], [fut_env("atr"), fut_env("ptvr")]),
    "F02": ("Future", [fut_env("at")], [fut_env("att", 1), fut_env("ptvt")]),
    "F03": ("Future", [fut_env("aT")], [fut_env("aTt", 1)]),
    "F04": ("Future", [fut_env("at")], [fut_env("att", 1), fut_env("aaj", 1)]),
    "F05": ("Future", [fut_env("ptb")], [fut_env("pttb"), fut_env("p***")]),
    "F06": ("Future", [fut_env("aDx"), fut_env("ptxv")], [fut_env("atx"), fut_env("a**", 1)]),
    "F07": ("Future", [fut_env("at", 1, 1)], [fut_env("at", 2, 1), fut_env("atx", 1, 1)]),
    "F08": ("Future", [fut_env("ppjv", 1)], [fut_env("aaj", 1), fut_env("iij", 2), fut_env("ppjvv")]),
    "F09": ("Future", [fut_env("ppjv", 1)], [fut_env("aaj", 1), fut_env("iij", 2), fut_env("ppjvb")]),
    "F10": ("Future", [fut_env("acw")], [fut_env("atw"), fut_env("aaw")]),
    "F11": ("Future", [fut_env("accr")], [fut_env("actr")]),
    "F12": ("Future", [fut_env("aor"), fut_env("aaO", 1)], [fut_env("aaO", 2), fut_env("atO")]),
    "E01": ("Pool", [pool_env(2, 1, "any"), pool_env(2, 2, "wait")], [pool_env(2, 3, "any"), pool_env(3, 2, "any")]),
    "E02": ("Pool", [pool_env(2, 1, "any")], [pool_env(3, 1, "any"), pool_env(2, 3, "any")]),
    "E03": ("Pool", [pool_env(2, 2, "wait")], [pool_env(2, 3, "wait"), pool_env(3, 2, "wait")]),
    "E04": ("Pool", [pool_env(2, 1, "exit")], [pool_env(2, 3, "exit"), pool_env(3, 1, "exit")]),
    "E05": ("Serial", [serial_env(2, 1)], [serial_env(2, 2), serial_env(3, 1)]),
    "E06": ("Serial", [serial_env(2, 1)], [serial_env(2, 2), serial_env(3, 1)]),
    "E07": ("Timer", [timer_env(1, 6)], [timer_env(2, 4), timer_env(2, 5)]),
    "E09": ("Progress", [dict(PROGRESS_OPS="2")], [dict(PROGRESS_OPS="3")]),
    "C01": ("Channel", [ch_env("un", 2), ch_env("fork", 2)], [ch_env("fn", 3, 1, 1), ch_env("un", 3), ch_env("fork", 3)]),
    "C02": ("Channel", [ch_env("fn", 3, 0, 0, 1)], [ch_env("un", 3, 0, 0, 2), ch_env("fork", 3, 0, 0, 2)]),
    "C03": ("Channel", [ch_env("fork", 2, 0, 1)], [ch_env("fork", 3, 0, 1), ch_env("fn", 3, 1, 1)]),
    "C04": ("Channel", [ch_env("ayc", 2, 1)], [ch_env("ayc", 3, 1, 1), ch_env("zipay", 3)]),
    "C05": ("Channel", [ch_env("aye", 2, 1), ch_env("fn", 2, 1)], [ch_env("aye", 3, 1, 1), ch_env("ay", 3, 1, 1), ch_env("zipay", 3, 1)]),
    "C06": ("Channel", [ch_env("rr", 2), ch_env("zip", 2), ch_env("un", 2)], [ch_env("rr", 4), ch_env("zip", 4), ch_env("un", 3)]),
    "C07": ("Channel", [ch_env("fork", 2), ch_env("ay", 2, 0, 0, 2)], [ch_env("fork", 3, 0, 1, 1), ch_env("fn", 4, 0, 0, 2)]),
    "C08": ("Channel", [ch_env("ay", 2, 1)], [ch_env("ay", 3, 1, 1), ch_env("ayc", 3, 1, 1)]),
    "C09": ("Channel", [ch_env("fn", 2, 0, 1)], [ch_env("fn", 3, 1, 1), ch_env("fork", 3, 0, 1)]),
    "C10": ("Channel", [ch_env("fn", 3, 0, 0, 2)], [ch_env("fork", 3, 0, 0, 2)]),
}


def models(c, pid):
    """the specification, exhaustively, for small programs"""
    if pid not in MC:
        return
    spec, quick, deep = MC[pid]
    for e in quick + ([] if c.quick else deep):
        c.model(spec + "MC", env=e, name="model %s %s" % (spec, " ".join(e.values())), timeout=300 if c.quick else 5400,
                mem="4g" if c.quick else "16g")


def check(pid, technique, note):
    def deco(f):
        CHECKS[pid] = f
        META[pid] = (technique, note)
        return f
    return deco


# ------------------------------------------------------------------------------------ futures
FUT_TECH = "TLA+ state machine of futures (spec/Future.tla), TLC trace validation of controlled-schedule executions"
FUT_NOTE = ("Every recorded execution of the real code (random programs over the public API, seeded controlled "
            "schedules) must be a behaviour of Future.tla and satisfy its state invariants; sampled, not exhaustive, "
            "in programs and schedules.")
HEAVY = dict(nthr=(1, 3), copies=(1, 3))
FUT = {
    "F01": dict(ops=dict(rdy=5, try_=5, get=5, cpy=3), kinds=dict(V=8, M=1), **HEAVY),
    "F02": dict(ops=dict(then=10, rec=5, detf=4, det=2, cpy=2), **HEAVY),
    "F03": dict(ops=dict(then=9, rec=4, all=3, any=3), ex=dict(i=3, m=4, p=3, s=2, l=1, h=1), inherit=0.45, form=0.6),
    "F04": dict(err=0.5, ops=dict(then=9, rec=6, awf=1)),
    "F05": dict(ex=dict(d=2), src=dict(pkg=7), promise=dict(dropt=4, mvt=0.6, canc=2, exct=2), ops=dict(then=8, rec=4, get=2)),
    "F06": dict(ops=dict(drop=6, det=2, then=8, cpy=3, detf=1), promise=dict(canc=4), early=0),
    "F07": dict(red=0.6, body_ops=0.2, ops=dict(then=7, rec=4, drop=3), src=dict(async_=6)),
    "F08": dict(range=0.5, ops=dict(all=7, any=0, then=2), nsrc=(2, 4), err=0.25, nops=(3, 7)),
    "F09": dict(range=0.5, ops=dict(any=7, all=0, then=2), nsrc=(2, 4), err=0.4, nops=(3, 7)),
    "F10": dict(ops=dict(await_=6, awf=5, then=3), early=1, ex=dict(p=6), nthr=(1, 2)),
    "F11": dict(ops=dict(get=4, try_=4, cpy=4, then=8, rec=4), rv=0.6, kinds=dict(V=6, M=4), **HEAVY),
    "F12": dict(ops=dict(co=7, then=3, await_=2), nsrc=(2, 3), nthr=(1, 2)),
}


def fut_check(pid):
    def run(c):
        models(c, pid)
        k = 1 if c.quick else 12
        c.traces("mixed", "fut", "FutureTrace", gen_fut.programs(gen_fut.profile(), "mix%d" % SEED, 450 * k), 3 if c.quick else 8)
        c.traces("focus", "fut", "FutureTrace",
                 gen_fut.programs(gen_fut.profile(**FUT[pid]), "%s-%d" % (pid, SEED), 800 * k, base=100000), 4 if c.quick else 10)
        c.traces("races", "fut", "FutureTrace",
                 gen_fut.races(gen_fut.profile(**FUT[pid]), "%s-%d" % (pid, SEED), 900 * k, base=200000), 20 if c.quick else 60)
    CHECKS[pid] = run
    META[pid] = (FUT_TECH, FUT_NOTE)


for _p in FUT:
    fut_check(_p)


# ---------------------------------------------------------------------------------- executors
def exe(pid, module, what, *stages, findings=()):
    """stages: (name, generator, keyword arguments, programs, runs)"""
    def run(c):
        models(c, pid)
        for name, gen, kw, n, runs in stages:
            k = 1 if c.quick else 10
            c.traces(name, "exe", module, gen("%s%d" % (pid, SEED), n * k, **kw), runs if c.quick else runs * 2)
        for key, gen, runs in findings:
            c.finding(key, "exe", module, gen(), runs)
    CHECKS[pid] = run
    META[pid] = ("TLA+ state machine of %s (spec/%s.tla), TLC trace validation of controlled-schedule executions"
                 % (what, module.replace("Trace", "")),
                 "Every recorded execution of the real executors (random programs, seeded controlled schedules, virtual "
                 "time) must be a behaviour of the specification; sampled in programs and schedules.")


exe("E01", "PoolTrace", "the priority pool",
    ("any", gen_exe.pool, dict(ordered=False), 1500, 8), ("fork", gen_exe.fork, {}, 600, 4),
    ("ordered", gen_exe.pool, dict(ordered=True), 300, 5))
exe("E02", "PoolTrace", "the priority pool", ("ordered", gen_exe.pool, dict(ordered=True), 1200, 6),
    ("warm", gen_exe.warm, dict(base=100000), 300, 3))
exe("E03", "PoolTrace", "the priority pool", ("fork", gen_exe.fork, {}, 3000, 6), ("full", gen_exe.full, dict(base=100000), 300, 4),
    findings=[("late-submission", gen_kf.late, 60), ("lost-wake-at-limit", gen_kf.limit, 100)])
exe("E04", "PoolTrace", "the priority pool and pre_exit", ("preexit", gen_exe.preexit, {}, 3000, 6),
    findings=[("submit-while-joining", gen_kf.joining, 40)])
exe("E05", "SerialTrace", "serial queues", ("serial", gen_exe.serial, {}, 3000, 6),
    ("burst", gen_exe.burst, dict(base=100000), 150, 4))
exe("E06", "SerialTrace", "serial queues", ("serial", gen_exe.serial, {}, 3000, 6))
exe("E07", "TimerTrace", "timers", ("timer", gen_exe.timer, {}, 4000, 6))

# ----------------------------------------------------------------------------------- channels
CH_TECH = "TLA+ state machine of process networks (spec/Channel.tla), TLC trace validation of controlled-schedule executions"
CH_NOTE = ("Every recorded execution of the real code (random networks of processes, random use of their ends, seeded "
           "controlled schedules, virtual time) must be a behaviour of Channel.tla; sampled in programs and schedules.")
CH = {
    "C01": dict(vals=(3, 10), thr=(1, 2), multi=0.6, gen=0.15),
    "C02": dict(vals=(3, 8), thr=(1, 2), bs=0.5, x=dict(i=1, m=2, p=6, s=1), kinds=dict(zip=2, rr=2, un=3, zipay=2)),
    "C03": dict(heads=(1, 1), nodes=(3, 6), kinds=dict(fn=4, sink=6), drop=0.3, bs=0.3, hold=0.2),
    "C04": dict(close=1, kinds=dict(ay=2, ayc=5, aye=3, zipay=3), cl=0.7, hold=0.2, asg=0.4),
    "C05": dict(err=0.35, serr=0.15, to=0.25, kinds=dict(ay=3, ayc=3, aye=4, zipay=2)),
    "C06": dict(heads=(2, 3), nodes=(2, 4), kinds=dict(zip=6, rr=6, un=6, zipay=4, fn=2, sink=1), serr=0.03),
    "C07": dict(bs=0.7, gen=0.3, fb=0.4, hold=0.2, drop=0.1),
    "C08": dict(to=0.7, dl=0.3, gen=0.2, kinds=dict(ay=6, ayc=5, aye=3, zipay=2, fn=1)),
    "C09": dict(misuse=0.6, fb=0.3, asg=0.6, drop=0.4, hold=0.3, mo=0.25),
    "C10": dict(ann=1.0, fb=0.3, nodes=(2, 4), x=dict(i=1, m=2, p=4, s=2)),
}


def ch_check(pid):
    def run(c):
        models(c, pid)
        k = 1 if c.quick else 12
        c.traces("mixed", "ch", "ChannelTrace", gen_ch.channel("mix%d" % SEED, 300 * k, bs=0.2, err=0.05, serr=0.03, to=0.1, dl=0.1),
                 4 if c.quick else 8)
        c.traces("focus", "ch", "ChannelTrace", gen_ch.channel("%s-%d" % (pid, SEED), 500 * k, base=100000, **CH[pid]),
                 4 if c.quick else 10)
        if pid == "C08":
            c.finding("timeout-after-throw", "ch", "ChannelTrace",
                      gen_ch.channel("kf", 60, kf=1, to=1.0, err=0.8, kinds=dict(ay=9, ayc=9)), 4)
    CHECKS[pid] = run
    META[pid] = (CH_TECH, CH_NOTE)


for _p in CH:
    ch_check(_p)

# ------------------------------------------------------------------------------------- forests
FO_NOTE = ("TLC enumerates every pair of forests up to the bound, up to the names of nodes, with everything that can be done "
           "there; each of these transitions is replayed on the real class and compared.")


def forest(pid, mode, quick, deep, filt):
    def run(c):
        e = dict(FOREST_EMIT=mode, FOREST_FILTER=str(filt if c.quick else filt + 1))
        c.enumerate("forests", "forest", mode, "ForestMC", dict(e, FOREST_N=str(quick if c.quick else deep)),
                    timeout=800 if c.quick else 7200, mem="4g" if c.quick else "16g")
    CHECKS[pid] = run
    META[pid] = ("TLA+ state machine of forests (spec/Forest.tla), every transition TLC finds is replayed on the real class", FO_NOTE)


forest("D01", "edit", 5, 6, 0)
forest("D02", "walk", 5, 6, 4)
forest("D03", "algo", 5, 6, 0)


def task(c):
    for n, e in ([("two", (2, 2, 1)), ("three", (3, 1, 0))] if c.quick else [("two", (2, 5, 1)), ("three", (3, 3, 0))]):
        c.enumerate(n, "task", "all", "TaskMC", dict(TASK_SLOTS=str(e[0]), TASK_COUNT=str(e[1]), TASK_KINDS=str(e[2])),
                    timeout=800 if c.quick else 7200, mem="4g" if c.quick else "16g")


CHECKS["E08"] = task
META["E08"] = ("TLA+ state machine of slots holding callables (spec/Task.tla), every transition TLC finds is replayed on the real class",
               "Exhaustive for two slots and ten kinds of callables, three slots and four kinds; five signatures.")


def reverse(c):
    c.enumerate("reverse", "rev", "all", "ReverseMC", dict(REV_LEN="10" if c.quick else "14", REV_NODES="4" if c.quick else "5"),
                timeout=800 if c.quick else 7200, mem="4g" if c.quick else "16g")


CHECKS["D04"] = reverse
META["D04"] = ("TLA+ state machine of sequences and of links (spec/Reverse.tla), every transition TLC finds is replayed on the real functions",
               "Exhaustive for sequences up to the bound and for every set of lists over four (five) nodes.")


def progress(c):
    models(c, "E09")
    c.traces("progress", "prog", "ProgressTrace", gen_prog.progress("E09-%d" % SEED, 1500 if c.quick else 20000), 8 if c.quick else 20)


CHECKS["E09"] = progress
META["E09"] = ("TLA+ state machine of a progress tracker (spec/Progress.tla), TLC trace validation of controlled-schedule executions",
               "Every recorded execution of the real code (random programs, seeded controlled schedules) must be a behaviour of "
               "Progress.tla; sampled in programs and schedules.")
