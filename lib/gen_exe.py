"""Programs for harness/exe_main.cpp."""
import random


def rng_for(seed, tag, i):
    return random.Random("%s/%s/%d" % (seed, tag, i))


def pool(seed, count, base=0, ordered=None):
    """submissions from several threads and from tasks; quiescence in between (E01, E02)"""
    out = []
    for i in range(count):
        r = rng_for(seed, "pool", i)
        o = r.random() < 0.6 if ordered is None else ordered
        if o:
            cores, ntask = r.choice([(1, 8), (2, 8), (2, 8), (3, 5)])
        else:
            cores, ntask = r.choice([1, 2, 3, 4, 5]), r.randint(4, 16)
        ids = list(range(1, ntask + 1))
        r.shuffle(ids)
        tasks = {}
        nthr = r.randint(0, 3)
        lists = [[] for _ in range(nthr + 1)]
        phases = [[] for _ in range(2)]
        prios = r.choice([["p"], ["l", "p", "h"], ["l", "h"], ["p", "h"]])
        free = list(ids)
        roots = []
        while free:
            k = free.pop()
            b = [{"op": "y", "k": r.randint(1, 4)}] if r.random() < 0.5 else []
            where = r.random()
            s = {"op": "sub", "k": k, "x": r.choice(prios)}
            if where < 0.3 and tasks:       # submitted by an earlier task
                p = r.choice(sorted(tasks))
                tasks[p].append(s)
            else:
                roots.append(s)
            tasks[k] = b
        main = []
        for s in roots:
            w = r.randint(0, nthr)
            lists[w].append(s)
            if r.random() < 0.3:
                lists[w].append({"op": "y", "k": r.randint(1, 3)})
        # the first worker may be held up so that a queue builds up
        if r.random() < 0.5 and o:
            ntask += 1
            tasks[ntask] = [{"op": "y", "k": r.randint(5, 40)}]
            main.append({"op": "sub", "k": ntask, "x": "p"})
        main.append({"op": "spawn"})
        h = r.randint(0, len(lists[0]))
        main += lists[0][:h]
        if r.random() < 0.4:
            main.append({"op": "q"})
        main += lists[0][h:] + [{"op": "q"}, {"op": "stop"}]
        out.append({"id": base + i + 1, "cores": cores, "ord": int(o), "main": main, "thr": lists[1:],
                    "tasks": {str(k): v for k, v in tasks.items() if v}})
    return out


def warm(seed, count, base=0):
    """the same after some hundred tasks have gone through the queues"""
    out = pool(seed + "w", count, base, ordered=True)
    for i, g in enumerate(out):
        r = rng_for(seed, "warm", i)
        g["cores"] = r.choice([1, 2])
        g["main"].insert(0, {"op": "warm", "k": 256 * r.choice([1, 1, 1, 2]) - r.randint(0, 7)})
    return out


def full(seed, count, base=0):
    """chains of tasks: each submits the next, then waits for what the last one does; as many wait as may, or a few less.
    (All of them at once would show the recorded finding lost-wake-at-limit.)"""
    out = []
    for i in range(count):
        r = rng_for(seed, "full", i)
        cores = r.choice([1, 2, 2, 3, 3, 4, 4])
        main, tasks, k = [], {}, 1
        for f in range(r.randint(1, 3)):
            b = max(9, 4 * cores + 1) - r.choice([1, 1, 1, 2, 3])
            first = k
            main.append({"op": "as", "k": k, "x": r.choice("plh")})
            for k in range(first, first + b):
                tasks[str(k)] = [{"op": "as", "k": k + 1, "x": r.choice("plh")}, {"op": "warm", "k": 0}, {"op": "iw", "v": f}]
            k += 1
            tasks[str(k)] = [{"op": "set", "v": f}]
            k += 1
            main += [{"op": "aw", "k": j} for j in range(first, k)] + [{"op": "q"}]
        out.append({"id": base + i + 1, "cores": cores, "main": main, "thr": [], "tasks": tasks})
    return out


def fork(seed, count, base=0):
    """fork and join inside the pool (E03): a task submits work, then waits for it"""
    out = []
    for i in range(count):
        r = rng_for(seed, "fork", i)
        cores = r.choice([1, 2, 2, 3, 4])
        tasks, n = {}, [0]
        flags = [0]
        # bound on tasks blocked at once: below the thread limit max(9, 4c+1) less the workers
        budget = [r.randint(1, 6)]

        def make(depth):
            n[0] += 1
            k = n[0]
            b = []
            if r.random() < 0.3:
                b.append({"op": "y", "k": r.randint(1, 3)})
            if depth and budget[0] > 0 and r.random() < 0.8:
                budget[0] -= 1
                kids = [make(depth - 1) for _ in range(r.randint(1, 3))]
                for c in kids:
                    b.append({"op": "as", "k": c, "x": r.choice("plh")})
                r.shuffle(kids)
                if r.random() < 0.25:
                    # a flag set by the last kid, waited for with invoke_waiting
                    v = flags[0]
                    flags[0] += 1
                    if v < 16:
                        tasks[kids[-1]].append({"op": "set", "v": v})
                        b.append({"op": "iw", "v": v})
                for c in kids:
                    b.append({"op": "aw", "k": c} if r.random() < 0.85 else {"op": "awf", "k": c, "us": 50})
            tasks[k] = b
            return k
        roots = [make(r.randint(1, 3)) for _ in range(r.randint(1, 3))]
        main = [{"op": "as", "k": k, "x": "p"} for k in roots]
        main += [{"op": "aw", "k": k} for k in roots]
        main += [{"op": "q"}]
        out.append({"id": base + i + 1, "cores": cores, "main": main, "thr": [],
                    "tasks": {str(k): v for k, v in tasks.items() if v}})
    return out


def preexit(seed, count, base=0):
    out = []
    for i in range(count):
        r = rng_for(seed, "pre", i)
        cores = r.choice([1, 2, 3, 4])
        tasks = {}
        hs = list(range(12))
        r.shuffle(hs)
        nt = [0]

        def task(depth=1):
            nt[0] += 1
            k = nt[0]
            b = []
            if r.random() < 0.5:
                b.append({"op": "y", "k": r.randint(1, 6)})
            if hs and r.random() < 0.15:
                b.append({"op": "at", "h": handler(0)})
            tasks[k] = b
            return k

        def handler(depth=1):
            h = hs.pop()
            b = []
            if r.random() < 0.3:
                b.append({"op": "y", "k": 2})
            if depth and hs and r.random() < 0.35:
                for _ in range(r.randint(1, 2)):
                    if hs:
                        b.append({"op": "at", "h": handler(depth - 1)})
            tasks[900 + h] = b
            return h
        nthr = r.randint(0, 2)
        lists = [[] for _ in range(nthr + 1)]
        for _ in range(r.randint(1, 5)):
            if hs:
                r.choice(lists).append({"op": "at", "h": handler()})
        for _ in range(r.randint(0, 6)):
            r.choice(lists).append({"op": "sub", "k": task(), "x": r.choice("plh")})
        for l in lists:
            r.shuffle(l)
        main = [{"op": "spawn"}] + lists[0] + [{"op": "join"}]
        if r.random() < 0.3:
            main.append({"op": "q"})
        main.append({"op": "preexit"})
        out.append({"id": base + i + 1, "cores": cores, "main": main, "thr": lists[1:],
                    "tasks": {str(k): v for k, v in tasks.items() if v}})
    return out


def serial(seed, count, base=0):
    out = []
    for i in range(count):
        r = rng_for(seed, "serial", i)
        cores = r.choice([1, 2, 3, 4])
        nq = r.randint(1, 3)
        qs = []
        for q in range(nq):
            x = r.choice(["i", "m", "p", "p", "l", "h", "m"])
            if q and r.random() < 0.25:
                x = qs[0]["x"]                     # share an executor
            qs.append({"x": x, "mode": r.randint(0, 1)})
        nthr = r.randint(0, 3)
        lists = [[] for _ in range(nthr + 1)]
        tasks = {}
        n = r.randint(2, 12)
        dropq = [r.random() < 0.3 for _ in range(nq)]
        solo = [not dropq[q] and r.random() < 0.25 for q in range(nq)]    # only main submits, then lets go of all it has
        for k in range(1, n + 1):
            q = r.randrange(nq)
            form = r.choice("ss" if dropq[q] else "sqf")
            s = {"op": "sub", "k": k, "x": "%s%d" % (form, q)}
            tasks[k] = [{"op": "y", "k": r.randint(1, 4)}] if r.random() < 0.6 else []
            if k > 1 and not solo[q] and r.random() < 0.25:
                tasks[r.randint(1, k - 1)].append(s)
            else:
                l = lists[0] if solo[q] else r.choice(lists)
                l.append(s)
                if r.random() < 0.2:
                    l.append({"op": "y", "k": 2})
        for q in range(nq):
            if solo[q]:
                at = max([i + 1 for i, s in enumerate(lists[0]) if s["op"] == "sub" and s["x"][1] == str(q)] + [0])
                lists[0][at:at] = [{"op": "qdrop", "q": q}, {"op": "edrop", "q": q}]
        main = [{"op": "spawn"}]
        for q in range(nq):
            if dropq[q]:
                lists[0].insert(r.randint(0, len(lists[0])), {"op": "qdrop", "q": q})
        h = r.randint(0, len(lists[0]))
        main += lists[0][:h] + ([{"op": "q"}] if r.random() < 0.3 else []) + lists[0][h:]
        main += [{"op": "q"}, {"op": "stop"}]
        out.append({"id": base + i + 1, "cores": cores, "pump": r.choice([1, 1, 2, 3]), "main": main, "thr": lists[1:],
                    "queues": qs, "tasks": {str(k): v for k, v in tasks.items() if v}})
    return out


def burst(seed, count, base=0):
    """much is submitted to one queue while it works"""
    out = []
    for i in range(count):
        r = rng_for(seed, "burst", i)
        qs = [{"x": r.choice("ppplh"), "mode": r.randint(0, 1)}]
        n, nthr = r.randint(40, 80), 0     # one after the other: their order is known
        lists = [[] for _ in range(nthr + 1)]
        tasks = {}
        for k in range(1, n + 1):
            r.choice(lists).append({"op": "sub", "k": k, "x": "s0"})
            if r.random() < 0.1:
                tasks[str(k)] = [{"op": "y", "k": r.randint(1, 30)}]
        main = [{"op": "spawn"}] + lists[0] + [{"op": "q"}, {"op": "stop"}]
        out.append({"id": base + i + 1, "cores": r.choice([2, 3]), "pump": 1, "main": main, "thr": lists[1:], "queues": qs,
                    "tasks": tasks})
    return out


def timer(seed, count, base=0):
    out = []
    for i in range(count):
        r = rng_for(seed, "timer", i)
        cores = r.choice([1, 2, 3])
        nd = r.randint(0, 3)
        ds = [{"x": r.choice(["i", "m", "p", "p", "l", "h"]), "us": r.choice([0, 0, 2000, 10000, 50000, 300, 1700, 10900, 1000000]),
               "form": r.randint(0, 1)} for _ in range(nd)]
        nthr = r.randint(0, 2)
        lists = [[] for _ in range(nthr + 1)]
        tasks = {}
        n = r.randint(1, 8)
        for k in range(1, n + 1):
            x = r.choice(["t", "t"] + ["d%d" % j for j in range(nd)] * 2)
            s = {"op": "sub", "k": k, "x": x}
            if x == "t":
                s["us"] = r.choice([0, 1000, 5000, 20000, 20000, 100000, r.randint(1, 100000), 3000000])
            tasks[k] = [{"op": "y", "k": r.randint(1, 4)}] if r.random() < 0.4 else []
            if k > 1 and r.random() < 0.25:
                tasks[r.randint(1, k - 1)].append(s)
            else:
                l = r.choice(lists)
                if r.random() < 0.3:
                    l.append({"op": "sleep", "us": r.choice([500, 3000, 15000, 60000])})
                l.append(s)
        main = [{"op": "spawn"}] + lists[0] + [{"op": "q"}, {"op": "stop"}]
        out.append({"id": base + i + 1, "cores": cores, "pump": r.choice([1, 2]), "main": main, "thr": lists[1:],
                    "delayed": ds, "tasks": {str(k): v for k, v in tasks.items() if v}})
    return out
