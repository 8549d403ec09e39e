"""Programs for harness/ch_main.cpp: networks of processes and what their ends do."""
import random

# what a generated network contains; weights and probabilities
BASE = dict(heads=(1, 2), nodes=(2, 5), kinds=dict(fn=4, sink=4, ay=2, ayc=2, aye=1, fp=1, zip=1, rr=1, un=1, zipay=1),
            thr=(0, 2), vals=(2, 7), x=dict(i=1, m=2, p=4, s=1), ann=0.4, err=0.0, serr=0.0, close=0.6, hold=0.1, early=0.4,
            late=0.1, mo=0.12, to=0.0, dl=0.0, gen=0.08, drop=0.05, misuse=0.05, fb=0.05, cl=0.4, multi=0.3, fwd=0.05,
            bs=0.0, y=0.4, asg=0.15, kf=0, ref=0.1)


def prof(**kw):
    p = dict(BASE)
    for k, v in kw.items():
        p[k] = {**BASE["kinds"], **v} if k == "kinds" else v
    return p


def pick(r, d):
    return r.choices(list(d), list(d.values()))[0]


def network(r, p):
    nodes, mo = [], r.random() < p["mo"]
    exid = [0]
    sizes = r.random() < p["bs"]      # other buffer sizes

    def ex(n):
        exid[0] += 1
        n["ex"] = exid[0]
        n["x"] = pick(r, p["x"])
    nh = r.randint(*p["heads"])
    for _ in range(nh):
        n = dict(n=len(nodes) + 1, k="head")
        ex(n)
        if mo:
            n["mo"] = 1
        nodes.append(n)
    if r.random() < p["gen"] and not mo:
        n = dict(n=len(nodes) + 1, k="gen", c=r.randint(0, 5))
        ex(n)
        if r.random() < p["dl"]:
            n["dl"] = r.choice([250, 1000, 5000])
        nodes.append(n)
    kids = {n["n"]: 0 for n in nodes}
    for _ in range(r.randint(*p["nodes"])):
        srcs = [n["n"] for n in nodes if not (n["k"] == "sink" or n.get("v"))]
        if mo:
            srcs = [s for s in srcs if not kids[s]]
        if not srcs:
            break
        fresh = [s for s in srcs if not kids[s]]
        k = pick(r, p["kinds"])
        if mo and k in ("fp", "zip", "rr", "un", "zipay"):
            k = "fn"
        n = dict(n=len(nodes) + 1, k=k)
        if k in ("zip", "rr", "un", "zipay"):
            m = 2 if k == "zipay" else r.choice([2, 2, 3])
            if len(srcs) < 2:
                k = n["k"] = "fn"
            else:
                pool = list(fresh)
                r.shuffle(pool)
                ins = pool[:m]
                while len(ins) < m:
                    ins.append(r.choice(srcs))
                n["in"] = ins
                n["fm"] = r.randint(0, 1)
                ex(n)
                if k != "zipay" and r.random() < 0.3:
                    n["v"] = 1
        if "in" not in n:
            s = r.choice(fresh) if fresh and r.random() < 0.6 else r.choice(srcs)
            n["in"] = [s]
            if r.random() < p["ann"]:
                ex(n)
            if r.random() < p["ann"] / 2 or (sizes and r.random() < 0.7):
                n["bs"] = r.choice([0, 2, 3, 1]) if sizes else 1
            n["fm"] = r.randint(0, 7)
            if k != "fp" and r.random() < p["ref"]:
                n["ref"] = 1
        if k in ("ay", "ayc", "aye", "zipay"):
            n["b"] = r.choice([1, 1, 2, 3])
            n["o"] = r.choice([1, 1, 1, 2, 3, 0])
            if k != "ay" and r.random() < p["cl"]:
                n["cl"] = r.choice([1, 1, 2, 3])
            if k == "aye" and r.random() < 0.3:
                n["eo"] = 1
            if r.random() < p["to"]:
                n["to"] = r.choice([300, 2000, 10000])
                n["b"] = r.choice([2, 3])
            if r.random() < p["dl"]:
                n["dl"] = r.choice([250, 1000, 5000])
            if r.random() < p["err"]:
                n["thy"] = [r.randint(1, 3)]
        if r.random() < p["err"] and (p["kf"] or not n.get("to")):     # recorded finding: time-out after a throw
            n["th"] = sorted({r.randint(1, 4) for _ in range(r.randint(1, 2))})
        if r.random() < p["y"]:
            n["y"] = r.randint(1, 3)
        for s in set(n["in"]):
            kids[s] += 1
        kids[n["n"]] = 0
        nodes.append(n)
    return nodes, kids, mo


def program(r, p):
    nodes, kids, mo = network(r, p)
    cores = r.choice([2, 3, 3, 4])
    heads = [n["n"] for n in nodes if n["k"] == "head"]
    byn = {n["n"]: n for n in nodes}
    main, nthr = [], r.randint(*p["thr"])
    lists = [[] for _ in range(nthr + 1)]
    for n in nodes:
        main.append({"op": "mk", "n": n["n"]})
    val = [0]
    # sender slots: slot h is the head's own; copies go to the threads
    slots = {h: [(h, 0)] for h in heads}
    nxt = [len(nodes) + 1]
    for h in heads:
        if not mo:
            for t in range(nthr + 1):
                if (t > 0 and r.random() < 0.8) or (t == 0 and r.random() < p["multi"]):
                    main.append({"op": "cps", "s": h, "d": nxt[0]})
                    slots[h].append((nxt[0], t))
                    nxt[0] += 1

    def snd(s, l):
        val[0] += 1
        l.append({"op": "snd", "s": s, "v": -val[0] if r.random() < p["serr"] else val[0]})
        if r.random() < p["fb"]:
            l.append({"op": "fb", "s": s})
        if r.random() < 0.15:
            l.append({"op": "y", "k": r.randint(1, 5)})
        if p["to"] and r.random() < 0.4:
            l.append({"op": "sleep", "us": r.choice([500, 1500, 3000, 11000])})
    # a process that sends into a head
    if r.random() < p["fwd"] and len(heads) > 1:
        cand = [n for n in nodes if n["k"] in ("fn", "sink") and heads[-1] not in ancestors(byn, n["n"]) and not mo]
        if cand:
            n = r.choice(cand)
            main.append({"op": "cps", "s": heads[-1], "d": nxt[0]})
            n["fwd"] = nxt[0]
            nxt[0] += 1
    pre = []
    if r.random() < p["early"]:
        for h in heads:
            for _ in range(r.randint(0, 3)):
                snd(h, pre)
    # receivers
    rec = []
    held = []
    for n in nodes:
        if n["k"] == "sink" or n.get("v"):
            continue
        i = n["n"]
        if not kids[i] and r.random() < p["hold"]:
            held.append(i)
            continue
        if r.random() < 0.15 and n["k"] != "gen":
            d = nxt[0]
            nxt[0] += 1
            main.append({"op": "cpr", "r": i, "d": d})
            rec.append({"op": r.choice(["rdy", "dpr"]), "r": d})
        rec.append({"op": "dpr" if kids[i] and r.random() < 0.4 else "rdy", "r": i})
    if r.random() < 0.5:
        r.shuffle(rec)
    body = [[] for _ in lists]
    for h in heads:
        for s, t in slots[h]:
            for _ in range(r.randint(*p["vals"]) if t == 0 or r.random() < 0.8 else 0):
                snd(s, body[t])
    for b in body:
        if r.random() < 0.5:
            r.shuffle_ = None
            k = [x for x in b]
            r.shuffle(k)
            # keep the order of values irrelevant: they are unique anyway
            b[:] = k
    closes = [[] for _ in lists]
    wait = False         # a thread must be done with its sender before it is closed here
    for h in heads:
        if r.random() < p["close"]:
            for s, t in slots[h]:
                c = [{"op": r.choice(["cls", "dps"]), "s": s}]
                if r.random() < p["misuse"]:
                    c.append({"op": "snd", "s": s, "v": 900 + s})
                    c.append({"op": "fb", "s": s})
                if r.random() < 0.7:
                    body[t].extend(c)
                else:
                    closes[0].extend(c)
                    wait = wait or t > 0
    extra = []
    if r.random() < p["misuse"]:
        for o in rec:
            extra.append({"op": "att", "r": o["r"]})
    if r.random() < p["drop"]:
        sinks = [n["n"] for n in nodes if n["k"] == "sink" or n.get("v")] + held
        if sinks:
            body[r.randrange(len(body))].insert(0, {"op": "dpr", "r": r.choice(sinks)})
    order = r.random()
    if order < 0.35:
        main += pre + rec + [{"op": "spawn"}] + body[0]
    elif order < 0.7:
        main += pre + [{"op": "spawn"}] + rec + body[0]
    else:
        a = rec + body[0] if r.random() < 0.3 else interleave(r, rec, body[0])
        main += pre + [{"op": "spawn"}] + a
    main += extra
    if wait or r.random() < 0.5:
        main.append({"op": "q"})
    main += closes[0] + [{"op": "q"}]
    if r.random() < 2 * p["fb"]:
        main += [{"op": "fb", "s": h, "q": 1} for h in heads]
    for i in held:
        if r.random() < 0.7:
            main += [{"op": r.choice(["rdy", "rdy", "dpr"]), "r": i}, {"op": "q"}]
    if r.random() < 0.4:
        sl = [n["n"] for n in nodes]
        r.shuffle(sl)
        for i in sl:
            if r.random() < 0.8:
                main.append({"op": "dpr", "r": i})
                if r.random() < 0.2:
                    main.append({"op": "q"})
        for h in heads:
            if r.random() < 0.4:
                main.append({"op": "snd", "s": h, "v": 800 + h})
        main.append({"op": "q"})
    main.append({"op": "stop"})
    if r.random() < p["asg"]:
        for _ in range(r.randint(1, 3)):
            assign(r, main, body[1:], byn, heads, mo, nxt)
    return dict(cores=cores, nodes=nodes, main=main, thr=body[1:], pump=r.choice([1, 2]))


def rename(ops, key, a, b):
    for o in ops:
        if o.get(key) == a and o["op"] not in ("mk",):
            o[key] = b


def assign(r, main, thr, byn, heads, mo, nxt):
    """adds moves and copies of senders and receivers, onto others too"""
    if nxt[0] > 26:
        return
    first = max(i for i, o in enumerate(main) if o["op"] == "mk") + 1
    last = next(i for i, o in enumerate(main) if o["op"] == "q")
    if last < first:
        return
    at = r.randint(first, last)
    d, nxt[0] = nxt[0], nxt[0] + 1
    used = {o[k] for l in thr for o in l for k in ("s", "r") if k in o} | {n["fwd"] for n in byn.values() if n.get("fwd")}
    ins = []
    if r.random() < 0.5:
        if mo:
            return
        src = r.choice(heads)
        for o in main[:at]:      # an earlier move
            if o["op"] == "mvs" and o["s"] == src:
                src = o["d"]
        if src in used:
            return
        if r.random() < 0.6:     # over another one
            ins.append({"op": "cps", "s": r.choice(heads), "d": d})
        if r.random() < 0.6:
            rest = main[at:]
            rename(rest, "s", src, d)
            main[at:] = ins + [{"op": "mvs", "s": src, "d": d}] + rest
        else:
            main[at:at] = ins + [{"op": "cps", "s": src, "d": d}] + ([{"op": "dps", "s": d}] if r.random() < 0.7 else [])
        return
    nodes = [n["n"] for n in byn.values() if n["k"] not in ("sink", "gen") and not n.get("v") and n["n"] not in used]
    if not nodes:
        return
    src = o = r.choice(nodes)
    for x in main[:at]:
        if x["op"] == "mvr" and x["r"] == src:
            src = x["d"]
    if src in used:
        return
    if r.random() < 0.5:
        ins.append({"op": "cpr", "r": r.choice(nodes), "d": d})
    if r.random() < 0.5:
        rest = main[at:]
        rename(rest, "r", src, d)
        main[at:] = ins + [{"op": "mvr", "r": src, "d": d}] + rest
    else:
        main[at:at] = ins + [{"op": "cpr", "r": src, "d": d}, {"op": r.choice(["rdy", "dpr"]), "r": d}]


def load(g):
    """an estimate of how many invocations the values sent cause"""
    flow, total = {}, 0
    sends = sum(o["op"] == "snd" for l in [g["main"]] + g["thr"] for o in l)
    for n in g["nodes"]:
        k, f = n["k"], [flow[i] for i in n.get("in", [])]
        i = sends if k == "head" else n.get("c", 0) if k == "gen" else sum(f) if k == "un" else min(f) * len(f) if k == "rr" else min(f)
        flow[n["n"]] = i if "b" not in n else i * n["o"] // n["b"] + n.get("cl", 0)
        total += i + (flow[n["n"]] if "b" in n else 0)
    return total


def ancestors(byn, i):
    out, todo = set(), [i]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += byn[x].get("in", [])
    return out


def interleave(r, a, b):
    a, b, o = list(a), list(b), []
    while a or b:
        o.append((a if a and (not b or r.random() < 0.5) else b).pop(0))
    return o


def channel(seed, count, base=0, **kw):
    p = prof(**kw)
    out = []
    for i in range(count):
        r = random.Random("%s/ch/%d" % (seed, i))
        g = program(r, p)
        while load(g) > 400:
            g = program(r, p)
        g["id"] = base + i + 1
        out.append(g)
    return out
