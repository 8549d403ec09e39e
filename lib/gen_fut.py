"""Random future programs for harness/fut_main.cpp, shaped by a profile of weights."""
import random

ALL_SETS = ["V", "0", "VV", "VV", "V0", "0V", "00", "MV", "VVV", "V0V", "0VM"]
ANY_SETS = ["V", "VV", "VV", "VVV", "M", "MM", "0", "00", "000"]

BASE = dict(
    # sources
    src=dict(async_=4, pkg=3, ready=1, exf=1),
    kinds=dict(V=6, M=2, **{"0": 2}),
    ex=dict(i=3, m=4, p=3, s=1, l=0, h=0, d=0),
    inherit=0.3,
    err=0.2,           # a body throws
    red=0.1,           # a body returns a future
    body_ops=0.15,     # a body performs operations itself
    yields=0.4,
    nsrc=(1, 2), nthr=(0, 2), nops=(2, 6), copies=(0, 2),
    ops=dict(then=6, rec=2, cpy=1, mv=0.5, drop=1.5, det=0.5, detf=0.5, rdy=1, try_=1, get=1,
             await_=1, awf=0, all=1, any=1, co=0, async_=1),
    promise=dict(inv=6, exct=1, dropt=1, canc=1, mvt=0.3),
    cores=[1, 2, 3], early=0, hold=0.5, rv=0.4, form=0.3, range=0.4,
)


def profile(**kw):
    p = {k: (dict(v) if isinstance(v, dict) else v) for k, v in BASE.items()}
    for k, v in kw.items():
        if isinstance(v, dict) and isinstance(p.get(k), dict):
            p[k].update(v)
        else:
            p[k] = v
    return p


class Slot:
    def __init__(self, k, awaitable, label):
        self.k, self.aw, self.label = k, awaitable, label  # label: may continuations inherit?


class Gen:
    def __init__(self, rng, prof, pid):
        self.r, self.p, self.id = rng, prof, pid
        self.nodes = {}
        self.n = 0
        self.nslot = 0
        self.nops_total = 0
        self.uses_manual = False

    def wc(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def new_slot(self):
        self.nslot += 1
        assert self.nslot < 64
        return self.nslot

    def new_node(self, k, red_ok=None, depth=0, owner=None):
        """red_ok: list of (slot) candidates to be returned as inner futures"""
        self.n += 1
        n = self.n
        nd = {"k": k, "o": "e" if self.r.random() < self.p["err"] else "v"}
        if self.r.random() < self.p["yields"]:
            nd["y"] = self.r.randint(1, 3)
        if self.r.random() < 0.5:
            nd["rv"] = 1
        self.nodes[str(n)] = nd
        return n

    def exec_(self, inherit_ok):
        if inherit_ok and self.r.random() < self.p["inherit"]:
            return ""
        x = self.wc(self.p["ex"])
        return x

    # ---- a context is a thread (or body) with the slots and promises it owns -------------------
    def source(self, out, ctx, k=None):
        """appends creation ops to out; the handle goes to ctx; returns slot number"""
        p = self.p
        kind = self.wc(p["src"])
        k = k or self.wc(p["kinds"])
        s = self.new_slot()
        if kind == "pkg":
            n = self.new_node(k)
            ps = self.new_slot()
            out.append({"op": "pkg", "n": n, "d": s, "p": ps, "x": self.exec_(False)})
            self.promises.append((ps, s, n))
            ctx["slots"][s] = Slot(k, False, True)
        elif kind == "async_":
            rk = k
            inner, aw = None, True
            if self.r.random() < p["red"]:
                inner = self.inner(out, k)
                aw = self.inner_aw
                rk = k.lower() if k != "0" else "o"
            n = self.new_node(rk)
            if inner:
                self.nodes[str(n)]["fs"] = inner
            self.maybe_body(n, ctx, out)
            op = {"op": "async", "n": n, "d": s, "x": self.exec_(False)}
            if rk in "VM0" and self.r.random() < 0.3:
                op["arg"] = 100 + n
            out.append(op)
            ctx["slots"][s] = Slot(k, aw, True)
        else:
            n = self.new_node(k)
            op = {"op": "ready" if kind == "ready" else "exf", "n": n, "d": s, "x": self.exec_(False)}
            out.append(op)
            ctx["slots"][s] = Slot(k, True, True)
        return s

    def inner(self, out, k):
        """a future made beforehand, to be returned by a body; its slot"""
        c = {"slots": {}}
        red = self.p["red"]
        self.p["red"] = 0
        s = self.source(out, c, k)
        self.p["red"] = red
        self.inner_aw = c["slots"][s].aw
        return s

    def maybe_body(self, n, ctx, out):
        """operations of a body: on handles made for it alone"""
        if self.depth or self.r.random() >= self.p["body_ops"]:
            return
        self.depth += 1
        c = {"slots": {}, "promises": []}
        ops = []
        # it may get a copy of a handle of the context (made now, by the context)
        cand = [s for s, x in ctx["slots"].items() if x.k in "V0"]
        if cand and self.r.random() < 0.7:
            h = self.r.choice(cand)
            d = self.new_slot()
            out.append({"op": "cpy", "h": h, "d": d})
            x = ctx["slots"][h]
            c["slots"][d] = Slot(x.k, False, x.label)
        if ctx.get("promises") and self.r.random() < 0.5:
            i = self.r.randrange(len(ctx["promises"]))
            pr = ctx["promises"].pop(i)
            ops.append(self.promise_op(pr))
        for _ in range(self.r.randint(1, 2)):
            sv, self.promises = self.promises, c["promises"]
            self.op(c, ops, in_body=True)
            self.promises = sv
        self.depth -= 1
        if ops:
            self.nodes[str(n)]["b"] = ops

    def promise_op(self, pr):
        w = {k: v for k, v in self.p["promise"].items() if k in ("inv", "exct", "dropt")}
        o = self.wc(w)
        if o == "inv":
            return {"op": "inv", "p": pr[0], "v": 3000 + pr[2]}
        if o == "exct":
            return {"op": "exct", "p": pr[0], "v": 6000 + pr[2]}
        return {"op": "dropt", "p": pr[0]}

    def attach(self, ctx, out, o):
        s = self.r.choice(list(ctx["slots"]))
        x = ctx["slots"][s]
        rv = x.k == "M" or self.r.random() < self.p["rv"]
        k = self.wc(self.p["kinds"])
        rk, aw = k, x.aw
        inner = None
        if self.r.random() < self.p["red"]:
            inner = self.inner(out, k)
            rk = k.lower() if k != "0" else "o"
            aw = aw and self.inner_aw
        n = self.new_node(rk)
        if inner:
            self.nodes[str(n)]["fs"] = inner
        d = s if rv and self.r.random() < 0.3 else self.new_slot()
        ex = self.exec_(x.label)
        self.maybe_body(n, ctx, out)
        if s not in ctx["slots"]:
            return
        op = {"op": o, "n": n, "h": s, "d": d, "x": ex}
        if rv:
            op["rv"] = 1
            del ctx["slots"][s]
        if self.r.random() < self.p["form"]:
            op["f"] = 1 if not ex else self.r.choice([1, 2])
        out.append(op)
        ctx["slots"][d] = Slot(k, aw, True)

    def join(self, ctx, out, o, want=None):
        rng = self.r.random() < self.p["range"]
        slots = list(ctx["slots"])
        self.r.shuffle(slots)
        if rng:
            ks = want or self.r.choice(["V", "V", "M", "0"])
            hs = [s for s in slots if ctx["slots"][s].k == ks][: self.r.randint(0, 3)]
            if not hs and self.r.random() < 0.7:
                return
        else:
            sets = ALL_SETS if o == "all" else ANY_SETS
            self.r.shuffle(sets := list(sets))
            sets.sort(key=lambda z: -len(z) if self.r.random() < 0.7 else 0)
            for ks in sets:
                hs, rest = [], list(slots)
                for k in ks:
                    c = [s for s in rest if ctx["slots"][s].k == k]
                    if not c:
                        break
                    hs.append(c[0])
                    rest.remove(c[0])
                else:
                    break
            else:
                return
        ex = self.exec_(False)
        if ex == "d":
            ex = "i"
        n = self.new_node("V")
        arms = []
        for _ in hs:
            self.n += 1
            arms.append(self.n)
        rv = 1 if "M" in ks or self.r.random() < 0.7 else 0
        d = self.new_slot()
        aw = all(ctx["slots"][h].aw for h in hs)
        op = {"op": o, "n": n, "d": d, "x": ex, "h": hs, "arms": arms, "ks": ks, "rv": rv}
        if rng:
            op["range"] = 1
        out.append(op)
        if rv:
            for h in hs:
                del ctx["slots"][h]
        ctx["slots"][d] = Slot("V", aw, True)

    def op(self, ctx, out, in_body=False, may_await=False):
        w = dict(self.p["ops"])
        if in_body or not may_await:
            w["await_"] = w["awf"] = 0
        if in_body:
            w["co"] = 0
        if not ctx["slots"]:
            w = {"async_": 1}
        o = self.wc(w)
        if self.nslot > 52 or self.n > 40:
            return
        S = ctx["slots"]
        if o == "async_":
            self.source(out, ctx)
            return
        if o in ("then", "rec"):
            return self.attach(ctx, out, o)
        if o in ("all", "any"):
            return self.join(ctx, out, o)
        s = self.r.choice(list(S))
        x = S[s]
        if o == "co":
            hs = self.r.sample(list(S), self.r.randint(1, min(2, len(S))))
            n = self.new_node(self.wc(self.p["kinds"]))
            d = self.new_slot()
            aw = all(S[h].aw for h in hs)
            out.append({"op": "co", "n": n, "d": d, "h": hs, "catch": self.r.randint(0, 1)})
            for h in hs:
                del S[h]
            S[d] = Slot(self.nodes[str(n)]["k"], aw, False)
        elif o == "cpy":
            if x.k == "M":
                return
            d = self.new_slot()
            out.append({"op": "cpy", "h": s, "d": d})
            S[d] = Slot(x.k, x.aw, x.label)
        elif o == "mv":
            d = self.new_slot()
            out.append({"op": "mv", "h": s, "d": d})
            S[d] = x
            del S[s]
        elif o == "drop":
            out.append({"op": "drop", "h": s, "f": self.r.randint(0, 1)})
            del S[s]
        elif o == "det":
            out.append({"op": "det", "h": s})
        elif o == "detf":
            n = self.new_node("0")
            self.nodes[str(n)]["o"] = "v"
            self.maybe_body(n, ctx, out)
            if s in S:
                out.append({"op": "detf", "h": s, "n": n})
                del S[s]
        elif o == "rdy":
            out.append({"op": "rdy", "h": s})
        elif o in ("try_", "get"):
            rv = x.k == "M" or self.r.random() < 0.2
            out.append({"op": o.rstrip("_"), "h": s, "rv": int(rv)})
            if rv:  # consumed if ready: not used any more
                del S[s]
        elif o == "await_":
            if x.aw:
                out.append({"op": "await", "h": s})
                del S[s]
        elif o == "awf":
            if not x.label or True:
                self.n += 1
                out.append({"op": "awf", "h": s, "n": self.n, "us": self.r.choice([0, 5, 50, 500])})
                x.label = False
        if self.r.random() < 0.15:
            out.append({"op": "y", "k": self.r.randint(1, 4)})

    def program(self):
        p, r = self.p, self.r
        self.promises = []
        self.depth = 0
        main = []
        mctx = {"slots": {}, "promises": []}
        nthr = r.randint(*p["nthr"])
        thr = [[] for _ in range(nthr)]
        tctx = [{"slots": {}, "promises": []} for _ in range(nthr)]
        spawn_first = r.random() < 0.3
        for _ in range(r.randint(*p["nsrc"])):
            self.source(main, mctx)
        # operations of main before the threads start
        for _ in range(r.randint(0, 2)):
            self.op(mctx, main)
        # distribute handles and promises
        for c in tctx:
            for _ in range(r.randint(*p["copies"])):
                cand = [s for s, x in mctx["slots"].items() if x.k in "V0"]
                if cand:
                    s = r.choice(cand)
                    d = self.new_slot()
                    main.append({"op": "cpy", "h": s, "d": d})
                    x = mctx["slots"][s]
                    c["slots"][d] = Slot(x.k, x.aw, x.label)
            for s in [s for s, x in mctx["slots"].items()]:
                if r.random() < 0.3:
                    c["slots"][s] = mctx["slots"].pop(s)
        every = tctx + [mctx]
        # who may wait: one context, which then resolves no promise itself before it waits
        waiter = r.choice(every)
        others = [c for c in every if c is not waiter] or []
        for pr in self.promises:
            c = r.choice(others or [waiter])
            c["promises"].append(pr)
        if others:
            # the promises are kept by threads which never wait: what depends on them gets ready
            pass
        self.promises = []
        main.append({"op": "spawn"})
        for c, out in list(zip(tctx, thr)) + [(mctx, main)]:
            k = r.randint(*p["nops"])
            c["promises"] += []
            r.shuffle(c["promises"])
            for _ in range(k):
                if c["promises"] and r.random() < 0.35:
                    self.do_promise(c, out)
                else:
                    self.promises = c["promises"]
                    self.op(c, out, may_await=c is waiter and c is mctx or c is waiter)
            while c["promises"]:
                if r.random() < 0.9:
                    self.do_promise(c, out)
                else:
                    c["promises"].pop()
        main.append({"op": "q"})
        for s, x in list(mctx["slots"].items())[:5]:
            main.append({"op": r.choice(["rdy", "get", "try"]), "h": s})
            if x.k == "M" and main[-1]["op"] != "rdy":
                del mctx["slots"][s]
        if r.random() < 0.5 and mctx["slots"]:
            self.promises = []
            self.op(mctx, main)
            main.append({"op": "q"})
        main.append({"op": "stop"})
        pump = r.choice([1, 1, 2])
        return {"id": self.id, "cores": r.choice(p["cores"]), "pump": pump, "early": p["early"],
                "nodes": self.nodes, "main": main, "thr": thr}

    def race(self):
        """few operations, all of them at the same time, on the same futures"""
        p, r = self.p, self.r
        self.promises = []
        self.depth = 0
        main = []
        mctx = {"slots": {}, "promises": []}
        nthr = r.randint(2, 3)
        thr = [[] for _ in range(nthr)]
        k = r.choice("VVVV0M")
        pure = r.random() < 0.45
        if pure: # whoever resolves a promise runs what hangs on it
            p = self.p = dict(p, ex=dict(i=1), src=dict(pkg=1), promise=dict(inv=6, exct=1), body_ops=0, err=0.1)
        for _ in range(r.choice([1, 2, 2, 3])):
            self.source(main, mctx, k)
        joins = p["ops"]["all"] + p["ops"]["any"] > 4
        if joins and r.random() < 0.8:
            if len(mctx["slots"]) < 2:
                self.source(main, mctx, k)
            self.join(mctx, main, r.choices(["all", "any"], [p["ops"]["all"] + .01, p["ops"]["any"]])[0], k)
        for _ in range(r.randint(0, 1 if joins else 2)):
            self.op(mctx, main)
        prs, self.promises = self.promises, []
        jobs = [("p", pr) for pr in prs]
        for _ in range(r.randint(0 if len(jobs) > 1 else 1, 2)):
            cand = [s for s, x in mctx["slots"].items() if x.k in "V0"]
            if cand and r.random() < 0.7:
                s = r.choice(cand)
                d = self.new_slot()
                main.append({"op": "cpy", "h": s, "d": d})
                x = mctx["slots"][s]
                jobs.append(("s", d, Slot(x.k, x.aw, x.label)))
            elif mctx["slots"]:
                s = r.choice(list(mctx["slots"]))
                jobs.append(("s", s, mctx["slots"].pop(s)))
        main.append({"op": "spawn"})
        r.shuffle(jobs)
        for i, j in enumerate(jobs):
            t = i % (nthr + 1)
            out = main if t == nthr else thr[t]
            if j[0] == "p":
                if r.random() < 0.15 and p["promise"].get("canc"):
                    out.append({"op": "canc", "p": j[1][0]})
                out.append(self.promise_op(j[1]))
            else:
                c = {"slots": {j[1]: j[2]}, "promises": []}
                self.op(c, out)
                if c["slots"] and r.random() < 0.4:
                    self.op(c, out)
                if c["slots"] and r.random() < 0.5:
                    out.append({"op": "drop", "h": list(c["slots"])[0], "f": 0})
        main.append({"op": "q"})
        for s, x in list(mctx["slots"].items())[:4]:
            main.append({"op": r.choice(["rdy", "get", "try"]), "h": s})
        main.append({"op": "stop"})
        return {"id": self.id, "cores": r.choice([1, 2]), "pump": 1, "early": 0,
                "nodes": self.nodes, "main": main, "thr": thr}

    def do_promise(self, c, out):
        pr = c["promises"].pop()
        if self.r.random() < 0.3 and self.p["promise"].get("canc"):
            out.append({"op": "canc", "p": pr[0]})
        if c["promises"] and self.r.random() < self.p["promise"].get("mvt", 0):
            q = c["promises"].pop()
            # only promises of the same type can be assigned; all are packaged_task<Val>
            out.append({"op": "mvt", "p": pr[0], "q": q[0]})
            pr = (q[0], pr[1], pr[2])
        out.append(self.promise_op(pr))
        if self.r.random() < 0.2:
            out.append({"op": "canc", "p": pr[0]})


def races(prof, seed, count, base=0):
    q = dict(prof)
    q["src"] = dict(prof["src"], pkg=20)
    q["yields"] = 0.2
    q["ex"] = dict(prof["ex"], i=prof["ex"]["i"] + 6, p=prof["ex"]["p"] + 2)
    return programs(q, "race" + seed, count, base, "race")


def programs(prof, seed, count, base=0, what="program"):
    out = []
    i = 0
    while len(out) < count:
        rng = random.Random("%s/%s" % (seed, i))
        i += 1
        p = {k: (dict(v) if isinstance(v, dict) else v) for k, v in prof.items()}
        try:
            g = Gen(rng, p, base + len(out) + 1)
            out.append(getattr(g, what)())
        except AssertionError:
            continue
    return out
