"""The frame of a check: stages, confirmation of violations, known findings, evidence."""
import json, os, sys, time
from concurrent.futures import ThreadPoolExecutor
from . import core
from .core import log, Broken, VERIF, SEED, TIER


class Check:
    def __init__(self, pid):
        self.id = pid
        self.quick = TIER != "thorough"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, executions=0, samples=[], stages=[])
        self.bad = []        # (what, replay path)
        self.known = []
        self.findings = load_known(pid)
        self.assume = []

    # -- a violation: data is what a replay needs
    def violation(self, kind, what, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.id, kind, len(self.bad) + 1))
        json.dump(dict(property=self.id, kind=kind, what=what, **data), open(p, "w"))
        self.bad.append((what, p))
        log("violation:", what[:300])

    def count(self, name, **kw):
        self.cov["stages"].append(dict(stage=name, **kw))
        for k in ("states", "transitions"):
            self.cov[k] += kw.get(k, 0)
        self.cov["traces_validated_against_impl"] += kw.get("traces", 0)
        self.cov["executions"] += kw.get("executions", 0)

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    # -- stages
    def traces(self, name, harness, module, progs, runs, secs=120, seed=None):
        """run programs on the real code, check every recorded trace against the specification"""
        if self.bad and self.quick:
            return                  # one violation is enough
        exe = core.build(harness)
        by = {p["id"]: p for p in progs}
        with core.Work() as w:
            files, tot = core.explore(w, exe, progs, runs, secs, SEED if seed is None else seed)
            log(name, "executions", tot)
            n, g, d, bad = core.check_traces(module, files)
            log(name, "traces", n, "states", d, "rejected", len(bad))
            for f in files[:1]:
                for line in list(open(f))[:1]:
                    t = json.loads(line)
                    self.sample(dict(stage=name, program=by[t["p"]], sched=t["sched"], events=t["ev"][:60]))
            self.count(name, states=d, transitions=g, traces=n - len(bad), executions=tot["total"],
                       programs=len(progs), distinct_traces=tot["distinct"], steps=tot["steps"], lost=tot["lost"],
                       rejected=len(bad))
            self.rejected(w, name, exe, module, by, bad)

    def finding(self, key, harness, module, progs, runs, secs=40):
        """histories of a recorded finding: reports whether the defect still shows, never a violation"""
        if key not in self.findings:
            return
        exe = core.build(harness)
        with core.Work() as w:
            files, tot = core.explore(w, exe, progs, runs, secs)
            n, g, d, bad = core.check_traces(module, files)
            log("finding", key, "executions", tot["total"], "traces", n, "showing it", len(bad))
            self.count("finding " + key, states=d, transitions=g, traces=n - len(bad), executions=tot["total"],
                       showing=len(bad))
            if bad:
                self.known.append("%s: %s" % (key, self.findings[key]))

    def rejected(self, w, name, exe, module, by, bad):
        bad.sort(key=lambda b: b[1])
        seen = set()
        for t, pos in bad:
            if len(self.bad) >= 5:
                break
            # once more, alone, from a fresh execution
            rows = core.replay(w, exe, by[t["p"]], t["sched"])
            again = rows and rows[0]["ev"] == t["ev"]
            core.dump(w.path("one.tr"), [t])
            _, _, _, b2 = core.check_traces(module, [w.path("one.tr")])
            if not b2:
                log("not confirmed:", t["p"], t["sched"])
                continue
            pos = b2[0][1]
            ev = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else None
            self.violation(name, "%s: program %s, event %d of %d is not allowed: %s" %
                           (name, t["p"], pos, len(t["ev"]), json.dumps(ev)),
                           dict(harness=os.path.basename(exe), module=module, program=by[t["p"]], sched=t["sched"],
                                position=pos, events=t["ev"], replayed=bool(again)))

    def model(self, module, cfg=None, workers=core.NCPU, timeout=800, mem="6g", name=None, env=None):
        """exhaustive check of a model's own properties"""
        try:
            ok, g, d, out = core.tlc(module, cfg, workers, timeout, env, mem)
        except core.TimeOut as x:       # explored as far as the time went; nothing was found
            m = core.PROG.findall(x.out)
            g, d = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
            ok, out = "Error:" not in x.out, x.out
            name = (name or module) + " (not finished)"
        log("model", cfg or module, "ok" if ok else "FAILED", g, d)
        if not ok:
            raise Broken("the model %s does not satisfy its properties:\n%s" % (cfg or module, out[-4000:]))
        self.count(name or ("model " + (cfg or module)), states=d, transitions=g)
        return out

    def enumerate(self, name, harness, mode, module, env, cfg=None, workers=core.NCPU, timeout=800, mem="6g", extra=()):
        """every state and transition TLC finds for the model is replayed on the real code"""
        exe = core.build_plain(harness)
        ok, g, d, out = core.tlc(module, cfg, workers, timeout, env, mem, extra)
        if not ok and "-simulate" not in extra:
            raise Broken("the model %s does not satisfy its properties:\n%s" % (module, out[-4000:]))
        with core.Work() as w:
            path = w.path("states")
            n = 0
            with open(path, "w") as f:
                for l in out.split("\n"):
                    if l.startswith('"{'):
                        f.write(json.loads(l) + "\n")
                        n += 1
            del out
            if not n:
                raise Broken("the model %s gave no states" % module)
            log(name, "model", module, "states", d, "transitions", g, "lines", n)
            nsh = core.NCPU
            with ThreadPoolExecutor(nsh) as ex:
                rs = list(ex.map(lambda i: core.seq_run(exe, mode, path, w.path("o%d" % i), i, nsh), range(nsh)))
            bad = sorted({b for r in rs for b in r[0]})
            checks = sum(r[1]["checks"] for r in rs)
            log(name, "comparisons", checks, "differences", len(bad))
            lines = None
            for line, op, what in bad:
                if len(self.bad) >= 5:
                    break
                lines = lines or open(path).read().split("\n")
                b2, _ = core.seq_run(exe, mode, path, w.path("c"), 0, 1, line, op)   # once more, alone
                if not b2:
                    log("not confirmed:", line, op, what)
                    continue
                st = json.loads(lines[line])
                o = st["ops"][op] if op >= 0 and "ops" in st else None
                self.violation(name, "%s: after %s%s: %s" % (name, json.dumps(st.get("path"))[:200],
                                                             " operation %s" % json.dumps(o) if o else "", b2[0][2]),
                               dict(harness=harness, mode=mode, module=module, state=st, op=op, seq=True))
            if n:
                s0 = json.loads(open(path).readline())
                self.sample(dict(stage=name, state={k: (v if k != "ops" else v[:5]) for k, v in s0.items()}))
            self.count(name, states=d, transitions=g, traces=n, executions=n, comparisons=checks, differences=len(bad))

    def finish(self):
        e = dict(property=self.id, tier="quick" if self.quick else "thorough", seed=SEED, level="model_checking",
                 coverage=self.cov, assumptions=self.assume or ["see DESIGN.md"],
                 wall_s=round(time.time() - core.T0, 1), violations=len(self.bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(e, open(os.path.join(VERIF, "evidence", self.id + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k))
        for what, p in self.bad:
            print("# " + what[:400])
            print("VIOLATION property=%s replay=%s" % (self.id, p))
        sys.stdout.flush()
        return 1 if self.bad else 0


def load_known(pid):
    """known-findings.txt: lines `finding: property=<id> key=<key> <text>` and `fixed: ...`"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                f = line.split(None, 3)
                if f[1] == "property=" + pid:
                    out[f[2].split("=", 1)[1]] = f[3].strip()
    return out
