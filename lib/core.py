"""Building the harnesses from /repo's working tree, running them, and running TLC."""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


class Broken(Exception):
    """the check itself could not be carried out"""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------------------------- building
INSTR = ["-std=c++20", "-O1", "-g1", "-DNDEBUG", "-w", "-fsanitize=thread",
         "--param", "tsan-instrument-func-entry-exit=0"]
RUNTIME = ["-std=c++20", "-O2", "-w", "-fno-ipa-reference", "-fno-strict-aliasing", "-fno-threadsafe-statics"]
SETTINGS = {"PROJECT_VERSION_MAJOR": "0", "PROJECT_VERSION_MINOR": "0", "PROJECT_VERSION_PATCH": "0",
            "STLAB_TASK_POOL_MAXIMUM": "0", "STLAB_STD_COROUTINES()": 1, "STLAB_THREADS_PTHREAD()": 1,
            "STLAB_TASK_SYSTEM_PORTABLE()": 1, "STLAB_MAIN_EXECUTOR_NONE()": 1}


def render_config(dst):
    """include/stlab/config.hpp as CMake configures it for the portable task system"""
    src = open(os.path.join(REPO, "include/stlab/config.hpp.in")).read()
    src = re.sub(r"(?m)^#cmakedefine01\s+(\S+)", lambda m: "#define %s %d" % (m[1], SETTINGS.get(m[1], 0)), src)
    src = re.sub(r"@(\w+)@", lambda m: str(SETTINGS.get(m[1], "0")), src)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(src)


# harness -> translation units: (object, source, extra flags); {V} is /verif, {R} /repo
LIB = [("pe", "{R}/src/pre_exit.cpp", []), ("de", "{R}/src/concurrency/default_executor.cpp", [])]
HARNESS = {
    "ch": LIB + [("main", "{V}/harness/ch_main.cpp", [])],
    "prog": [("main", "{V}/harness/prog_main.cpp", [])],
    "exe": LIB + [("main", "{V}/harness/exe_main.cpp", [])],
    "fut": LIB + [("all", "{V}/harness/fut_all.cpp", []), ("main", "{V}/harness/fut_main.cpp", [])]
           + [("ops" + t, "{V}/harness/fut_ops.cpp", ["-DFH_T=" + t]) for t in ("Val", "MVal", "void")]
           + [("opr" + t, "{V}/harness/fut_ops.cpp", ["-DFH_T=" + t, "-DFH_RECOVER"]) for t in ("Val", "MVal", "void")],
}


# harnesses of sequential parts: nothing is scheduled
PLAIN = {"forest": "seq_forest", "task": "seq_task", "rev": "seq_rev"}
PLAINFLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-fsanitize=address"]


def build_plain(name):
    key = hashlib.sha256((tree_hash(os.path.join(REPO, "include"), os.path.join(VERIF, "harness"))
                          + repr((PLAINFLAGS, SETTINGS, PLAIN[name]))).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "%s-%s" % (name, key))
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in sorted(glob.glob(os.path.join(BUILD, name + "-*")), key=os.path.getmtime)[:-2]:
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
    try:
        render_config(os.path.join(tmp, "include/stlab/config.hpp"))
        compile_all([["g++"] + PLAINFLAGS + ["-I" + os.path.join(tmp, "include"), "-I" + os.path.join(REPO, "include"),
                      os.path.join(VERIF, "harness", PLAIN[name] + ".cpp"), "-o", os.path.join(tmp, name), "-pthread"]])
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log("built", name)
    return exe


def seq_run(exe, mode, path, out, shard=0, nsh=1, line=None, op=None, timeout=700):
    """replays lines of a file written by TLC; returns the differences [(line, op, what)], states and checks made"""
    a = [exe, mode, path, out, str(shard), str(nsh)] + ([str(line)] if line is not None else []) + ([str(op)] if op is not None else [])
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    p = subprocess.run(a, capture_output=True, text=True, timeout=timeout, env=e)
    bad, tot = [], dict(states=0, checks=0)
    with open(out) as f:
        for l in f:
            if not l.endswith("\n"):
                continue
            j = json.loads(l)
            if j["line"] < 0:
                tot = j
            else:
                bad.append((j["line"], j["op"], j["what"]))
    if p.returncode == 3:
        raise Broken("harness failed: " + p.stderr[-500:])
    if p.returncode:
        pos = struct.unpack("qq", open(out + ".pos", "rb").read(16))
        m = re.search(r"(AddressSanitizer: [\w-]+|Assertion .*)", p.stderr)
        bad.append((pos[0], pos[1], "ended by %s %s" % ("signal" if p.returncode < 0 else "exit code", abs(p.returncode))
                    + (": " + m[1] if m else "")))
    return bad, tot


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


def compile_all(jobs):
    """jobs: list of argument lists, run in parallel"""
    def one(a):
        return subprocess.run(a, capture_output=True, text=True)
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(one, jobs):
            if r.returncode:
                err = "\n".join(l[:300] for l in r.stderr.splitlines() if "error" in l)[:3000]
                raise Broken("compilation failed: %s\n%s" % (" ".join(r.args)[-200:], err or r.stderr[:2000]))


def build(name):
    key = hashlib.sha256((tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"),
                                    os.path.join(VERIF, "harness"), os.path.join(VERIF, "vs"))
                          + repr((INSTR, RUNTIME, SETTINGS, HARNESS[name]))).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "%s-%s" % (name, key))
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in sorted(glob.glob(os.path.join(BUILD, name + "-*")), key=os.path.getmtime)[:-2]:
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
    try:
        render_config(os.path.join(tmp, "include/stlab/config.hpp"))
        inc = ["-I" + os.path.join(tmp, "include"), "-I" + os.path.join(REPO, "include")]
        jobs, objs = [], []
        for o, src, fl in HARNESS[name]:
            obj = os.path.join(tmp, o + ".o")
            jobs.append(["g++"] + INSTR + inc + fl + ["-c", src.format(V=VERIF, R=REPO), "-o", obj])
            objs.append(obj)
        obj = os.path.join(tmp, "vsched.o")
        jobs.append(["g++"] + RUNTIME + ["-c", os.path.join(VERIF, "vs/vsched.cpp"), "-o", obj])
        objs.append(obj)
        compile_all(jobs)
        compile_all([["g++"] + objs + ["-o", os.path.join(tmp, name), "-ldl", "-pthread"]])
        for o in objs:
            os.remove(o)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log("built", name)
    return exe


# ---------------------------------------------------------------------------------- running
class Work:
    """a scratch directory of one check"""

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="verif-")

    def path(self, *p):
        return os.path.join(self.d, *p)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def dump(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def explore(w, exe, progs, runs, secs, seed=SEED, tag="x", nsh=NCPU):
    """runs every program `runs` times; returns (list of trace files, summary)"""
    pf = w.path(tag + ".progs")
    dump(pf, progs)
    ps = []
    for i in range(nsh):
        out = w.path("%s.%d.raw" % (tag, i))
        ps.append((out, subprocess.Popen([exe, "explore", pf, out, str(seed), str(runs), str(secs), str(i), str(nsh)],
                                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    files, tot = [], dict(total=0, distinct=0, lost=0, steps=0)
    for out, p in ps:
        err = p.communicate()[1]
        if p.returncode:
            raise Broken("harness failed: %s" % err[-500:])
        f = out[:-4] + ".tr"
        with open(out) as a, open(f, "w") as b:
            for line in a:
                if line.startswith('{"p":-1,'):
                    s = json.loads(line)
                    for k in tot:
                        tot[k] += s.get(k, 0)
                else:
                    b.write(line)
        os.remove(out)
        files.append(f)
    if tot["lost"] > max(20, tot["total"] // 5):
        raise Broken("too many executions gave no answer: %r" % tot)
    return files, tot


def replay(w, exe, prog, sched, tag="rp"):
    p = dict(prog)
    p["sched"] = sched
    dump(w.path(tag + ".progs"), [p])
    out = w.path(tag + ".out")
    subprocess.run([exe, "replay", w.path(tag + ".progs"), out], timeout=120, check=True)
    rows = [json.loads(l) for l in open(out)]
    return [r for r in rows if r["p"] != -1]


class TimeOut(Broken):
    pass


STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")
PROG = re.compile(r"([\d,]+) states generated \([^)]*\), ([\d,]+) distinct")


def java(args, timeout, env=None, mem="2g", cwd=SPEC, par=False):
    with tempfile.TemporaryDirectory(prefix="tlc-") as meta:
        gc = ["-XX:+UseParallelGC"] if par else ["-XX:+UseSerialGC"]
        a = ["java"] + gc + ["-Xmx" + mem, "-Djava.io.tmpdir=" + meta] + args(meta)
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(a, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd)
        except subprocess.TimeoutExpired as x:
            t = TimeOut("TLC timed out: " + " ".join(a[-4:]))
            t.out = (x.stdout or b"").decode(errors="replace")
            raise t
        return r.stdout + r.stderr


def tlc(module, cfg=None, workers=1, timeout=800, env=None, mem="4g", extra=()):
    """model checking: returns (ok, states, distinct, output)"""
    out = java(lambda m: ["-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", m, "-noGenerateSpecTE",
                          "-lncheck", "final"] + list(extra) + ["-config", (cfg or module) + ".cfg", module + ".tla"],
               timeout, env, mem, par=workers > 1)
    m = STAT.findall(out)
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return "No error has been found" in out, g, d, out


def check_traces(module, files, timeout=800, batch=2500):
    """which traces of the files does the specification not accept?
    returns (number checked, states, distinct, [(row, position)])"""
    parts = []
    for f in files:
        rows = [l for l in open(f) if l.strip()]
        for i in range(0, len(rows), batch):
            p = "%s.b%d" % (f, i)
            open(p, "w").writelines(rows[i:i + batch])
            parts.append((p, rows[i:i + batch]))

    def one(part):
        p, rows = part
        out = java(lambda m: ["-Dtlc2.tool.queue.IStateQueue=StateDeque", "-cp", TLA, "tlc2.TLC", "-workers", "1",
                              "-metadir", m, "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"],
                   timeout, {"TRACES": p})
        rej = [(int(a), int(b)) for a, b in re.findall(r"REJECTED (\d+) (\d+)", out)]
        m = STAT.findall(out)
        at = re.findall(r"(?m)^/\\ tr = (\d+)", out), re.findall(r"(?m)^/\\ l = (\d+)", out)
        if "Error:" in out and not rej and at[0] and at[1] and not re.search("OutOfMemory|StackOverflow|heap space", out):
            # an event so far from anything specified that it cannot be evaluated; the rest of the batch is not looked at
            os.remove(p)
            g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
            return len(rows), g, d, [(json.loads(rows[int(at[0][-1]) - 1]), int(at[1][-1]))]
        if not m or "Finished in" not in out or "TLC threw an unexpected exception" in out or \
                ("Error:" in out and not rej):
            raise Broken("TLC failed on %s:\n%s" % (module, out[-3000:]))
        os.remove(p)
        return len(rows), int(m[-1][0]), int(m[-1][1]), [(json.loads(rows[i - 1]), pos) for i, pos in rej]

    n = g = d = 0
    bad = []
    with ThreadPoolExecutor(NCPU) as ex:
        for a, b, c, r in ex.map(one, parts):
            n, g, d = n + a, g + b, d + c
            bad += r
    return n, g, d, bad
