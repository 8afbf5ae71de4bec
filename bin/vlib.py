"""Runs the suites: translate /repo, drive the real code, let TLC judge the recordings."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
PYPY = "/opt/venvpp/bin/python"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(BUILD, "classes")
CORES = int(os.environ.get("VERIF_CORES", "0")) or os.cpu_count() or 4

class Broken(Exception):
    """The machinery itself failed (not the code under test)."""

def sh(cmd, env=None, timeout=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return None, "", "timeout"
    return p.returncode, o.decode("utf8", "replace"), r.decode("utf8", "replace")

def build(run):
    """Translate the working tree of /repo and compile the evaluators; returns the tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tree = os.path.join(run, "tree")
        rc, o, e = sh(["/usr/bin/python3", "/opt/vp/py3/translate.py", REPO, tree], timeout=600)
        if rc not in (0, 3):
            raise Broken("translation of %s failed: %s%s" % (REPO, o, e))
        h = hashlib.sha1()
        srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
        for f in srcs: h.update(open(f, "rb").read())
        stamp = os.path.join(CLASSES, "stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            shutil.rmtree(CLASSES, ignore_errors=True); os.makedirs(CLASSES)
            rc, o, e = sh(["javac", "-cp", TLAJARS, "-d", CLASSES] + srcs, timeout=300)
            if rc: raise Broken("javac: " + e)
            with open(stamp, "w") as f: f.write(h.hexdigest())
    return tree

DENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg"}

def drive(tree, driver, out, seed, size, extra=(), timeout=400):
    """Run a driver.  Returns "" or, if the code under test brought it down, what happened."""
    env = dict(DENV); env["PYTHONPATH"] = tree + ":" + os.path.join(VERIF, "harness")
    rc, o, e = sh([PYPY, os.path.join(VERIF, "harness", driver), out, str(seed), str(size)] + [str(x) for x in extra],
                  env=env, timeout=timeout, cwd=os.path.dirname(out))
    if rc is None: return "driver did not finish in %d s" % timeout
    if rc != 0:
        if tree + "/tracer" in e:
            return "code under test raised: " + e.strip().splitlines()[-1]
        raise Broken("driver %s: %s" % (driver, e[-3000:]))
    return ""

FAIL = re.compile(r'^"FAIL\|(\d+)\|(\d+)\|(.*)"$')
PAIR = re.compile(r'<<\\?"([^"\\]+)\\?", \\?"([^"\\]+)\\?">>')

def tlc(module, cfg, env, workers=1, timeout=800, heap="3g", extra=()):
    md = tempfile.mkdtemp(prefix="md", dir=env["VERIF_RUN"])
    e = dict(env)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss256m", "-cp", CLASSES + ":" + TLAJARS,
           "-Djava.io.tmpdir=" + md, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-nowarning", "-workers", str(workers),
           "-config", cfg] + list(extra) + [module + ".tla"]
    rc, o, err = sh(cmd, env=e, timeout=timeout, cwd=SPEC)
    shutil.rmtree(md, ignore_errors=True)
    if rc is None: raise Broken("TLC timeout on " + module)
    r = {"ok": "Model checking completed. No error has been found." in o, "out": o, "err": err,
         "gen": 0, "dist": 0, "init": 0, "fails": [], "tally": None}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", ",")) 
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", o, re.M)
    if m:
        r["gen"], r["dist"] = [int(x.replace(",", "")) for x in m[-1]]
    m = re.findall(r"Finished computing initial states: ([\d,]+) (?:distinct )?state", o)
    if m: r["init"] = int(m[-1].replace(",", ""))
    # PrintT wraps long strings? it does not; one line per FAIL
    for line in o.splitlines():
        f = FAIL.match(line)
        if f:
            ps = PAIR.findall(f.group(3))
            if not ps: raise Broken("cannot read verdict: " + line[:300])
            r["fails"].append((int(f.group(1)), int(f.group(2)), ps))
        elif line.startswith('"TALLY|'):
            r["tally"] = [int(x) for x in re.findall(r"-?\d+", line.split("|", 1)[1])]
    return r

def judge(module, trace, run, cfg="Tr.cfg", depth=0):
    """Validate a trace file.  Scenarios TLC cannot evaluate at all are isolated and reported."""
    lines = open(trace).read().splitlines()
    env = {"VERIF_TRACE": trace, "VERIF_RUN": run}
    if not lines:
        return {"gen": 0, "dist": 0, "fails": [], "n": 0, "steps": 0, "tally": None}
    scs = [json.loads(l) for l in lines]
    steps = sum(len(x["steps"]) for x in scs)
    r = tlc(module, cfg, env)
    if r["ok"]:
        if r["dist"] != steps + len(scs):
            raise Broken("%s: %d states for %d scenarios with %d steps" % (module, r["dist"], len(scs), steps))
        r["n"], r["steps"] = len(scs), steps
        return r
    if "Error: " not in r["out"] or "OutOfMemory" in r["out"] + r["err"] or "Parsing or semantic analysis failed" in r["out"]:
        raise Broken("TLC on %s:\n%s\n%s" % (module, r["out"][-3000:], r["err"][-500:]))
    if len(scs) == 1:
        m = re.search(r"Error: .*?(?=\nError: The behavior|\nThe error occurred|\Z)", r["out"], re.S)
        msg = (m.group(0) if m else "")[:400]
        return {"gen": 0, "dist": 0, "fails": [(scs[0]["id"], 0, [("*", "observation-outside-the-specification")])],
                "n": 1, "steps": steps, "tally": None, "msg": msg}
    h = len(lines) // 2
    tot = {"gen": 0, "dist": 0, "fails": [], "n": 0, "steps": 0, "tally": None, "msg": ""}
    for k, part in enumerate((lines[:h], lines[h:])):
        p = "%s.%d" % (trace, k)
        with open(p, "w") as f: f.write("\n".join(part) + "\n")
        x = judge(module, p, run, cfg, depth + 1)
        for key in ("gen", "dist", "n", "steps"): tot[key] += x[key]
        tot["fails"] += x["fails"]; tot["msg"] = x.get("msg") or tot["msg"]
        if len(tot["fails"]) > 3 and depth < 3: break          # enough to report
    return tot
