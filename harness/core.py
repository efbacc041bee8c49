"""Orchestration: builds bare Verilog tops, runs cocotb simulations of the code in /repo,
validates the recorded traces with TLC, runs TLC model checks and writes evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class MachineryError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_")
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch) and _scratch.startswith(tempfile.gettempdir() + os.sep + "verif_"):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# ---------------------------------------------------------------- simulation
def build_top(signals):
    """signals: list of (name, width). Returns the path of a compiled vvp."""
    d = os.path.join(scratch(), "tops")
    os.makedirs(d, exist_ok=True)
    ports = ",\n".join(
        "  inout wire %s%s" % ("[%d:0] " % (w - 1) if w > 1 else "", n) for n, w in signals)
    src = "`timescale 1ns/1ps\nmodule top(\n%s\n);\nendmodule\n" % ports
    h = hashlib.sha1(src.encode()).hexdigest()[:16]
    out = os.path.join(d, h + ".vvp")
    if not os.path.exists(out):
        v = os.path.join(d, h + ".v")
        with open(v, "w") as f:
            f.write(src)
        tmp = out + ".tmp%d" % os.getpid() + h
        r = subprocess.run(["iverilog", "-g2012", "-o", tmp, "-s", "top", v],
                           capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("iverilog failed: " + r.stderr)
        os.replace(tmp, out)
    return out


_findlib = None


def _libpython():
    global _findlib
    if _findlib is None:
        _findlib = subprocess.run([VENV + "/bin/find_libpython"], capture_output=True, text=True).stdout.strip()
    return _findlib


def sim_env(extra=None):
    env = {k: v for k, v in os.environ.items() if k in ("HOME", "LANG", "TMPDIR", "LC_ALL")}
    env.update(PATH=VENV + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO + ":" + HARN,
               LIBPYTHON_LOC=_libpython(), PYGPI_PYTHON_BIN=VENV + "/bin/python",
               TOPLEVEL="top", TOPLEVEL_LANG="verilog", PYTHONHASHSEED="0",
               COCOTB_LOG_LEVEL="WARNING", COCOTB_REDUCED_LOG_FMT="1", COCOTB_ANSI_OUTPUT="0")
    env.update(extra or {})
    return env


_simno = 0


def run_sim(module, signals, scenarios, timeout=300):
    """Run the scenarios (list of JSON-able dicts) in one simulator process.
    Returns a list of dicts {scenario, trace (dict or None), error (str or None)}."""
    global _simno
    _simno += 1
    wd = os.path.join(scratch(), "sim%d" % _simno)
    os.makedirs(wd)
    vvp = build_top(signals)
    with open(wd + "/scen.json", "w") as f:
        json.dump(scenarios, f)
    env = sim_env(dict(MODULE=module, COCOTB_RESULTS_FILE=wd + "/results.xml",
                       VERIF_SCEN=wd + "/scen.json", VERIF_OUT=wd + "/traces.ndjson",
                       RANDOM_SEED="1"))
    log = open(wd + "/log", "w")
    timed_out = False
    p = subprocess.Popen(["vvp", "-n", "-M", VENV + "/lib/python3.12/site-packages/cocotb/libs",
                          "-m", "libcocotbvpi_icarus", vvp], cwd=wd, env=env, stdout=log, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        p.kill()
        p.wait()
    log.close()
    res = [dict(scenario=s, trace=None, error=None) for s in scenarios]
    started = set()
    if os.path.exists(wd + "/traces.ndjson"):
        with open(wd + "/traces.ndjson") as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("begin"):
                    started.add(d["n"])
                else:
                    res[d["n"]]["trace"] = d["trace"]
    logtxt = open(wd + "/log", errors="replace").read()
    fails = {}
    if os.path.exists(wd + "/results.xml"):
        try:
            for tc in ET.parse(wd + "/results.xml").getroot().iter("testcase"):
                m = re.search(r"_(\d+)$", tc.get("name"))
                if m and (tc.find("failure") is not None or tc.find("error") is not None):
                    fails[int(m.group(1)) - 1] = True
                elif m:
                    fails.setdefault(int(m.group(1)) - 1, False)
        except ET.ParseError:
            pass
    for n, r in enumerate(res):
        if fails.get(n):
            r["error"] = _extract_error(logtxt, n)
        elif n not in fails:
            if timed_out and n in started:
                r["error"] = "hang: simulation did not advance (killed after %ds)" % timeout
            elif timed_out:
                r["skipped"] = True
            elif n not in started:
                if started or "SystemExit" in logtxt:
                    r["skipped"] = True
                else:
                    r["error"] = "import/startup failure: " + logtxt[-1500:]
            else:
                r["error"] = "simulator died: " + logtxt[-1500:]
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(wd, ignore_errors=True)
    return res


def _extract_error(logtxt, n):
    i = logtxt.find("scenario_%03d failed" % (n + 1))
    m = re.search(r"(?:scenario|run)_0*%d\b.*?failed(.*?)(?=^\s*[\d.]+ns (?:INFO|ERROR|WARN)|\Z)" % (n + 1), logtxt, re.S | re.M)
    txt = m.group(0) if m else (logtxt[i:i + 1500] if i >= 0 else logtxt[-1500:])
    return "exception in the simulation: " + txt.strip()[-1500:]


def run_sims(module, signals, scenarios, procs=None, timeout=300):
    procs = procs or NPROC
    procs = max(1, min(procs, len(scenarios)))
    chunks = [list(range(i, len(scenarios), procs)) for i in range(procs)]
    out = [None] * len(scenarios)
    build_top(signals)
    with ThreadPoolExecutor(procs) as ex:
        futs = [(c, ex.submit(run_sim, module, signals, [scenarios[i] for i in c], timeout)) for c in chunks]
        for c, f in futs:
            for i, r in zip(c, f.result()):
                out[i] = r
    return out


def run_py(module, scenarios, procs=None, timeout=300):
    """Same contract as run_sims for harness modules that need no simulator: module.main(scenario)->trace."""
    procs = max(1, min(procs or NPROC, len(scenarios)))
    chunks = [list(range(i, len(scenarios), procs)) for i in range(procs)]
    out = [None] * len(scenarios)

    def one(idx):
        global _simno
        _simno += 1
        wd = tempfile.mkdtemp(prefix="py", dir=scratch())
        with open(wd + "/scen.json", "w") as f:
            json.dump([scenarios[i] for i in idx], f)
        env = sim_env(dict(VERIF_SCEN=wd + "/scen.json", VERIF_OUT=wd + "/traces.ndjson"))
        to = False
        try:
            r = subprocess.run([VENV + "/bin/python", "-m", "pyrun", module], cwd=wd, env=env,
                               capture_output=True, text=True, timeout=timeout, errors="replace")
            txt = r.stdout + r.stderr
        except subprocess.TimeoutExpired as e:
            to, txt = True, "timeout"
        res = [dict(scenario=scenarios[i], trace=None, error=None) for i in idx]
        if os.path.exists(wd + "/traces.ndjson"):
            with open(wd + "/traces.ndjson") as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    res[d["n"]]["trace"] = d["trace"]
                    res[d["n"]]["error"] = d.get("error")
        first = True
        for r in res:
            if r["trace"] is None and r["error"] is None:
                if first:
                    r["error"] = ("hang: " if to else "process died: ") + txt[-1500:]
                    first = False
                else:
                    r["skipped"] = True
        shutil.rmtree(wd, ignore_errors=True)
        return res

    with ThreadPoolExecutor(procs) as ex:
        for c, f in [(c, ex.submit(one, c)) for c in chunks]:
            for i, r in zip(c, f.result()):
                out[i] = r
    return out


# ---------------------------------------------------------------- TLC
def tlc(spec, cfg=None, env=None, args=(), workers=None, timeout=600, heap="3g"):
    """Run TLC; returns dict(out, ok, states, distinct, rc)."""
    wd = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-Djava.io.tmpdir=" + wd, "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC",
           "-metadir", wd + "/meta", "-noGenerateSpecTE", "-workers", str(workers or 4)]
    if cfg:
        cmd += ["-config", os.path.join(SPEC, cfg)]
    cmd += list(args) + [os.path.join(SPEC, spec)]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        rc = -1
    shutil.rmtree(wd, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    st, di = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if not m:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            st = di = int(m[-1].replace(",", ""))
    return dict(out=out, rc=rc, states=st, distinct=di, wall=time.time() - t0,
                ok=(rc == 0 and ("No error has been found" in out or "Finished in" in out)))


def validate(spec, results, procs=None, chunk_events=None):
    """Validate recorded traces against trace spec `spec`.
    Returns dict(bad={index: [(event no, clause)...]}, states, transitions, validated)."""
    items = [(i, r["trace"]) for i, r in enumerate(results) if r and r.get("trace") and r["trace"]["ev"]]
    if not items:
        return dict(bad={}, states=0, transitions=0, validated=0)
    procs = max(1, min(procs or NPROC, len(items)))
    # balance by length
    items.sort(key=lambda x: -len(x[1]["ev"]))
    groups = [[] for _ in range(procs)]
    load = [0] * procs
    for it in items:
        k = load.index(min(load))
        groups[k].append(it)
        load[k] += len(it[1]["ev"]) + 20
    total = sum(load)
    # few events: fewer TLC processes
    want = max(1, min(procs, total // 1500 + 1))
    if want < procs:
        groups = [[] for _ in range(want)]
        load = [0] * want
        for it in items:
            k = load.index(min(load))
            groups[k].append(it)
            load[k] += len(it[1]["ev"]) + 20

    def one(g, depth=0):
        d = tempfile.mkdtemp(prefix="val", dir=scratch())
        f = d + "/traces.json"
        with open(f, "w") as fh:
            json.dump([t for _, t in g], fh, separators=(",", ":"))
        r = tlc(spec + ".tla", spec + ".cfg", env=dict(TRACES=f), args=["-deadlock"], workers=1,
                timeout=400 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 1500, heap="2g")
        shutil.rmtree(d, ignore_errors=True)
        bad, done = {}, set()
        for m in re.finditer(r'<<"(BAD|DONE)", (\d+), (\d+)(?:, "([^"]*)")?(?:, (.*))?>>', r["out"]):
            i = g[int(m.group(2)) - 1][0]
            if m.group(1) == "DONE":
                done.add(i)
            else:
                bad.setdefault(i, []).append((int(m.group(3)), m.group(4)))
        missing = [x for x in g if x[0] not in done]
        if not missing:
            return bad, r["distinct"], r["states"]
        if r["rc"] == -1 and bad:
            return bad, r["distinct"], r["states"]      # violations found before the time ran out
        if r["rc"] == -1 or "OutOfMemory" in r["out"] or "Error" not in r["out"] or "semantic analysis failed" in r["out"]:
            raise MachineryError("TLC did not finish validating (%s): %s" % (spec, r["out"][-3000:]))
        if len(g) == 1:
            # the specification has no meaning for some event of this trace: a value no legal
            # execution can produce.  Total verdict: that is a violation of the trace's own clause.
            m = re.search(r"l = (\d+)", r["out"][r["out"].rfind("State "):] if "State " in r["out"] else "")
            bad.setdefault(g[0][0], []).append((int(m.group(1)) if m else 0, "*.event outside the specification: " +
                                                " ".join(r["out"].split("Error:")[1].split())[:300]))
            return bad, r["distinct"], r["states"]
        if depth == 0:
            groups2 = [missing[k::8] for k in range(8)] if len(missing) > 8 else [[x] for x in missing]
        else:
            groups2 = [[x] for x in missing]
        ds, st = r["distinct"], r["states"]
        bad = {k: v for k, v in bad.items() if k in done}
        for g2 in groups2:
            if g2:
                b2, d2, s2 = one(g2, depth + 1)
                bad.update(b2)
                ds, st = ds + d2, st + s2
                if any(c.startswith("*") for l in b2.values() for _, c in l):
                    break          # one is enough
        return bad, ds, st

    res = dict(bad={}, states=0, transitions=0, validated=len(items))
    with ThreadPoolExecutor(len(groups)) as ex:
        for b, ds, st in ex.map(one, [g for g in groups if g]):
            res["bad"].update(b)
            res["states"] += ds
            res["transitions"] += st
    return res
