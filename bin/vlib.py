"""Machinery shared by all checks: builds the harness from /repo's working tree, runs scenarios through it, has TLC
validate what was observed, and confirms violations."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
GOROOT = "/opt/veriftools/go1.25.14"
TLA = "/opt/veriftools/tla/tla2tools.jar:" + os.environ.get("VERIF_TLA_MODULES", "")
PROCS = max(2, min(8, os.cpu_count() or 4))


class ToolError(Exception):
    """Something about the machinery went wrong; no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def work_dir():
    base = os.environ.get("VERIF_WORK") or tempfile.gettempdir()
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix="verif-", dir=base)


# ---------------------------------------------------------------- building

def go_env():
    env = dict(os.environ)
    env.update(HOME=env.get("HOME") or "/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
    env["PATH"] = GOROOT + "/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def build(work, race=False):
    """Compiles the harness together with /repo's current tree."""
    out = os.path.join(work, "harness-race.test" if race else "harness.test")
    overlay = {"Replace": {}}
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith("_test.go"):
            overlay["Replace"][os.path.join(REPO, "internal", "zzverif", f)] = os.path.join(HARNESS, f)
    ov = os.path.join(work, "overlay-race.json" if race else "overlay.json")
    with open(ov, "w") as fh:
        json.dump(overlay, fh)
    cmd = ["go", "test", "-vet=off", "-c", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./internal/zzverif")
    t = time.time()
    p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise ToolError("building the harness failed:\n" + p.stdout[-4000:])
    log("built harness%s in %.1fs" % (" (race)" if race else "", time.time() - t))
    return out


# ---------------------------------------------------------------- running the implementation

HANG = 60  # seconds without progress
MEM = 2500 << 20  # bytes a process of the harness might use; usually it is a tenth of that


def rss(pid):
    try:
        with open("/proc/%d/statm" % pid) as fh:
            return int(fh.read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


def run_shard(binary, test, path_in, path_out, n, env_extra=None, max_crashes=6, hang=HANG):
    """Runs the scenarios of one file; returns {index: result}. A scenario that kills the process or makes no progress
    has the result {"crash": description}."""
    res = {}
    start = 0
    crashes = 0
    while start < n:
        if os.path.exists(path_out):
            os.remove(path_out)
        env = go_env()
        env.update(VERIF_IN=path_in, VERIF_OUT=path_out, VERIF_FROM=str(start), GOTRACEBACK="single", GOGC="300")
        env.update(env_extra or {})
        errp = path_out + ".err"
        with open(errp, "wb") as errf:
            p = subprocess.Popen([binary, "-test.run", "^" + test + "$", "-test.timeout", "0"], cwd=os.path.dirname(path_out),
                                 env=env, stdout=errf, stderr=subprocess.STDOUT, start_new_session=True)
            last, size = time.time(), -1
            hung = False
            while p.poll() is None:
                time.sleep(0.05)
                s = os.path.getsize(path_out) if os.path.exists(path_out) else 0
                if s != size:
                    size, last = s, time.time()
                elif time.time() - last > hang:
                    hung = "no progress for %d s" % hang
                elif rss(p.pid) > MEM:
                    hung = "more than %d MB of memory in use" % (MEM >> 20)
                if hung:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
        begun, ended = None, False
        if os.path.exists(path_out):
            with open(path_out) as fh:
                for line in fh:
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in o:
                        begun = o["begin"]
                    elif "i" in o:
                        res[o["i"]] = o["res"]
                    elif "end" in o:
                        ended = True
        tail = open(errp, errors="replace").read()
        race = "WARNING: DATA RACE" in tail
        if race:
            m = re.search(r"WARNING: DATA RACE.*?(?=\n==================|\Z)", tail, re.S)
            res.setdefault("race", m.group(0)[:3000] if m else "data race")
        if ended and (p.returncode == 0 or race):
            return res
        if begun is None or begun in res:
            raise ToolError("harness %s failed (exit %s):\n%s" % (test, p.returncode, tail[-3000:]))
        if p.returncode in (-9, -15, 137) and not hung:
            raise ToolError("harness %s was killed" % test)
        if race and not hung and "race detected during execution of test" in tail:
            # a subtest (bubble) in which a race is detected ends the test function
            res.setdefault("race_at", begun)
            res[begun] = None
            start = begun + 1
            crashes += 1
            if crashes >= max_crashes:
                break
            continue
        m = re.search(r"^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*)$", tail, re.M)
        if not hung and not m:
            raise ToolError("harness %s failed in scenario %d (exit %s):\n%s" % (test, begun, p.returncode, tail[-3000:]))
        res[begun] = {"crash": hung or m.group(1), "output": tail[:3000]}
        crashes += 3 if hung else 1
        start = begun + 1
        if crashes >= max_crashes:
            break
    return res


def run_go(work, binary, test, scenarios, name, procs=None, env_extra=None, hang=HANG):
    """Runs scenarios in parallel processes; returns the list of results (None: not run), and the shards."""
    procs = procs or PROCS
    k = min(procs, max(1, len(scenarios)))
    shards = [list(range(i, len(scenarios), k)) for i in range(k)]
    results = [None] * len(scenarios)
    races = []

    def one(si):
        pin = os.path.join(work, "%s-%d.in" % (name, si))
        with open(pin, "w") as fh:
            for j in shards[si]:
                fh.write(json.dumps(scenarios[j]) + "\n")
        return run_shard(binary, test, pin, os.path.join(work, "%s-%d.out" % (name, si)), len(shards[si]), env_extra, hang=hang)

    with cf.ThreadPoolExecutor(k) as ex:
        for si, r in enumerate(ex.map(one, range(k))):
            for j, v in r.items():
                if j == "race":
                    races.append((shards[si][r.get("race_at", 0)], v))
                elif j == "race_at":
                    pass
                else:
                    results[shards[si][j]] = v
    return results, shards, races


# ---------------------------------------------------------------- TLC

def tla_classpath():
    txt = open(shutil.which("tlc")).read()
    m = re.search(r"-cp\s+(\S+)", txt)
    if not m:
        raise ToolError("no class path in the tlc wrapper")
    return m.group(1).strip('"')


_cp = None
STATS = {"states": 0, "transitions": 0, "runs": []}
_lock = threading.Lock()


def tlc(work, module, cfg=None, env_extra=None, workers=1, args=(), heap="3g", timeout=800, count=True):
    """Runs TLC on a module of the specification; returns its output."""
    global _cp
    with _lock:
        if _cp is None:
            _cp = tla_classpath()
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    env.update(env_extra or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", _cp, "tlc2.TLC",
           "-config", os.path.join(SPEC, cfg or module + ".cfg"), "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
           "-noGenerateSpecTE", "-nowarning"] + list(args) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = p.stdout
    if p.returncode != 0:
        raise ToolError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, out[-4000:]))
    m = re.findall(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", out)
    if not m:
        raise ToolError("no statistics in the output of TLC on %s:\n%s" % (module, out[-2000:]))
    gen, dist = (int(x.replace(",", "")) for x in m[-1])
    if count:
        with _lock:
            STATS["states"] += dist
            STATS["transitions"] += gen
            STATS["runs"].append({"module": module, "cfg": cfg or module + ".cfg", "distinct_states": dist, "states_generated": gen,
                                  "wall_s": round(time.time() - t, 1)})
    return out


TUPLE = re.compile(r'^<<"(FAIL|DONE|INFO)", (.*)>>$')


def parse_tla(s):
    """Parses the printed values that occur in our reports: strings, numbers, booleans, sequences."""
    s = s.strip()
    pos = 0

    def val():
        nonlocal pos
        while s[pos] in " \n":
            pos += 1
        if s.startswith("<<", pos):
            pos += 2
            return seq(">>")
        if s[pos] == "{":
            pos += 1
            return seq("}")
        if s[pos] == '"':
            e = pos + 1
            buf = ""
            while s[e] != '"':
                if s[e] == "\\":
                    e += 1
                buf += s[e]
                e += 1
            pos = e + 1
            return buf
        m = re.match(r"-?\d+|TRUE|FALSE", s[pos:])
        if m:
            pos += m.end()
            v = m.group(0)
            return v == "TRUE" if v in ("TRUE", "FALSE") else int(v)
        # a record or something else: take the rest
        v = s[pos:]
        pos = len(s)
        return v

    def seq(end):
        nonlocal pos
        out = []
        while True:
            while s[pos] in " \n,":
                pos += 1
            if s.startswith(end, pos):
                pos += len(end)
                return out
            out.append(val())
            if pos >= len(s):
                return out

    return val()


def reports(out):
    """FAIL, DONE and INFO reports of a trace specification; long ones are printed over several lines."""
    res = []
    lines = out.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i].strip()
        if re.match(r'^<<\s*"(FAIL|DONE|INFO)"', ln):
            buf = ln
            while buf.count("<<") > buf.count(">>") and i + 1 < len(lines):
                i += 1
                buf += " " + lines[i].strip()
            try:
                res.append(parse_tla(buf))
            except Exception:
                raise ToolError("cannot parse report " + buf)
        i += 1
    return res


UNREADABLE = "UNREADABLE"


def denull(o):
    """TLC's JSON module cannot read null, which is what an absent list or map looks like"""
    if isinstance(o, dict):
        return {k: denull(v) for k, v in o.items()}
    if isinstance(o, list):
        return [denull(v) for v in o]
    return [] if o is None else o


def validate(work, module, records, env_extra=None, chunk=700, workers=None, timeout=800, cfg=None):
    """Has TLC validate records against a trace specification. Returns (fails, infos): fails is a list of (index,
    property, description), infos {index: [...]}. Every record must be decided."""
    fails, infos, done = [], {}, set()
    chunks = [(a, records[a:a + chunk]) for a in range(0, len(records), chunk)]

    def one(c):
        base, recs = c
        path = os.path.join(work, "%s-%d-%d.ndjson" % (module, base, threading.get_ident() % 1000000))
        with open(path, "w") as fh:
            for r in recs:
                fh.write(json.dumps(r) + "\n")
        env = {"TRACE": path}
        env.update(env_extra or {})
        try:
            out = tlc(work, module, cfg=cfg, env_extra=env, workers=1, timeout=timeout)
        except ToolError as e:
            if "error occurred when TLC was evaluating" not in str(e):
                raise
            return base, len(recs), bisect(recs, str(e))
        finally:
            os.remove(path)
        return base, len(recs), reports(out)

    def bisect(recs, err):
        # what was observed has not the shape the specification expects, e.g. a value of another type
        if len(recs) == 1:
            return [["FAIL", UNREADABLE, 1, "the specification cannot be evaluated on what was observed: " + err[-600:]]]
        if len(bisected) > 40:
            raise ToolError(err)
        bisected.append(1)
        h = len(recs) // 2
        res = one((0, recs[:h]))[2]
        if any(r[0] == "FAIL" and r[1] == UNREADABLE for r in res):
            # one is enough; the rest is not needed to know that
            return res + [["DONE", k + 1] for k in range(h, len(recs))]
        return res + [[r[0]] + ([r[1], r[2] + h] if r[0] == "FAIL" else [r[1] + h]) + r[3 if r[0] == "FAIL" else 2:] for r in one((h, recs[h:]))[2]]

    bisected = []

    with cf.ThreadPoolExecutor(workers or PROCS) as ex:
        for base, n, reps in ex.map(one, chunks):
            for r in reps:
                if r[0] == "FAIL":
                    fails.append((base + r[2] - 1, r[1], r[3:] if len(r) > 4 else (r[3] if len(r) > 3 else "")))
                    done.add(base + r[2] - 1)
                elif r[0] == "DONE":
                    done.add(base + r[1] - 1)
                else:
                    infos[base + r[1] - 1] = r[2:]
    missing = [i for i in range(len(records)) if i not in done]
    return fails, infos, missing


# ---------------------------------------------------------------- misc

def generate(work, module, env_extra=None, cfg=None, timeout=600):
    """Has TLC generate scenarios into a file; returns them."""
    out = os.path.join(work, module + ".gen.ndjson")
    env = {"OUT": out}
    env.update(env_extra or {})
    tlc(work, module, cfg=cfg, env_extra=env, timeout=timeout, heap="6g", count=False)
    with open(out) as fh:
        res = [json.loads(x) for x in fh if x.strip()]
    os.remove(out)
    return res


def digest(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()
