"""Shared machinery of the checks: recording traces of the real code, running TLC on them, verdicts.

A driver records *events* (one public call of the real code each: arguments and result) into *streams*; a stream is
one history, validated from the initial state of the trace specification named by it.  TLC decides every verdict:
the specification prints one VFAIL line per event that is not a behaviour it allows, with the clauses that failed.
"""
import json, math, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from datetime import date, datetime, timedelta

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar"
TLACM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
SCALE = float(os.environ["VERIF_SCALE"]) if os.environ.get("VERIF_SCALE") else None     # tools/mutate.py: smaller runs, traces only


# --------------------------------------------------------------------------- values in traces

def f(x):
    """A number of the real code as a Dec (shortest decimal that denotes the same double)."""
    x = float(x)
    return repr(x)


def d(x):
    """A date as its proleptic Gregorian ordinal."""
    if isinstance(x, datetime):
        x = x.date()
    if not isinstance(x, date):
        raise BadShape(f"not a date: {type(x).__name__}")
    return x.toordinal()


def dt(x):
    """A datetime as its day and the seconds since midnight."""
    if not isinstance(x, datetime):
        raise BadShape(f"not a datetime: {type(x).__name__}")
    us = (x.hour * 3600 + x.minute * 60 + x.second) * 1000000 + x.microsecond
    return {"d": x.toordinal(), "s": dec_us(us)}


def dec_us(us):
    return f"{us // 1000000}.{us % 1000000:06d}" if us % 1000000 else str(us // 1000000)


def ends(cut):
    """A slice as PySlices takes it."""
    return {"i": 10 ** 9 if cut.start is None else cut.start, "j": 10 ** 9 if cut.stop is None else cut.stop, "step": 1 if cut.step is None else cut.step}


def exact_date(x):
    """A plain date (a datetime where a date belongs is a different shape)."""
    if isinstance(x, datetime) or not isinstance(x, date):
        raise BadShape(f"not a plain date: {type(x).__name__}")
    return x.toordinal()


def vec(a):
    return [f(v) for v in a]


def mat(a):
    return [[f(v) for v in r] for r in a]


class BadShape(Exception):
    pass


class CallTimeout(Exception):
    pass


class Hanging(Exception):
    """The code under test does not come back."""


def _alarm(signum, frame):
    raise CallTimeout()


def _hanging(signum, frame):
    raise Hanging("the drive does not end")


def watchdog(seconds):
    signal.signal(signal.SIGALRM, _hanging)
    signal.setitimer(signal.ITIMER_REAL, seconds)


SPACE = resource.getrlimit(resource.RLIMIT_AS)
lost = 0.0      # seconds spent in calls that did not return


def call(fn, shape=lambda v: v, limit=30):
    """Run one public call; normalise its result with `shape`.  Errors are results, not failures of the harness."""
    global lost
    if lost > 90:
        raise Hanging("several calls did not return")
    limit = limit if not lost else 10
    old = signal.signal(signal.SIGPROF, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (min(12 << 30, SPACE[1]) if SPACE[1] > 0 else 12 << 30, SPACE[1]))
    signal.setitimer(signal.ITIMER_PROF, limit)      # processor time: a busy machine is no fault of the code
    try:
        try:
            v = fn()
        except (KeyboardInterrupt, SystemExit, Hanging):
            raise
        except MemoryError:
            lost += max(limit, 30)      # as good as one that does not return
            return {"ok": False, "err": "MemoryError", "msg": ""}
        except CallTimeout:
            lost += limit
            return {"ok": False, "err": "CallTimeout", "msg": f"no result after {limit} s"}
        except BaseException as e:
            return {"ok": False, "err": type(e).__name__, "msg": str(e)[:200]}
        try:
            v = shape(v)
            return {"ok": True, "v": "none" if v is None else v}
        except (KeyboardInterrupt, SystemExit, Hanging):
            raise
        except BaseException as e:
            return {"ok": False, "err": "BadShape", "msg": f"{type(e).__name__}: {e}"[:200]}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        resource.setrlimit(resource.RLIMIT_AS, SPACE)
        signal.signal(signal.SIGPROF, old)


# --------------------------------------------------------------------------- recording

class Recorder:
    """Streams of events of one run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.quick = tier == "quick"
        self.streams = []            # (spec, [events])
        self.counts = {}
        self.mc = []                 # exhaustive model-checking runs: (name, module, cfg)
        self.notes = {}
        self.gen = (0, 0)            # states, transitions of behaviour generation

    def n(self, quick, thorough):
        v = quick if self.quick else thorough
        return v if SCALE is None or not isinstance(v, int) or isinstance(v, bool) or v < 10 else max(8, int(v * SCALE))

    def stream(self, spec):
        s = Stream(self, spec)
        self.streams.append(s)
        return s


class Stream:
    def __init__(self, rec, spec):
        self.rec, self.spec, self.events = rec, spec, []

    def ev(self, op, key, out=None, **kw):
        e = {"op": op, "key": key}
        e.update(kw)
        e["out"] = {"ok": True, "v": "none"} if out is None else out
        self.events.append(e)
        c = self.rec.counts
        c[op] = c.get(op, 0) + 1
        return e


# --------------------------------------------------------------------------- TLC

class Machinery(Exception):
    pass


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif_")
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def classes():
    out = os.path.join(workdir(), "classes")
    if not os.path.isdir(out):
        os.makedirs(out)
        src = [os.path.join(VERIF, "java", x) for x in sorted(os.listdir(os.path.join(VERIF, "java"))) if x.endswith(".java")]
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", out] + src, capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac failed: " + r.stderr[-2000:])
    return out


def tlc(module, cfg, env=None, extra=(), timeout=800, heap="3g", workers="1", const=None):
    cls = classes()
    meta = tempfile.mkdtemp(prefix="meta_", dir=workdir())
    cfgpath = os.path.join(SPEC, cfg)
    if const:
        text = open(cfgpath).read() + "\n" + "\n".join(f"CONSTANT {k} = {v}" for k, v in const.items()) + "\n"
        cfgpath = os.path.join(meta, "run.cfg")
        open(cfgpath, "w").write(text)
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.Overrides", "-DTLA-Library=" + SPEC,
           "-cp", f"{TLA}:{TLACM}:{cls}", "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE",
           "-deadlock", "-config", cfgpath, *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired as x:
        raise Machinery(f"TLC timed out on {module} after {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


STATES = re.compile(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", re.M)


def tlc_counts(out):
    m = None
    for m in STATES.finditer(out):
        pass
    if not m:
        return 0, 0
    g, s = (int(x.replace(",", "")) for x in m.groups())
    return s, g


def validate(spec, events, timeout=800):
    """Validate one shard of one or more histories.  Returns (fails: {index: [clauses]}, states, transitions)."""
    path = os.path.join(workdir(), f"trace_{spec}_{abs(hash((id(events), time.time())))}.ndjson")
    with open(path, "w") as h:
        for e in events:
            h.write(json.dumps(e) + "\n")
    rc, out = tlc(spec, spec + ".cfg" if os.path.exists(os.path.join(SPEC, spec + ".cfg")) else "Trace.cfg", env={"TRACE": path}, timeout=timeout)
    fails = {}
    for m in re.finditer(r'^"VFAIL (\d+) (.*)"$', out, re.M):
        fails[int(m.group(1)) - 1] = m.group(2).replace('\\"', '"').split(",")
    states, trans = tlc_counts(out)
    done = f'"VDONE {len(events)}"' in out
    if not done:
        seen = [int(x) for x in re.findall(r'^"VAT (\d+)"$', out, re.M)]
        m = re.search(r"^l = (\d+)|/\\ l = (\d+)", out, re.M)
        ls = [int(a or b) for a, b in re.findall(r"(?:^|/\\ )l = (\d+)|\bl \|-> (\d+)", out, re.M)]
        if "Error:" in out and ls and "Parsing or semantic analysis failed" not in out:
            at = max(ls)
            if at <= len(events) and events[at - 1]["op"] != "begin" and "ndDeserialize" not in out:
                fails[at - 1] = ["UNEVALUABLE"]
                return fails, states, trans, out, at
        raise Machinery(f"TLC did not finish {spec} ({path}): rc={rc}\n" + out[-3000:])
    os.unlink(path)
    return fails, states, trans, out, None


def validate_all(streams, jobs=8, shard_events=4000, timeout=800):
    """Group histories into shards, validate in parallel.  A `begin` event resets the trace specification's state."""
    classes()
    by = {}
    for s in streams:
        if s.events:
            by.setdefault(s.spec, []).append(s)
    shards = []
    for spec, ss in by.items():
        total = sum(len(s.events) for s in ss)
        size = max(20, min(shard_events, -(-total // jobs)))
        cur = []
        for s in ss:
            cur += [{"op": "begin", "key": "begin"}] + s.events
            if len(cur) >= size:
                shards.append((spec, cur)); cur = []
        if cur:
            shards.append((spec, cur))
    res = {"fails": [], "states": 0, "transitions": 0, "shards": len(shards), "histories": sum(len(v) for v in by.values())}

    def one(sh):
        spec, evs = sh
        out = []
        base = 0
        st = tr = 0
        while evs:
            fails, s, t, text, stop = validate(spec, evs, timeout)
            st += s; tr += t
            out += [(spec, evs, i, c) for i, c in sorted(fails.items())]
            if stop is None:
                break
            # an event the specification cannot evaluate: reported; carry on with the next history
            nxt = next((i for i in range(stop, len(evs)) if evs[i]["op"] == "begin"), None)
            if nxt is None or len(out) > 20:
                break
            evs = evs[nxt:]
        return out, st, tr

    with ThreadPoolExecutor(jobs) as ex:
        for o, s, t in ex.map(one, shards):
            res["fails"] += o
            res["states"] += s
            res["transitions"] += t
    return res


def model_check(module, cfg, const=None, timeout=600, workers="4", heap="6g"):
    """Exhaustive TLC run of a specification-level model.  Returns (ok, states, transitions, output)."""
    rc, out = tlc(module, cfg, const=const, timeout=timeout, workers=workers, heap=heap)
    s, t = tlc_counts(out)
    ok = "Model checking completed. No error has been found." in out
    return ok, s, t, out


def behaviours(module, cfg, const=None, timeout=600, extra=()):
    """Behaviours (operation sequences) enumerated by TLC: the JSON the specification prints, one line each."""
    rc, out = tlc(module, cfg, const=const, timeout=timeout, workers="1", heap="6g", extra=extra)
    if "Error:" in out or ("No error has been found" not in out and not extra):
        raise Machinery(f"behaviour generation {module}: {out[-3000:]}")
    seqs = []
    for m in re.finditer(r'^"VBEH (.*)"$', out, re.M):
        seqs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    s, t = tlc_counts(out)
    return seqs, s, t
