"""Runner: executes workloads against the real dustmaker code under monitors.

A check module defines
    PID        property id
    RULE       how cases are made / what makes one non-trivial
    WORKLOADS  list of Workload(name, fn, quick, thorough)
    REQUIRED   {counter name: minimum} the deciding monitors must have seen
fn(ctx) drives the code for one case and calls ctx.check / ctx.fail.
Every random choice comes from ctx.rng, seeded by (VERIF_SEED, property,
workload, index), so a case is replayed by naming those four.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import selectors
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_S = 60             # watchdog: firing is not a verdict by itself
STEP_BUDGET = 300_000_000   # dustmaker line events allowed when re-run by steps
STEP_CPU_S = 400


class Violation(Exception):
    """An oracle refuted the property on an observed execution."""


class CaseTimeout(BaseException):
    """The per-case watchdog fired."""


class StepsExceeded(BaseException):
    """The logical step budget was exceeded."""


class Workload:
    def __init__(self, name, fn, quick, thorough, repeat=True):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


def import_repo():
    """Import dustmaker from the repository's working tree, never a cache."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vf-no-pycache-%d" % os.getpid())
    sys.path.insert(0, REPO)
    import dustmaker  # noqa
    where = os.path.dirname(os.path.dirname(os.path.abspath(dustmaker.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError("imported dustmaker from %s instead of %s" % (where, REPO))


class Ctx:
    """What a case sees: randomness, counters, oracle verdicts."""

    def __init__(self, pid, seed, tier, workload, index):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.workload, self.index = workload, index
        self.rng = random.Random("%s:%s:%s:%s" % (seed, pid, workload, index))
        self.counters = {}
        self.fps = set()
        self.samples = []
        self.trace = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, obj):
        """Record a distinct non-trivial case (by content)."""
        if not isinstance(obj, (bytes, bytearray)):
            obj = repr(obj).encode("utf8", "replace")
        self.fps.add(hashlib.blake2b(obj, digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            s = repr(obj)
            self.samples.append(s if len(s) < 600 else s[:600] + "...")

    def log(self, *what):
        """Event log of the case, kept for the witness."""
        if len(self.trace) < 4000:
            self.trace.append(what)

    def fail(self, msg, *detail):
        raise Violation(msg + "".join("\n    " + _short(d) for d in detail))

    def check(self, cond, msg, *detail):
        self.count("oracle_evaluations")
        if not cond:
            self.fail(msg, *detail)

    def equal(self, got, want, msg, *detail):
        self.count("oracle_evaluations")
        if got != want:
            d = diff(got, want)
            self.fail(msg, "got  %s" % _short(got), "want %s" % _short(want), "first difference: %s" % d, *detail)

    def raises(self, exc, fn, msg, *detail):
        self.count("oracle_evaluations")
        try:
            r = fn()
        except exc:
            self.count("refusals_observed")
            return
        self.fail(msg, "returned %s" % _short(r), *detail)


def _short(d, n=500):
    s = d if isinstance(d, str) else repr(d)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def diff(a, b, path="$"):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return "%s: types %s / %s: %s / %s" % (path, type(a).__name__, type(b).__name__, _short(a, 200), _short(b, 200))
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return "%s: unexpected key %r" % (path, k)
        for k in b:
            if k not in a:
                return "%s: missing key %r" % (path, k)
        for k in a:
            if a[k] != b[k]:
                return diff(a[k], b[k], "%s[%r]" % (path, k))
        return "%s: (equal?)" % path
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d / %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, "%s[%d]" % (path, i))
        return "%s: (equal?)" % path
    if isinstance(a, (bytes, bytearray)):
        if len(a) != len(b):
            pre = "lengths %d / %d, " % (len(a), len(b))
        else:
            pre = ""
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "%s: %sbyte %d: %02x / %02x" % (path, pre, i, x, y)
        return "%s: %s" % (path, pre)
    return "%s: %s / %s" % (path, _short(a, 300), _short(b, 300))


# ---------------------------------------------------------------- monitors
class LineMonitor:
    """Which lines of dustmaker the workload reached (sys.monitoring)."""
    TOOL = 4

    def __init__(self):
        self.lines = set()
        self.root = os.path.realpath(os.path.join(REPO, "dustmaker")) + os.sep

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "vf-lines")
        except ValueError:
            return
        root, lines = self.root, self.lines

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(root) or os.path.realpath(fn).startswith(root):
                lines.add((os.path.relpath(os.path.realpath(fn), root), line))
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)


class StepMonitor:
    """Counts dustmaker line events: decides hang against slow machine."""
    def __init__(self, budget, tool=3):
        self.budget, self.steps, self.TOOL = budget, 0, tool

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vf-steps")
        root = os.path.realpath(os.path.join(REPO, "dustmaker")) + os.sep
        isrepo = {}

        def on_line(code, line):
            r = isrepo.get(code)
            if r is None:
                r = isrepo[code] = os.path.realpath(code.co_filename).startswith(root)
            if not r:
                return mon.DISABLE
            self.steps += 1
            if self.steps > self.budget:
                raise StepsExceeded()

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.restart_events()
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        return False


# ---------------------------------------------------------------- running
def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(wl, pid, seed, tier, index, cpu=CASE_CPU_S, budget=STEP_BUDGET):
    """-> (ctx, verdict, text), verdict in held / violated / inconclusive"""
    ctx = Ctx(pid, seed, tier, wl.name, index)
    signal.signal(signal.SIGPROF, _alarm)
    try:
        signal.setitimer(signal.ITIMER_PROF, cpu)
        try:
            wl.fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return ctx, "held", ""
    except CaseTimeout:
        pass
    except Exception:
        return ctx, "violated", traceback.format_exc(limit=-12)
    # Slow or hung: decide by logical steps.
    ctx = Ctx(pid, seed, tier, wl.name, index)
    try:
        signal.setitimer(signal.ITIMER_PROF, STEP_CPU_S)
        try:
            with StepMonitor(budget) as sm:
                wl.fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return ctx, "held", ""
    except CaseTimeout:
        return ctx, "inconclusive", "watchdog fired twice after %d steps" % sm.steps
    except StepsExceeded:
        return ctx, "violated", "no end after %d executed dustmaker lines (hang or unbounded work)" % budget
    except Exception:
        return ctx, "violated", traceback.format_exc(limit=-12)


def _worker(args):
    pid, seed, tier, wname, indices = args
    mod = _worker.mod
    wl = next(w for w in mod.WORKLOADS if w.name == wname)
    counters, fps, samples, bad = {}, set(), [], []
    for i in indices:
        t0 = time.process_time()
        ctx, verdict, text = run_case(wl, pid, seed, tier, i, *getattr(mod, 'LIMITS', ()))
        cpu = time.process_time() - t0
        if cpu > 3 and os.environ.get("VERIF_TIMES"):
            print("slow case %s %s %d: %.1f s" % (pid, wname, i, cpu), flush=True)
        for k, v in ctx.counters.items():
            counters[k] = counters.get(k, 0) + v
        fps |= ctx.fps
        if i == indices[0] and ctx.samples:
            samples.append({"workload": wname, "index": i, "case": ctx.samples[0]})
        if verdict != "held":
            bad.append({"workload": wname, "index": i, "verdict": verdict, "text": text, "hang": cpu > CASE_CPU_S,
                        "events": [repr(t)[:300] for t in ctx.trace[-200:]]})
            if len(bad) >= 3 or cpu > 20:
                break
    return wname, len(indices), counters, fps, samples, bad, _worker.lm.lines


def _init(mod):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    _worker.mod = mod
    _worker.lm = LineMonitor()
    _worker.lm.start()


class Crew:
    """Worker processes drawing jobs from a shared pipe.  Ending is by kill, so
    stopping early never waits for a worker."""
    STALL_S = 600

    def __init__(self, mod, jobs, n):
        self.mod, self.jobs, self.n, self.lost = mod, jobs, n, 0

    def __enter__(self):
        self.scratch = tempfile.mkdtemp(prefix="vf-run-")
        tempfile.tempdir = self.scratch
        sys.stdout.flush()
        sys.stderr.flush()
        self.pids, self.pipes = [], []
        qr, qw = os.pipe()
        per = 8192                      # job numbers fit the pipe's buffer
        assert len(self.jobs) <= per
        os.write(qw, b"".join(struct.pack("<I", i) for i in range(len(self.jobs))))
        os.close(qw)
        for _ in range(self.n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for p in self.pipes:
                        os.close(p)
                    self._child(qr, w)
                finally:
                    os._exit(0)
            os.close(w)
            self.pids.append(pid)
            self.pipes.append(r)
        os.close(qr)
        return self

    def _child(self, qr, w):
        _init(self.mod)
        out = os.fdopen(w, "wb")
        while True:
            rec = os.read(qr, 4)
            if len(rec) < 4:
                break
            res = pickle.dumps(_worker(self.jobs[struct.unpack("<I", rec)[0]]))
            out.write(struct.pack("<Q", len(res)) + res)
            out.flush()
        out.write(struct.pack("<Q", 0))
        out.flush()

    def results(self):
        sel = selectors.DefaultSelector()
        for p in self.pipes:
            sel.register(p, selectors.EVENT_READ, bytearray())
        while sel.get_map():
            ready = sel.select(self.STALL_S)
            if not ready:
                self.lost += len(sel.get_map())
                return
            for key, _ in ready:
                chunk = os.read(key.fd, 1 << 20)
                buf = key.data
                if not chunk:
                    sel.unregister(key.fd)
                    continue
                buf += chunk
                while len(buf) >= 8:
                    n = struct.unpack_from("<Q", buf)[0]
                    if n == 0:
                        del buf[:8]
                        sel.unregister(key.fd)
                        self.n -= 1
                        break
                    if len(buf) < 8 + n:
                        break
                    res = pickle.loads(bytes(buf[8:8 + n]))
                    del buf[:8 + n]
                    yield res
        self.lost = self.n

    def __exit__(self, *a):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in self.pids:
            os.waitpid(pid, 0)
        for p in self.pipes:
            os.close(p)
        tempfile.tempdir = None
        shutil.rmtree(self.scratch, ignore_errors=True)
        return False


def known_findings(pid):
    """Lines 'known: property=<id> key=<mechanism> <text>' of the committed file."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key = rest.split(" ", 1)[0].split("=", 1)[1]
                out[key] = rest.strip()
    return out


def executable_lines():
    """Number of executable lines per dustmaker file of the current tree."""
    res = {}
    root = os.path.realpath(os.path.join(REPO, "dustmaker"))
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                lines = set()
                todo = [compile(open(p, encoding="utf8").read(), p, "exec")]
                while todo:
                    c = todo.pop()
                    lines |= {l for _, _, l in c.co_lines() if l}
                    todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
                res[os.path.relpath(p, root)] = len(lines)
    return res


def main(mod, argv):
    t0 = time.time()
    pid = mod.PID
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--replay" in argv:
        rec = json.load(open(argv[argv.index("--replay") + 1]))
        _init(mod)
        wl = next(w for w in mod.WORKLOADS if w.name == rec["workload"])
        ctx, verdict, text = run_case(wl, pid, rec["seed"], rec["tier"], rec["index"], *getattr(mod, "LIMITS", ()))
        print(verdict, text)
        for t in ctx.trace[-50:]:
            print("  event", repr(t)[:300])
        return 1 if verdict == "violated" else 0

    only = argv[argv.index("--workload") + 1] if "--workload" in argv else None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    jobs = []
    for wl in mod.WORKLOADS:
        if only and wl.name != only:
            continue
        n = wl.quick if tier == "quick" else wl.thorough
        n = max(1, int(n * scale))
        per = max(1, min(200, n // 32))
        for a in range(0, n, per):
            jobs.append((pid, seed, tier, wl.name, list(range(a, min(n, a + per)))))
    random.Random(seed).shuffle(jobs)

    counters, fps, samples, bad, lines, evals, perwl = {}, set(), [], [], set(), 0, {}
    ncpu = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    lost = 0
    with Crew(mod, jobs, min(ncpu, len(jobs))) as crew:
        for wname, n, c, f, s, b, ln in crew.results():
            evals += n
            perwl[wname] = perwl.get(wname, 0) + n
            for k, v in c.items():
                counters[k] = counters.get(k, 0) + v
            fps |= f
            samples += s
            bad += b
            lines |= ln
            viol = [x for x in bad if x["verdict"] == "violated"]
            if len(viol) >= 8 or any(x.get("hang") for x in viol) or (viol and time.time() - t0 > 240):
                break
        lost = crew.lost
    if lost:
        bad.append({"workload": "?", "index": -1, "verdict": "inconclusive", "text": "%d worker(s) ended early" % lost, "events": []})

    known = known_findings(pid)
    violations, hit_known = [], {}
    for b in bad:
        if b["verdict"] != "violated":
            continue
        key = mod.classify(b) if hasattr(mod, "classify") else None
        if key is not None and key in known:
            hit_known.setdefault(key, b)
        else:
            violations.append(b)
    inconclusive = [b for b in bad if b["verdict"] == "inconclusive"]

    byfile = {}
    for fn, _ in lines:
        byfile[fn] = byfile.get(fn, 0) + 1
    total = executable_lines()
    samples.sort(key=lambda s: (s["workload"], s["index"]))
    pick, seenw = [], {}
    for s in samples:
        if seenw.get(s["workload"], 0) < 1:
            seenw[s["workload"]] = 1
            pick.append(s)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(fps),
            "rule": mod.RULE,
            "samples": pick[:12] or ["(no sample)"],
            "cases_per_workload": perwl,
            "monitor_events": dict(sorted(counters.items())),
            "dustmaker_lines_reached": {k: "%d/%d" % (v, total.get(k, 0)) for k, v in sorted(byfile.items())},
            "inconclusive_cases": len(inconclusive),
            "exhaustive": False,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=repr)

    for key, b in sorted(hit_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key]))
    if violations:
        violations.sort(key=lambda b: (b["workload"], b["index"]))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for b in violations[:3]:
            path = os.path.join(VERIF, "replays", "%s-%s-%d-%d.json" % (pid, b["workload"], seed, b["index"]))
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, **b}, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  workload=%s case=%d (python3 check.py %s --replay %s)" % (b["workload"], b["index"], pid, path))
            print("  " + b["text"].strip().replace("\n", "\n  ")[-3000:])
        return 1
    short = [(k, counters.get(k, 0), v) for k, v in getattr(mod, "REQUIRED", {}).items() if counters.get(k, 0) < v * min(1, scale)]
    if only is None and (short or len(inconclusive) > max(2, evals // 50)):
        print("INCONCLUSIVE property=%s: monitors saw too little: %s; %d inconclusive cases" % (pid, short, len(inconclusive)))
        return 2
    print("HELD property=%s on %d executions (%d distinct non-trivial), %d oracle evaluations, %.1f s" % (
        pid, evals, len(fps), counters.get("oracle_evaluations", 0), time.time() - t0))
    return 0
