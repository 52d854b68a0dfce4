"""Shared machinery: running TLC, guarding calls into the code under test, reporting."""
import atexit
import warnings
import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("SVGIO_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
QUICK = TIER == "quick"
WORKERS = min(8, os.cpu_count() or 1)
JARS = os.environ.get(
    "TLA_CLASSPATH",
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
)

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

_scratch = None
_hangs = 0


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="svgio-verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class MachineryError(Exception):
    """The machinery itself failed: no verdict."""


class Hang(BaseException):
    """The code under test did not return in time."""


def _alarm(signum, frame):
    raise Hang("no result in time")


def guard(fn, *args, seconds=10.0, **kwargs):
    """Calls fn; raises Hang if it takes longer than it possibly should."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*args, **kwargs)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def attempt(fn, *args, **kwargs):
    """('ok', value) or ('exc', type name, text). Exceptions of the code under test are outcomes."""
    global _hangs
    try:
        # after a few calls that did not return the verdict is clear: waste no time on more of them
        kwargs.setdefault("seconds", 10.0 if _hangs < 2 else 1.0 if _hangs < 10 else 0.2)
        return ("ok", guard(fn, *args, **kwargs))
    except Hang:
        _hangs += 1
        return ("exc", "Hang", "no result in time")
    except RecursionError:
        return ("exc", "RecursionError", "")
    except MachineryError:
        raise
    except Exception as e:  # noqa
        return ("exc", type(e).__name__, str(e)[:200])


@contextlib.contextmanager
def bare():
    """As if numpy and scipy were not installed: what imports them meanwhile fails to."""
    names = [m for m in sys.modules if m.split(".")[0] in ("numpy", "scipy")]
    kept = {m: sys.modules[m] for m in names}
    for m in names + ["numpy", "scipy", "scipy.integrate", "scipy.special"]:
        sys.modules[m] = None
    try:
        yield
    finally:
        for m in ("numpy", "scipy", "scipy.integrate", "scipy.special"):
            del sys.modules[m]
        sys.modules.update(kept)


class TlcResult:
    def __init__(self):
        self.prints = []
        self.generated = 0
        self.distinct = 0
        self.seconds = 0.0
        self.error = None


def tlc(module, cfg, env=None, simulate=None, depth=None, workers=None, timeout=600, seed=None, heap="6g", expect_ok=True):
    """Runs TLC on spec/<module>.tla with the given configuration text; returns TlcResult.

    Lines printed by the specification as "@@<json>" are collected (decoded) in prints.
    A simulation is spread over one-worker processes with different seeds: workers of one process
    would all draw the same random elements."""
    if simulate is None:
        return _tlc(module, cfg, env, [], workers or WORKERS, timeout, heap, expect_ok)
    from concurrent.futures import ThreadPoolExecutor

    n = max(1, min(workers or WORKERS, simulate // 50))
    base = (SEED if seed is None else seed) * 1000

    def one(i):
        args = ["-simulate", "num=%d" % ((simulate + n - 1) // n), "-depth", str(depth or 100), "-seed", str(base + i)]
        return _tlc(module, cfg, env, args, 1, timeout, "2g", expect_ok)

    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(one, range(n)))
    r = TlcResult()
    for p in parts:
        r.prints += p.prints
        r.generated += p.generated
        r.distinct += p.distinct
        r.seconds = max(r.seconds, p.seconds)
        r.error = r.error or p.error
    return r


def _tlc(module, cfg, env, args, workers, timeout, heap, expect_ok):
    work = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cfgfile = os.path.join(work, module + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg if "CHECK_DEADLOCK" in cfg else cfg + "\nCHECK_DEADLOCK FALSE\n")
    gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
    cmd = [
        "java", gc, "-XX:TieredStopAtLevel=1", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC",
        "-noTE", "-workers", str(workers), "-metadir", os.path.join(work, "meta"),
        "-fp", "1", "-config", cfgfile,
    ] + args
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    out = os.path.join(work, "out.txt")
    t0 = time.time()
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=work, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC on %s ran longer than %ss" % (module, timeout))
    r = TlcResult()
    r.seconds = time.time() - t0
    other = []
    with open(out) as f:
        for line in f:
            if line.startswith('"@@'):
                r.prints.append(json.loads(json.loads(line)[2:]))
            else:
                other.append(line)
    text = "".join(other)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        r.generated = r.distinct = int(m.group(1))
    if rc != 0:
        r.error = "".join(x for x in text.splitlines(True) if not x.startswith(("Parsing file", "Semantic proc")))[-3000:]
        if expect_ok:
            raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, rc, r.error))
    shutil.rmtree(work, True)
    return r


def decide_records(check, module, cfg, records, texts):
    """Lets TLC decide every record with a trace specification (one initial state, 64 chunks, one state
    per record), and gives what it prints. A record that TLC cannot evaluate (found by halving) is no
    reading or result the specification admits: a violation."""
    r = tlc(module, cfg, env={"TRACE": write_ndjson(records)}, expect_ok=False)
    if r.error:
        bad = list(range(len(records)))
        while len(bad) > 1:
            half = bad[:len(bad) // 2]
            fails = tlc(module, cfg, env={"TRACE": write_ndjson([records[i] for i in half])}, expect_ok=False).error
            bad = half if fails else bad[len(half):]
        if not bad or not tlc(module, cfg, env={"TRACE": write_ndjson([records[bad[0]]])}, expect_ok=False).error:
            raise MachineryError("TLC failed on %s:\n%s" % (module, r.error))
        check.violation("beyond what the specification evaluates: " + texts[bad[0]], records[bad[0]])
        return [p for p in r.prints if "i" in p]
    check.add_tlc(r)
    if r.distinct != len(records) + 65:
        raise MachineryError("%d of %d records were decided" % (r.distinct - 65, len(records)))
    check.validated += len(records)
    return r.prints


def write_ndjson(records, name="trace.ndjson"):
    path = os.path.join(scratch(), "%s-%d" % (name, len(os.listdir(scratch()))))
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    return path


class Check:
    """One run of the check of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.cover = {}
        self.assumptions = []
        with open(os.path.join(ROOT, "known-findings.json")) as f:
            self.findings = [x for x in json.load(f)["findings"] if x["property"] == prop]

    # -- coverage
    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def tally(self, key, value, n=1):
        d = self.cover.setdefault(key, {})
        d[str(value)] = d.get(str(value), 0) + n

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, case, limit=6):
        if len(self.samples) < limit:
            self.samples.append(case)

    # -- verdicts
    def violation(self, what, case):
        """what: one line; case: JSON able description sufficient to replay it."""
        for k in self.findings:
            if k.get("case") == case:
                self.known.append((k["what"], case))
                return
        self.violations.append((what, case))

    def mc(self, module, cfg, **kw):
        """Model checks the specification on its own; a failure is a fault of the machinery."""
        r = tlc(module, cfg, **kw)
        self.add_tlc(r)
        return r

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(
            states=self.states, transitions=self.transitions,
            traces_validated_against_impl=self.validated,
            samples=self.samples[:6] or ["none"],
        )
        cov.update(self.cover)
        ev = dict(
            property=self.prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
            assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations),
        )
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for what in sorted(set(k for k, _ in self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if self.violations:
            os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
            path = os.path.join(ROOT, "out", self.prop + "-violation.json")
            with open(path, "w") as f:
                json.dump([dict(what=w, case=c) for w, c in self.violations[:50]], f, indent=1, default=str)
            for w, c in self.violations[:5]:
                print("  %s: %s" % (self.prop, w[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("%s: %d violations, %.1fs" % (self.prop, len(self.violations), wall))
            return 1
        print("%s ok: %d states, %d traces against the code, %.1fs" % (self.prop, self.states, self.validated, wall))
        return 0


def close(a, b, tol=1e-6):
    """Numbers equal within tol, relative to their size where it exceeds one."""
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def scaled(v, scale, tol=1e-6):
    """The integer v*scale, or the text of v if it is none: no specification has text there."""
    try:
        x = float(v) * scale
        n = round(x)
    except (TypeError, ValueError, OverflowError):
        return repr(v)
    if abs(x - n) <= tol * max(1.0, abs(x)) and abs(n) < 2 ** 31:
        return int(n)
    return repr(v)


def pool_map(fn, items, chunk=64):
    """Maps over items in parallel worker processes (fork), keeping order."""
    import multiprocessing as mp

    items = list(items)
    if len(items) < 64 or WORKERS == 1:
        return [fn(x) for x in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(WORKERS) as p:
        return p.map(fn, items, chunksize=max(1, min(chunk, len(items) // WORKERS + 1)))
