"""Planted bugs: tools/plant.py build | test [ID ...]

seeds.py lists (id, property, file, old text, new text, needs, what it breaks, demo).  'build' writes
/verif/seeded/<id>/; 'test' confirms each in a scratch copy of /repo: the patch applies to lines of the
original repository, the stable tests pass, the demo tells the two trees apart, and whether the check of
the property catches it.
"""
import difflib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
sys.path.insert(0, HERE)
DEMO = '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def build():
    from seeds import SEEDS
    for sid, prop, edits, needs, breaks, demo in SEEDS:
        if demo == "pass\n":
            continue
        d = os.path.join(SEEDED, sid)
        os.makedirs(d, exist_ok=True)
        patch = ""
        for file in sorted({e[0] for e in edits}):
            src = open("/repo/" + file, encoding="utf-8").read()
            new = src
            for f, old, rep in edits:
                if f != file:
                    continue
                if new.count(old) != 1:
                    sys.exit("%s: %d matches of %r" % (sid, new.count(old), old))
                new = new.replace(old, rep)
            patch += "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + file, "b/" + file))
        open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(demo.lstrip("\n"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def original_lines(wd, patch):
    """Does the patch change a line the base commit already had?"""
    import re
    f, n = None, 0
    for l in open(patch, encoding="utf-8"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith(("-", " ")) and not l.startswith("---"):
            if l[0] == "-" and l[1:].strip() and blame[n - 1].lstrip("^").startswith(BASE[:30]):
                return True
            n += 1
    return False


def test(sid):
    d = os.path.join(SEEDED, sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    wd = "/tmp/plant/" + sid
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.copytree("/repo", wd, ignore=shutil.ignore_patterns("__pycache__"))
    out = []
    rc, o = sh([d + "/demo.sh"], wd, timeout=300)
    if rc:
        out.append("DEMO FAILS CLEAN: " + o[-300:])
    rc, o = sh(["git", "apply", d + "/patch.diff"], wd)
    if rc:
        return sid, prop, "NO APPLY " + o
    if not original_lines(wd, d + "/patch.diff"):
        out.append("ONLY NEW LINES")
    rc, o = sh([d + "/demo.sh"], wd, timeout=300)
    if rc == 0:
        out.append("DEMO MISSES")
    if os.environ.get("PLANT_TESTS", "1") == "1":
        rc, o = sh([PY, "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "--tb=line", "-x" if 0 else "-q", "--junitxml=/tmp/plant/%s.xml" % sid, "-o", "junit_family=xunit2"], wd,
                   {"PYTHONPATH": "/opt/vp/plugins:" + wd})
        import xml.etree.ElementTree as ET
        ok = set()
        try:
            for c in ET.parse("/tmp/plant/%s.xml" % sid).getroot().iter("testcase"):
                if not any(x.tag in ("failure", "error", "skipped") for x in c):
                    ok.add(c.get("classname") + "::" + c.get("name"))
        except Exception as ex:
            out.append("NO TEST RESULT %r %s" % (ex, o[-200:]))
        global CLEAN
        lost = CLEAN - ok if CLEAN else set()
        if lost:
            out.append("TESTS LOST %s" % sorted(lost)[:4])
        if sid == "clean":
            CLEAN = ok
    t = time.time()
    rc, o = sh([os.path.join(VERIF, "check"), prop], VERIF, {"SVGIO_REPO": wd, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": "/tmp/plant/ev"})
    hit = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    out.append("%s rc=%d %.0fs %s" % ("CAUGHT" if rc == 1 and hit else "MISSED", rc, time.time() - t, hit[0][:150] if hit else o[-200:]))
    shutil.rmtree(wd, ignore_errors=True)
    return sid, prop, " | ".join(out)


CLEAN = set()


def clean():
    x = "/tmp/plant/clean.xml"
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.exists(x):
        sh([PY, "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "--junitxml=" + x, "-o", "junit_family=xunit2"], "/repo", {"PYTHONPATH": "/opt/vp/plugins:/repo"})
    import xml.etree.ElementTree as ET
    return {c.get("classname") + "::" + c.get("name") for c in ET.parse(x).getroot().iter("testcase") if not any(y.tag in ("failure", "error", "skipped") for y in c)}


if __name__ == "__main__":
    if sys.argv[1] == "build":
        build()
    else:
        CLEAN = clean()
        print(len(CLEAN), "tests pass unchanged")
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get("PLANT_PAR", "4"))) as ex:
            for r in ex.map(test, ids):
                print("%-14s %-4s %s" % r, flush=True)
