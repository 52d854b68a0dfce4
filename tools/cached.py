"""Development aid: runs one check with TLC's output kept between runs (only runs that read no trace of the code)."""
import hashlib, os, pickle, sys
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
sys.path.insert(0, H)
sys.argv = ["check.py"] + sys.argv[1:]
import common
common.WORKERS = int(os.environ.get("MUT_WORKERS", "1"))
CACHE = os.environ.get("MUT_CACHE", "/tmp/tlccache")
os.makedirs(CACHE, exist_ok=True)
real = common._tlc
spec = hashlib.sha1(b"".join(open(os.path.join(common.SPEC, f), "rb").read() for f in sorted(os.listdir(common.SPEC)))).hexdigest()
def cached(module, cfg, env, args, workers, timeout, heap, expect_ok):
    if env:
        return real(module, cfg, env, args, workers, timeout, heap, expect_ok)
    k = hashlib.sha1(repr((spec, module, cfg, args)).encode()).hexdigest()
    p = os.path.join(CACHE, k)
    if os.path.exists(p):
        return pickle.load(open(p, "rb"))
    r = real(module, cfg, env, args, workers, timeout, heap, expect_ok)
    pickle.dump(r, open(p + ".%d" % os.getpid(), "wb"))
    os.replace(p + ".%d" % os.getpid(), p)
    return r
common._tlc = cached
_t = common.tlc
def tlc(*a, **k):
    w = common.WORKERS
    common.WORKERS = 8
    try:
        return _t(*a, **k)
    finally:
        common.WORKERS = w
common.tlc = tlc
real_open = open
common.ROOT_EVIDENCE = None
import check
rc = check.main()
sys.stdout.flush()
os._exit(rc)
