#!/opt/venv/bin/python
"""quickly.py CACHE ID...: runs quick checks with the runs of TLC remembered in CACHE (for trying many changes to the code).

The outputs of the specification do not depend on the code, so they may be used again.  Stops at the first
violation and prints it.  NDM_REPO names the tree under test, QUICKLY_PART = n takes every nth case only.
"""
import glob
import hashlib
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
CACHE = sys.argv[1]

from harness import engine, registry, tlc  # noqa: E402


def cached(self, module, **kw):
    env = kw["env"]
    plan = next(v for k, v in env.items() if k.endswith("PLAN"))
    out = next(v for k, v in env.items() if k.endswith("OUT"))
    h = hashlib.sha1()
    for p in [plan, *sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla")))]:
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr((module, kw.get("args"))).encode())
    d = os.path.join(CACHE, h.hexdigest())
    if os.path.exists(d + ".done"):
        if os.path.isdir(d):
            shutil.rmtree(out, ignore_errors=True)
            os.symlink(d, out)
        else:
            shutil.copy(d, out)
        return None
    r = tlc.check(module, **kw)
    part = "%s.%d" % (d, os.getpid())  # others may be making the same
    shutil.copytree(out, part) if os.path.isdir(out) else shutil.copy(out, part)
    try:
        os.rename(part, d)
    except OSError:  # another one was faster
        shutil.rmtree(part, ignore_errors=True)
    open(d + ".done", "w").close()
    return r


engine.Check.tlc = cached
PART = int(os.environ.get("QUICKLY_PART", "1"))
if PART > 1:  # a part of everything
    from harness import api, combined, detect, malformed  # noqa: E402,F401
    all_parallel, all_histories = engine.parallel, api.histories
    engine.parallel = lambda fn, items, **kw: all_parallel(fn, list(items)[::PART] if len(items) > 3 * PART else items, **kw)
    api.histories = lambda *a, **kw: all_histories(*a, **kw)[::PART]
engine.EVIDENCE = os.path.join(CACHE, "evidence-%d" % os.getpid())
if __name__ == "__main__":
    os.makedirs(CACHE, exist_ok=True)
    for pid in sys.argv[2:]:
        t = time.time()
        ck = engine.Check(pid)
        try:
            registry.run(pid, ck)
        except Exception:
            traceback.print_exc()
            print("%s ERROR %.1f" % (pid, time.time() - t))
            sys.exit(3)
        finally:
            ck.cleanup()
        if ck.violations:
            print("%s CAUGHT %.1f %s: %s" % ((pid, time.time() - t) + ck.violations[0][:2]))
            sys.exit(1)
        print("%s held %.1f" % (pid, time.time() - t), flush=True)
