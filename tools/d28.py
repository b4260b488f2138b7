"""Race-detector build of library and harness; where the detector cannot run, the address checker and the comparison of results remain."""
import os
from d25 import tsan_runs


def pick(rm, spec, out):
    os.makedirs(out, exist_ok=True)
    if tsan_runs(rm, out):
        return dict(spec, san="t")
    print("note: the race detector cannot run here; threads run under the address checker only")
    return dict(spec, san="a")


def run(rm, cid, spec, tier, seed, out):
    return rm.run_harness(cid, pick(rm, spec, out), tier, seed, out)


def replay(rm, cid, spec, fn):
    out = os.path.join(rm.BUILD, "replay-" + cid)
    sc = os.path.join(out, "scratch")
    os.makedirs(sc, exist_ok=True)
    exe, _ = rm.build_harness(cid, pick(rm, spec, out), out)
    r = rm.sh([exe, "replay", "--file", os.path.abspath(fn), "--out", out], env=dict(rm.ENV, VERIF_SCRATCH=sc), cwd=sc)
    print(r.stdout)
    return r.returncode
