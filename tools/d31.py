"""The serial reference program (settings from the environment, see d25) next to the functions it is made of."""
import os
import d25, dref


def parts(rm, spec, out):
    os.makedirs(out, exist_ok=True)
    env = d25.programs(rm, out, only=("serial",))
    return dict(spec, libs=dref.objects(rm, out) + spec.get("libs", [])), env


def run(rm, cid, spec, tier, seed, out):
    spec, env = parts(rm, spec, out)
    return rm.run_harness(cid, spec, tier, seed, out, extra_env=env)


def replay(rm, cid, spec, fn):
    out = os.path.join(rm.BUILD, "replay-" + cid)
    sc = os.path.join(out, "scratch")
    os.makedirs(sc, exist_ok=True)
    spec, env = parts(rm, spec, out)
    exe, _ = rm.build_harness(cid, spec, out)
    r = rm.sh([exe, "replay", "--file", os.path.abspath(fn), "--out", out], env=dict(rm.ENV, VERIF_SCRATCH=sc, **env), cwd=sc)
    print(r.stdout)
    return r.returncode
