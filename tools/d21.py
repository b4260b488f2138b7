"""Builds the advection program (production build, sanitized) from the current tree and runs the end-to-end harness."""
import glob, os


def app(rm, out):
    flags = rm.BASE + rm.ASAN
    lib = rm.build_lib(flags, "n")
    exe = os.path.join(out, "app")
    src = sorted(glob.glob(os.path.join(rm.REPO, "applications/advection/*.cc")) + glob.glob(os.path.join(rm.REPO, "applications/advection/*.cpp")))
    r = rm.sh([rm.CXX] + flags + ["-I" + os.path.join(rm.REPO, "applications/advection"), "-I" + os.path.join(rm.REPO, "src")] + src + ["-o", exe, lib] + rm.LIBS)
    if r.returncode:
        raise rm.BuildError("the advection program does not build:\n" + r.stdout[-3000:])
    return {"C21_APP": exe}


def run(rm, cid, spec, tier, seed, out):
    return rm.run_harness(cid, spec, tier, seed, out, extra_env=app(rm, out))


def replay(rm, cid, spec, fn):
    out = os.path.join(rm.BUILD, "replay-" + cid)
    sc = os.path.join(out, "scratch")
    os.makedirs(sc, exist_ok=True)
    env = dict(rm.ENV, VERIF_SCRATCH=sc, **app(rm, out))
    exe, _ = rm.build_harness(cid, spec, out)
    r = rm.sh([exe, "replay", "--file", os.path.abspath(fn), "--out", out], env=env, cwd=sc)
    print(r.stdout)
    return r.returncode
