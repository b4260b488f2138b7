"""Builds the two sides of the production/test differential and runs the comparison harness."""
import os
PIC = ["-fPIC", "-fvisibility=hidden", "-fno-gnu-unique"]


def sides(rm, out):
    env = {}
    for tag, extra in (("TEST", rm.TEST), ("PROD", [])):
        flags = rm.BASE + rm.ASAN + PIC + extra
        lib = rm.build_lib(flags, "p" + tag[0].lower())
        so = os.path.join(out, "side_%s.so" % tag)
        r = rm.sh([rm.CXX] + flags + ["-shared", os.path.join(rm.HARN, "c22_side.cc"), "-o", so, lib, "-Wl,-Bsymbolic"] + rm.LIBS)
        if r.returncode:
            raise rm.BuildError("side %s does not build:\n%s" % (tag, r.stdout[-3000:]))
        env["C22_" + tag] = so
    return env


def run(rm, cid, spec, tier, seed, out):
    return rm.run_harness(cid, spec, tier, seed, out, extra_env=sides(rm, out))


def replay(rm, cid, spec, fn):
    out = os.path.join(rm.BUILD, "replay-" + cid)
    os.makedirs(os.path.join(out, "scratch"), exist_ok=True)
    env = dict(rm.ENV, VERIF_SCRATCH=os.path.join(out, "scratch"), **sides(rm, out))
    exe, _ = rm.build_harness(cid, spec, out)
    r = rm.sh([exe, "replay", "--file", os.path.abspath(fn), "--out", out], env=env, cwd=os.path.join(out, "scratch"))
    print(r.stdout)
    return r.returncode
