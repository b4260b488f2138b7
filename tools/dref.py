"""Compiles the committed copies of the reference headers behind one interface and links them with the harness."""
import os
from concurrent.futures import ThreadPoolExecutor

COPIES = (("R1", "sideRef", "reference", "src/reference", []), ("R2", "sideSerial", "SerialCode", "src/reference/SerialCode", []),
          ("R3", "sideOld", "OldSerialCode", "src/reference/OldSerialCode", ["-DSIDE_OLD"]))


def objects(rm, out):
    os.makedirs(out, exist_ok=True)

    def one(c):
        ns, fn, name, d, extra = c
        o = os.path.join(out, "side_%s.o" % ns)
        r = rm.sh([rm.CXX] + rm.BASE + rm.ASAN + extra + ["-DSIDE=" + ns, "-DSIDEFN=" + fn, '-DSIDENAME="%s"' % name, "-I" + os.path.join(rm.REPO, d), "-c", os.path.join(rm.HARN, "ref_side.cc"), "-o", o])
        if r.returncode:
            raise rm.BuildError("the reference headers of %s do not compile:\n%s" % (d, r.stdout[-3000:]))
        return o
    with ThreadPoolExecutor(3) as ex:
        return list(ex.map(one, COPIES))


def run(rm, cid, spec, tier, seed, out):
    return rm.run_harness(cid, dict(spec, libs=objects(rm, out) + spec.get("libs", [])), tier, seed, out)


def replay(rm, cid, spec, fn):
    out = os.path.join(rm.BUILD, "replay-" + cid)
    sc = os.path.join(out, "scratch")
    os.makedirs(sc, exist_ok=True)
    exe, _ = rm.build_harness(cid, dict(spec, libs=objects(rm, out) + spec.get("libs", [])), out)
    r = rm.sh([exe, "replay", "--file", os.path.abspath(fn), "--out", out], env=dict(rm.ENV, VERIF_SCRATCH=sc), cwd=sc)
    print(r.stdout)
    return r.returncode
