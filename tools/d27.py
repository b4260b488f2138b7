"""Builds the serial and the CUDA reference program, the latter on the host.

In a scratch copy the settings are taken from the environment (as for C25) and every kernel<<<grid, block>>>(arguments) becomes
a call of the stand-in's launcher; everything else is compiled as it stands against harness/cuda_shim.
"""
import glob, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import d25


def launches(t):
    return re.sub(r"([A-Za-z_][\w:]*(?:\s*<[^<>;(){}]*>)?)\s*<<<(.*?)>>>", lambda m: "::cuda_shim::launch(::cuda_shim::Cfg(%s), [&](auto&&... a_) { %s(a_...); })" % (m.group(2), m.group(1)), t, flags=re.S)


def programs(rm, out):
    try:
        return build(rm, out, True)
    except rm.BuildError as e:
        env = build(rm, out, False)
        print("note: the settings cannot be taken from outside (%s); the programs run with the settings they ship with" % str(e).strip().splitlines()[0])
        return dict(env, GS_SHIPPED_ONLY="1")


def build(rm, out, substitute):
    src = os.path.join(rm.REPO, "src/reference")
    cp = os.path.join(out, "reference")
    shutil.rmtree(cp, ignore_errors=True)
    shutil.copytree(src, cp)
    need = set(d25.NUM + d25.INT)
    sync = False
    for d, main in ((os.path.join(cp, "SerialCode"), "GALS_Advection.cpp"), (os.path.join(cp, "CUDA"), "GALS_Advection.cu")):
        seen = set()
        files = [os.path.join(d, main)] + sorted(set(glob.glob(os.path.join(d, "*.h")) + glob.glob(os.path.join(d, "*.cu*"))) - {os.path.join(d, main)})
        uses_setting = re.search(r'#\s*include\s*[<"][^">]*Setting', d25.strip_comments(open(files[0], errors="replace").read()))
        for fn in files:
            t = d25.strip_comments(open(fn, errors="replace").read())
            if substitute and (fn == files[0] or (os.path.basename(fn).startswith("Setting") and uses_setting)):
                t, s = d25.settings(t, d25.INT + ["TileSize"])
                seen |= s
            sync |= "__syncthreads" in t
            open(fn, "w").write(launches(t))
        if substitute and not need <= seen:
            raise rm.BuildError("settings not found in %s: %s" % (d, sorted(need - seen)))
    open(os.path.join(cp, "pre.h"), "w").write("#include <stdlib.h>\n#include <string.h>\n#include <cstdio>\n#include <cmath>\n#include <algorithm>\n#include <chrono>\n#include <string>\n")
    flags = ["-std=gnu++17", "-O1", "-g1", "-w", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(cp, "pre.h"), "-fsanitize=address", "-ftrivial-auto-var-init=pattern"]
    cuda = ["-I" + os.path.join(rm.HARN, "cuda_shim"), "-include", os.path.join(rm.HARN, "cuda_shim", "cuda.h"), "-x", "c++"] + (["-DCUDA_BLOCK_THREADS"] if sync else [])
    jobs = [("serial", os.path.join(cp, "SerialCode/GALS_Advection.cpp"), []), ("cuda", os.path.join(cp, "CUDA/GALS_Advection.cu"), cuda)]

    def one(j):
        name, s, extra = j
        exe = os.path.join(out, name)
        r = rm.sh([rm.CXX] + flags + extra + [s, "-o", exe, "-lpthread"])
        if r.returncode:
            raise rm.BuildError("%s does not compile:\n%s" % (s, r.stdout[-3000:]))
        return name, exe
    with ThreadPoolExecutor(2) as ex:
        env = {"C27_" + n.upper(): e for n, e in ex.map(one, jobs)}
    shutil.rmtree(cp, ignore_errors=True)
    return env


def run(rm, cid, spec, tier, seed, out):
    return rm.run_harness(cid, spec, tier, seed, out, extra_env=programs(rm, out))


def replay(rm, cid, spec, fn):
    return d25.replay(rm, cid, spec, fn, programs)
