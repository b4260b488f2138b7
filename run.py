#!/usr/bin/env python3
"""Driver: builds the library from /repo's current tree, builds one harness, runs it, writes the evidence file.

  run.py setup                      sanity-check the tool chain
  run.py check ID quick|thorough    decide one property
  run.py replay ID FILE             re-execute a recorded failing case
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
CXX = "g++"
BASE = ["-std=gnu++14", "-O1", "-g1", "-w", "-ffp-contract=off", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
        "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "shim"), "-I" + HARN]
ASAN = ["-fsanitize=address"]
TSAN = ["-fsanitize=thread", "-fno-toplevel-reorder"]  # keep static variables that are only written
UBSAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
TEST = ["-DBUILD_TESTS"]
LIBS = ["-lyaml-cpp", "-lpthread"]
ENV = dict(os.environ,
           ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1048576:malloc_fill_byte=203:"
                        "detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0:symbolize=1:"
                        "quarantine_size_mb=16:print_summary=1",
           UBSAN_OPTIONS="exitcode=77:print_stacktrace=0:halt_on_error=1", TSAN_OPTIONS="exitcode=77:halt_on_error=1:report_signal_unsafe=0", LC_ALL="C", TZ="UTC")

sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def repo_files():
    out = []
    for top in ("include", "src/cpu", "applications"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs]
    return out


def prune():
    """Keep the build cache small."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("lib-")]
        for d in sorted(ds, key=os.path.getmtime)[:-6]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build_lib(flags, tag):
    """Compile every library source of the current tree; content-addressed, so any change is rebuilt."""
    srcs = sorted(glob.glob(os.path.join(REPO, "src/cpu/**/*.cc"), recursive=True))
    if not srcs:
        raise BuildError("no library sources found")
    shim = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(VERIF, "shim")) for f in fs]
    key = tree_hash(repo_files() + shim, [flags, tag])
    d = os.path.join(BUILD, "lib-%s-%s" % (tag, key))
    lib = os.path.join(d, "libgals.a")
    if os.path.exists(lib):
        os.utime(d)
        return lib
    prune()
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)

    def one(ix):
        i, s = ix
        o = os.path.join(tmp, "o%03d.o" % i)
        r = sh([CXX] + flags + ["-c", s, "-o", o])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (s, r.stdout[-4000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(srcs)))
    r = sh(["ar", "rcs", os.path.join(tmp, "libgals.a")] + objs)
    if r.returncode:
        raise BuildError(r.stdout)
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return lib


def build_harness(cid, spec, out):
    san = spec.get("san", "u" if spec.get("ubsan") else "a")
    flags = BASE + dict(u=UBSAN, a=ASAN, t=TSAN)[san] + (TEST if spec.get("test", True) else [])
    flags += spec.get("flags", [])
    src = os.path.join(HARN, spec["src"])
    exe = os.path.join(out, "harness")
    obj = os.path.join(out, "harness.o")
    with ThreadPoolExecutor(4) as ex:
        futs = []
        if spec.get("lib", True):
            futs.append(ex.submit(build_lib, flags, san))

        def comp():
            # optional features of the tree are probed by compiling: a variant that does not compile is dropped
            last = None
            for var in spec.get("variants", [[]]):
                r = sh([CXX] + flags + var + ["-c", src, "-o", obj])
                if r.returncode == 0:
                    return var
                last = r.stdout
            raise BuildError("harness does not compile against the current tree:\n" + last[-4000:])
        hv = ex.submit(comp)
        libs = [f.result() for f in futs]
        var = hv.result()
    r = sh([CXX] + flags + [obj, "-o", exe] + libs + LIBS + spec.get("libs", []))
    if r.returncode:
        raise BuildError("link failed:\n" + r.stdout[-4000:])
    return exe, var


NUMBER = re.compile(r"(?<![\w.])((?:0[xX][0-9a-fA-F]+|\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)[fFuUlL]*(?![\w.])")
NOISE = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', re.S)


def literals():
    """How often each number occurs in the code under test."""
    n = {}
    for top in ("include", "src", "applications"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith((".h", ".cc", ".cpp", ".cu")):
                    continue
                with open(os.path.join(d, f), errors="replace") as fh:
                    t = NOISE.sub(" ", fh.read())
                for m in NUMBER.finditer(t):
                    v = float(int(m.group(1), 16) if m.group(1)[:2] in ("0x", "0X") else m.group(1))
                    if v < 1e15:
                        n[v] = n.get(v, 0) + 1
    return n


def dictionary():
    """Numbers for the generators to favour: see Dict in harness/pbt.h."""
    try:
        base = {float(k): v for k, v in json.load(open(os.path.join(VERIF, "tools", "literals.json"))).items()}
    except (OSError, ValueError):
        base = {}
    now = literals()
    new = sorted(v for v in now if v not in base)[:64]
    more = sorted(v for v in now if v in base and v > 3 and now[v] > base[v])[:16]
    return " ".join(["n:%r" % v for v in 4 * new + more] + ["b:%r" % v for v in sorted(now) if v not in new])


def known_findings(cid):
    """(finding lines for this property, patterns)"""
    out = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) pattern=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == cid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def check(cid, tier):
    t0 = time.time()
    spec = CHECKS[cid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    out = os.path.join(BUILD, "run-%s-%s" % (cid, tier))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if "driver" in spec:
        import importlib
        res = importlib.import_module(spec["driver"]).run(sys.modules[__name__], cid, spec, tier, seed, out)
    else:
        res = run_harness(cid, spec, tier, seed, out)
    return finish(cid, spec, tier, seed, out, res, t0)


def run_harness(cid, spec, tier, seed, out, extra_env=None):
    exe, var = build_harness(cid, spec, out)
    t = spec[tier]
    scratch = os.path.join(out, "scratch")
    os.makedirs(scratch, exist_ok=True)
    env = dict(ENV, VERIF_SCRATCH=scratch, PBT_DICT=dictionary(), **(extra_env or {}))
    cmd = [exe, "run", "--seed", str(seed), "--cases", str(t["cases"]), "--workers", str(spec.get("workers", 8)), "--out", out,
           "--time", str(t["time"]), "--shrink", "60", "--schedule", "1" if spec.get("schedule") else "0"]
    try:
        r = sh(cmd, env=env, cwd=scratch, timeout=t["time"] + 700)
    except subprocess.TimeoutExpired:
        raise BuildError("harness did not end")
    print(r.stdout.strip()[-3000:])
    res = json.load(open(os.path.join(out, "result.json")))
    res["variant"] = var
    res["shipped_only"] = "GS_SHIPPED_ONLY" in env
    labels, samples, hashes = {}, [], set()
    for f in glob.glob(os.path.join(out, "hashes.*")):
        b = open(f, "rb").read()
        hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    for f in sorted(glob.glob(os.path.join(out, "stats.*.json"))):
        try:
            s = json.load(open(f))
        except ValueError:
            continue
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += s["samples"][:1]
    res.update(labels=labels, samples=samples[:6], distinct=len(hashes))
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def finish(cid, spec, tier, seed, out, res, t0):
    violation = res["verdict"] == "violation"
    known = None
    if violation:
        for pat, desc in known_findings(cid):
            if pat.search(res["message"]):
                known = desc
    cov = dict(evaluations=res["evaluations"], distinct_nontrivial=res["distinct"], rule=res["rule"],
               samples=res["samples"] or ["(no sample recorded)"], nontrivial_evaluations=res["nontrivial"],
               discarded=res.get("discarded", 0), requested=res.get("requested"), classes=res.get("labels", {}),
               verdict=res["verdict"])
    if res.get("message"):
        cov["failure"] = res["message"][:2000]
    for k in ("variant", "extra", "shipped_only"):
        if res.get(k):
            cov[k] = res[k]
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=1 if violation and not known else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for pat, desc in known_findings(cid):
        print("KNOWN-FINDING: property=%s %s" % (cid, desc))
    if violation and not known:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s-seed%d.txt" % (cid, tier, seed))
        if res.get("replay") and os.path.exists(res["replay"]):
            shutil.copy(res["replay"], rp)
        else:
            with open(rp, "w") as f:
                f.write("property: %s\nmessage: %s\n%s\n" % (cid, res["message"], res.get("replay_text", "")))
        print("failure: " + res["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        cleanup(out)
        return 1
    cleanup(out)
    if res["verdict"] in ("pass",) or known:
        need = 1 if res.get("shipped_only") else spec.get("min_nontrivial", 50)
        if res["verdict"] == "pass" and res["distinct"] < need:
            print("error: only %d distinct non-trivial cases (need %d)" % (res["distinct"], need))
            return 2
        return 0
    print("no verdict: %s %s" % (res["verdict"], res.get("message", "")[:2000]))
    return 2


def cleanup(out):
    for f in glob.glob(os.path.join(out, "*")):
        if os.path.basename(f) in ("result.json", "replay.txt", "harness"):
            continue
        if os.path.isdir(f):
            shutil.rmtree(f, ignore_errors=True)
        else:
            os.unlink(f)


def main():
    os.makedirs(BUILD, exist_ok=True)
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for t in ([CXX, "--version"], ["ar", "--version"]):
            if sh(t).returncode:
                return 1
        build_lib(BASE + ASAN + TEST, "a")
        print("setup ok")
        return 0
    if a[:1] == ["check"] and len(a) == 3:
        return check(a[1], a[2])
    if a[:1] == ["replay"] and len(a) == 3:
        spec = CHECKS[a[1]]
        if "driver" in spec:
            import importlib
            return importlib.import_module(spec["driver"]).replay(sys.modules[__name__], a[1], spec, a[2])
        out = os.path.join(BUILD, "replay-" + a[1])
        os.makedirs(out, exist_ok=True)
        exe, _ = build_harness(a[1], spec, out)
        sc = os.path.join(out, "scratch")
        os.makedirs(sc, exist_ok=True)
        r = sh([exe, "replay", "--file", os.path.abspath(a[2]), "--out", out], env=dict(ENV, VERIF_SCRATCH=sc), cwd=sc)
        print(r.stdout)
        return r.returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("error: %s" % e)
        sys.exit(2)
