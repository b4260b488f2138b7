"""Builds the reference programs from the current tree with settings taken from the environment, then runs the differential.

The programs' settings are compile-time declarations (Setting.h, and a block in the serial program).  A scratch copy of
src/reference is made in which exactly these initialisers are replaced by look-ups of environment variables, with the initialiser as the
default; everything else is compiled as it stands.
"""
import glob, os, re, shutil
from concurrent.futures import ThreadPoolExecutor

NUM = ["xlim1", "xlim2", "ylim1", "ylim2", "dt", "Tfinal", "T_period"]
INT = ["nx", "ny", "option", "printstep"]
TXT = ["psischeme", "backtrace_scheme"]


def strip_comments(t):
    return re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/', lambda m: m.group(0) if m.group(0)[0] in "\"'" else " ", t, flags=re.S)


def settings(text, ints=tuple(INT)):
    """Replace the initialisers; returns (text, names replaced)."""
    text = strip_comments(text)
    seen = set()
    main = re.search(r"\bmain\s*\(", text)
    main = main.start() if main else 0
    init = r"(?:=(?!=)\s*((?:[^;,()]|\((?:[^()]|\([^()]*\))*\))*)|\{([^;{}]*)\}|\(([^;()]*)\))"
    for v in NUM + list(ints):
        found = []
        for m in re.finditer(r"(?<![\w.>])(?<!#define )%s\s*%s(?=\s*[;,])" % (v, init), text):
            val = next((g for g in m.groups() if g is not None), "").strip().strip("{} ") or "0"
            if m.group(3) is not None and not re.search(r"[\w>&*]\s+$", text[max(0, m.start() - 40):m.start()]):
                continue  # a call, not a declaration
            # the setting is the declaration with a constant for a value; a local of the same name in a helper is something else
            found.append((not re.fullmatch(r"(?:0x)?[\d\s.eE+\-*/()uUlLfF]+", val), m.start() < main, m.start(), m.end(), val))
        if not found:
            continue
        _, _, a, b, val = min(found)
        text = text[:a] + v + ' = (getenv("GS_%s") ? %s(getenv("GS_%s")) : (%s)(%s))' % (v, "atof" if v in NUM else "atoi", v, "double" if v in NUM else "int", val) + text[b:]
        head = text[max(0, a - 60):a]
        cut = max(head.rfind(c) for c in ";{}")
        text = text[:max(0, a - 60)] + head[:cut + 1] + head[cut + 1:].replace("constexpr", "const") + text[a:]
        seen.add(v)
    for v in TXT:
        def put(m, v=v):
            val = re.search(r'"(?:\\.|[^"\\\n])*"', m.group(0))
            return 'static char %s_buffer[64]; char *const %s = strcpy(%s_buffer, getenv("GS_%s") ? getenv("GS_%s") : %s);' % (v, v, v, v, v, val.group(0) if val else '""')
        text, n = re.subn(r"(?:\b(?:static|const|constexpr)\s+)*\bchar\s*(?:\*\s*(?:const\s+)?%s|\s%s\s*\[\s*\d*\s*\])\s*(?:=|\{)[^;]*;" % (v, v), put, text, count=1)
        if n:
            seen.add(v)
    return text, seen


def tsan_runs(rm, out):
    """The race detector needs an address space layout it may not get everywhere: probe it."""
    probe = os.path.join(out, "probe.cc")
    open(probe, "w").write("int main(){return 0;}\n")
    r = rm.sh([rm.CXX, "-fsanitize=thread", probe, "-o", probe + ".exe"])
    return r.returncode == 0 and all(rm.sh([probe + ".exe"]).returncode == 0 for _ in range(5))


def programs(rm, out, only=None):
    try:
        return build(rm, out, only, True)
    except rm.BuildError as e:
        env = build(rm, out, only, False)  # raises if the programs do not compile as they stand either
        print("note: the settings cannot be taken from outside (%s); the programs run with the settings they ship with" % str(e).strip().splitlines()[0])
        return dict(env, GS_SHIPPED_ONLY="1")


def build(rm, out, only, substitute):
    src = os.path.join(rm.REPO, "src/reference")
    cp = os.path.join(out, "reference")
    shutil.rmtree(cp, ignore_errors=True)
    shutil.copytree(src, cp)
    pre = "#include <stdlib.h>\n#include <string.h>\n#include <cstdio>\n#include <cmath>\n#include <algorithm>\n#include <chrono>\n#include <string>\n"
    all_names = set(NUM + INT + TXT)
    for d, main in () if not substitute else ((cp, None), (os.path.join(cp, "SerialCode"), "GALS_Advection.cpp")):
        seen = set()
        files = [os.path.join(d, "Setting.h")]
        if main:
            text = strip_comments(open(os.path.join(d, main), errors="replace").read())
            files = [os.path.join(d, main)] + (files if re.search(r'#\s*include\s*[<"][^">]*Setting\.h', text) else [])
        for fn in files:
            if not os.path.exists(fn):
                continue
            t, s = settings(open(fn, errors="replace").read())
            open(fn, "w").write(t)
            seen |= s
        if seen != all_names:
            raise rm.BuildError("settings not found in %s: %s" % (d, sorted(all_names - seen)))
    flags = ["-std=gnu++14", "-O1", "-g1", "-w", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(rm.HARN, "mpi_shim"), "-include", os.path.join(cp, "pre.h")]
    open(os.path.join(cp, "pre.h"), "w").write(pre)
    asan, tsan = ["-fsanitize=address", "-ftrivial-auto-var-init=pattern"], ["-fsanitize=thread", "-fno-toplevel-reorder"]
    gomp = os.path.join(rm.HARN, "mini_gomp.cc")
    jobs = [("serial", os.path.join(cp, "SerialCode/GALS_Advection.cpp"), asan, False), ("mpi", os.path.join(cp, "GALS_Advection_MPI.cpp"), asan, False),
            ("omp_t", os.path.join(cp, "GALS_Advection_OpenMP.cpp"), tsan, True), ("hyb_t", os.path.join(cp, "GALS_Advection_MPI_OpenMP.cpp"), tsan, True),
            ("omp_a", os.path.join(cp, "GALS_Advection_OpenMP.cpp"), asan, True), ("hyb_a", os.path.join(cp, "GALS_Advection_MPI_OpenMP.cpp"), asan, True)]

    if only:
        jobs = [j for j in jobs if j[0] in only]

    def one(j):
        name, s, san, omp = j
        exe, obj = os.path.join(out, name), os.path.join(out, name + ".o")
        r = rm.sh([rm.CXX] + flags + san + (["-fopenmp"] if omp else []) + ["-c", s, "-o", obj])
        if r.returncode:
            raise rm.BuildError("%s does not compile:\n%s" % (s, r.stdout[-3000:]))
        # linked against the stand-in runtime, not libgomp, so that every synchronisation is visible to the race detector
        r = rm.sh([rm.CXX, "-std=gnu++14", "-O1", "-g1", "-w"] + san + [obj] + ([gomp] if omp else []) + ["-o", exe, "-lpthread"])
        if r.returncode:
            raise rm.BuildError("%s does not link:\n%s" % (s, r.stdout[-3000:]))
        return name, exe
    with ThreadPoolExecutor(6) as ex:
        env = {"C25_" + n.upper(): e for n, e in ex.map(one, jobs)}
    shutil.rmtree(cp, ignore_errors=True)
    ok = tsan_runs(rm, out)
    env["C25_TSAN"] = "1" if ok else "0"
    if not ok:
        print("note: the race detector cannot run here; OpenMP programs run under the address checker only")
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    return env


def run(rm, cid, spec, tier, seed, out):
    return rm.run_harness(cid, spec, tier, seed, out, extra_env=programs(rm, out))


def replay(rm, cid, spec, fn, programs=programs):
    out = os.path.join(rm.BUILD, "replay-" + cid)
    sc = os.path.join(out, "scratch")
    os.makedirs(sc, exist_ok=True)
    env = dict(rm.ENV, VERIF_SCRATCH=sc, **programs(rm, out))
    exe, _ = rm.build_harness(cid, spec, out)
    r = rm.sh([exe, "replay", "--file", os.path.abspath(fn), "--out", out], env=env, cwd=sc)
    print(r.stdout)
    return r.returncode
