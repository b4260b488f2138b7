"""Per-property build/run parameters. cases are fixed (a run is a pure function of tree and seed); time is a safety cap."""
SHARED = ["g++ 13 with AddressSanitizer and libstdc++ assertions is trusted", "IEEE double arithmetic, x86-64 long double oracles"]


def std(src, q, t, **kw):
    d = dict(src=src, quick=dict(cases=q, time=120), thorough=dict(cases=t, time=600), assumptions=SHARED)
    d.update(kw)
    return d


CHECKS = {
    "C01": std("c01.cc", 300000, 1200000),
    "C02": std("c02.cc", 300000, 1000000),
    "C03": std("c03.cc", 1600000, 4000000),
    "C04": std("c04.cc", 240000, 1200000),
}
CHECKS.update({
    "C05": std("c05.cc", 5000000, 20000000),
    "C06": std("c06.cc", 160000, 2500000),
    "C07": std("c07.cc", 120000, 2500000),
    "C08": std("c08.cc", 2000000, 5000000),
})
CHECKS.update({
    "C09": std("c09.cc", 200000, 4000000),
    "C10": std("c10.cc", 200000, 4000000),
})
CHECKS.update({
    "C11": std("c11.cc", 300000, 8000000, variants=[["-DHAVE_GCP"], []]),
})
CHECKS.update({
    "C12": std("c12.cc", 120000, 3000000),
    "C13": std("c13.cc", 100000, 3000000),
    "C14": std("c14.cc", 80000, 1500000),
})
CHECKS.update({
    "C15": std("c15.cc", 160000, 4000000),
    "C16": std("c16.cc", 200000, 5000000),
})
CHECKS.update({
    "C17": std("c17.cc", 80000, 1500000),
    "C18": std("c18.cc", 60000, 2500000),
})
CHECKS.update({
    "C19": std("c19.cc", 120000, 2500000),
    "C20": std("c20.cc", 60000, 600000, assumptions=SHARED + ["the third-party path library (absent submodule) is replaced by a stand-in with its documented semantics"]),
})
CHECKS.update({
    "C22": std("c22.cc", 60000, 2500000, lib=False, driver="d22", libs=["-ldl", "-rdynamic"]),
})
CHECKS.update({
    "C21": std("c21.cc", 1500, 60000, lib=False, driver="d21"),
})
CHECKS.update({
    "C23": std("c23.cc", 1200000, 20000000, driver="dref"),
})
CHECKS.update({
    "C24": std("c24.cc", 45000, 3000000, driver="dref", lib=False),
})
CHECKS.update({
    "C25": std("c25.cc", 900, 30000, driver="d25", lib=False, schedule=True, assumptions=SHARED + [
        "MPI is replaced by a two-process stand-in with the standard's matching rules, OpenMP's runtime by a pthread one implementing the calls gcc emits",
        "ThreadSanitizer (used where it can run) is trusted"]),
})
CHECKS.update({
    "C26": std("c26.cc", 8000, 1500000, ubsan=True),
})
CHECKS.update({
    "C27": std("c27.cc", 2000, 60000, driver="d27", lib=False, schedule=True, assumptions=SHARED + [
        "the device is replaced by a host stand-in that runs every thread of every block in some order; device and host memory are kept apart by poisoning"]),
})
CHECKS.update({
    "C28": std("c28.cc", 15000, 1500000, driver="d28", schedule=True, assumptions=SHARED + ["ThreadSanitizer (used where it can run) is trusted"]),
})
CHECKS.update({
    "C29": std("c29.cc", 60000, 4000000, driver="dref"),
})
CHECKS.update({
    "C30": std("c30.cc", 50000, 4000000),
})
CHECKS.update({
    "C31": std("c31.cc", 6000, 300000, driver="d31", lib=False),
})
CHECKS.update({
    "C32": std("c32.cc", 40000, 2000000),
})
