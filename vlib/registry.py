import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def cxx(**k): return dict(kind="cxx", **k)
def sched(**k): return dict(kind="sched", **k)
def py(m): return dict(kind="py", module=m)

SRV = ("pwned-server/uri.cpp",)
CONV = dict(target="C04", extra=("pwned-converter-cli",), flags=("-Dmain=program_main",))
CHECKS = {
    "C01": dict(parts=[py("c01"), py("c01w")]),
    "C02": dict(parts=[py("c02")]),
    "C03": dict(parts=[py("c03"), py("c03w"), sched(quick=2500, **CONV)]),
    "C04": dict(parts=[sched(**CONV)]),
    "C05": dict(parts=[cxx()]),
    "C06": dict(parts=[cxx(), py("c06"), py("c06w")]),
    "C07": dict(parts=[cxx()]),
    "C08": dict(parts=[cxx(fuzz=400000)]),
    "C09": dict(parts=[cxx(fuzz=200000)]),
    "C10": dict(parts=[cxx(fuzz=2000000)]),
    "C11": dict(parts=[cxx()]),
    "C12": dict(parts=[cxx()]),
    "C15": dict(parts=[cxx(extra=SRV, fuzz=400000)]),
    "C16": dict(parts=[cxx(extra=SRV, fuzz=2000000)]),
    "C17": dict(parts=[cxx(), cxx(target="C17B", flags=("-fno-sanitize=all", "-O3"))]),
    "C18": dict(parts=[cxx(fuzz=400000)]),
    "C19": dict(parts=[cxx()], assumptions=["the generator under test is seeded by the operating system, so the draws are not a function of VERIF_SEED; the acceptance region is 7 standard deviations and failures must recur three times"]),
    "C20": dict(parts=[sched()]),
    "C21": dict(parts=[sched(), sched(target="C21M", extra=("pwned-merger-cli",), flags=("-Dmain=program_main",)),
                       sched(target="C21C", extra=("pwned-converter-cli",), flags=("-Dmain=program_main",))]),
    "C22": dict(parts=[cxx()]),
    "C23": dict(parts=[cxx(), cxx(target="C23", flags=("-UNO_POPCNT", "-mpopcnt"))]),
    "C24": dict(parts=[cxx()]),
    "C25": dict(parts=[cxx()]),
    "C27": dict(parts=[py("c27"), py("c27w")]),
    "C29": dict(parts=[py("c29"), py("c29w")]),
    "C34": dict(parts=[py("c34"), py("c34w")]),
    "C26": dict(parts=[py("c26"), py("c26w")]),
    "C28": dict(parts=[py("c28"), py("c28w")]),
    "C32": dict(parts=[py("c32")]),
    "C33": dict(parts=[py("c33")]),
    "C13": dict(parts=[py("c13")]),
    "C14": dict(parts=[py("c14")]),
    "C30": dict(parts=[dict(kind="js")], assumptions=["the MD5 script of the page is a submodule that is not part of the tree; the MD5 of the Node runtime stands in for it", "the page runs against a stand-in document, not a browser"]),
    "C31": dict(parts=[py("c31")]),
    "C35": dict(parts=[py("c35")]),
    "C36": dict(parts=[py("c36")]),
    "C37": dict(parts=[py("c37")]),
    "C38": dict(parts=[py("c38")], assumptions=["data races of accesses that a run does not make, or that the sanitizer no longer remembers, go unnoticed; the libraries are not instrumented"]),
    "C39": dict(parts=[cxx()]),
    "C40": dict(parts=[py("c40"), py("c40s"), py("c40b")], assumptions=["the load test is run with a steady clock twenty times as fast", "the trusted authorities are the check's own"]),
    "C41": dict(parts=[py("c41")], assumptions=["curl is a stand-in that does what is laid out for each list; the real site is not there"]),
    "C42": dict(parts=[py("c42"), py("c42f"), py("c42r")], assumptions=["memory is what the system measured as the peak of the process, with one malloc arena"]),
    "C43": dict(parts=[cxx()]),
    "C45": dict(parts=[py("c45")], assumptions=["the web is a stand-in: Python's own HTTP client reads what is laid out for it"]),
    "C46": dict(parts=[py("c46")]),
    "C47": dict(parts=[py("c47"), py("c47s")]),
    "C44": dict(parts=[py("c44"), py("c44w")], assumptions=["the large part of the files consists of empty records, which take no disk space"]),
}

def known(pid):
    """open entries of the known-findings file for this property"""
    r = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                r.append(line.split(" ", 2)[2].strip())
    return r