"""Builds programs and harnesses from /repo's current working tree into /verif/build.

Objects are cached by content: compiler flags, the source file and every header of /repo and /verif.
Source lists are found by globbing the directories, so a file split or added there is built too.
"""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PWNED_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

BASE = ["-std=c++17", "-DNO_POPCNT", "-DNDEBUG", "-w", "-I" + REPO, "-I" + VERIF + "/cxx", "-pthread"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
PLAIN = ["-O1", "-g1"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_program_options", "-lboost_thread", "-lcrypto", "-lbz2", "-lpthread"]

class BuildError(Exception):
    pass

def _headers_digest(tops):
    h = hashlib.sha256()
    files = []
    for top in tops:
        for d, dirs, names in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "build", "node_modules", "lib") and not x.startswith("."))
            for n in sorted(names):
                if n.endswith((".hpp", ".h", ".hh", ".ipp", ".inc", ".tpp")):
                    files.append(os.path.join(d, n))
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

_hd = {}
def headers_digest(source):
    own = source.startswith(VERIF + "/")
    if own not in _hd:
        _hd[own] = _headers_digest((REPO, os.path.join(VERIF, "cxx")) if own else (REPO,))
    return _hd[own]

def src(*dirs, exclude=()):
    r = []
    for d in dirs:
        if d.endswith(".cpp"):
            r.append(os.path.join(REPO, d)); continue
        r += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    return [x for x in r if os.path.basename(x) not in exclude]

def _compile(job):
    cc, source, flags = job
    h = hashlib.sha256()
    h.update(repr((cc, flags, source)).encode()); h.update(open(source, "rb").read()); h.update(headers_digest(source).encode())
    out = os.path.join(BUILD, "obj", h.hexdigest()[:24] + ".o")
    if os.path.exists(out):
        return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.%s.tmp" % (out, os.getpid(), os.path.basename(source))
    p = subprocess.run([cc] + flags + ["-c", source, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return out, "%s: %s" % (source, p.stdout[-3000:])
    os.replace(tmp, out)
    return out, None

def build(specs, cc="g++"):
    """specs: {name: (sources, flags, libs)} -> {name: path}; everything is compiled in parallel."""
    jobs = {}
    for name, spec in specs.items():
        sources, flags, libs = spec[:3]
        for s in sources:
            f = list(flags)
            if isinstance(s, tuple):
                s, f = s[0], f + list(s[1])
            jobs[(cc, s, tuple(f))] = None
    for k in jobs:
        headers_digest(k[1])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(_compile, [(a, b, list(c)) for a, b, c in jobs]))
    errs = [e for _, e in res if e]
    if errs:
        raise BuildError("\n".join(errs))
    objs = {k: o for k, (o, _) in zip(jobs, res)}
    out = {}
    def link(item):
        name, spec = item
        sources, flags, libs = spec[:3]
        os_ = []
        for s in sources:
            f = list(flags)
            if isinstance(s, tuple):
                s, f = s[0], f + list(s[1])
            os_.append(objs[(cc, s, tuple(f))])
        key = hashlib.sha256(repr((cc, os_, flags, libs)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "bin", name + "-" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            p = subprocess.run([cc] + flags + os_ + ["-o", tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError("link %s: %s" % (name, p.stdout[-3000:]))
            os.replace(tmp, exe)
        return name, exe
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for name, exe in ex.map(link, specs.items()):
            out[name] = exe
    return out

LIB = lambda: src("pwned-lib")
PROGRAMS = {
    "converter": lambda: src("pwned-converter-cli") + LIB(),
    "merger": lambda: src("pwned-merger-cli") + LIB(),
    "index": lambda: src("pwned-index") + LIB(),
    "lookup": lambda: src("pwned-lookup-cli") + LIB(),
    "server": lambda: src("pwned-server") + LIB(),
    "markov-lookup": lambda: src("extras/pwned-markov-lookup") + LIB(),
    "markov-generator": lambda: src("extras/pwned-markov-generator") + LIB(),
    "extractor": lambda: src("extras/pwned-password-extractor") + LIB(),
    "testset": lambda: src("extras/pwned-test-set-extractor") + LIB(),
    "benchmark": lambda: src("extras/pwned-benchmark") + LIB(),
    "be2le": lambda: src("deprecated/be2le") + LIB(),
}

def programs(names, flags=SAN):
    return build({n: (PROGRAMS[n](), BASE + flags, LIBS) for n in names})

def sched_target(name, extra_sources=(), flags=()):
    """threads under cxx/sched.cpp: instrumented accesses are scheduling points, no sanitizer runtime"""
    T = ["-fsanitize=thread"] + list(flags)
    sources = [(VERIF + "/cxx/%s.cpp" % name.lower(), T), (VERIF + "/cxx/sched.cpp", ["-fno-threadsafe-statics"]), VERIF + "/cxx/pbt.cpp"]
    sources += [(s, T) for s in LIB() + [s for d in extra_sources for s in src(d)]]
    return build({name: (sources, BASE + PLAIN, LIBS + ["-ldl"])})[name]

def cxx_target(pid, extra_sources=(), flags=(), fuzz=False):
    harness = [VERIF + "/cxx/%s.cpp" % pid.lower(), VERIF + "/cxx/pbt.cpp"]
    repo = LIB() + [s for d in extra_sources for s in src(d)]
    if fuzz:
        f = BASE + ["-O1", "-g1", "-fsanitize=address,undefined,fuzzer", "-fno-sanitize-recover=all", "-DPBT_FUZZER"] + list(flags)
        return build({pid + "-fuzz": (harness + repo, f, LIBS)}, cc="clang++")[pid + "-fuzz"]
    return build({pid: (harness + repo, BASE + SAN + list(flags), LIBS)})[pid]
