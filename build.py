"""Builds one simulator binary per harness file from /repo's current working tree."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KTSIM_REPO", "/repo")
OUT = os.environ.get("KTSIM_BUILD", os.path.join(VERIF, ".build"))
CXX = "g++-13" if os.path.exists("/usr/bin/g++-13") else "g++"
INC = [f"-I{REPO}/libs/{l}/include" for l in ("utils", "kana", "kanji", "stats", "quiz")]
BASE = ["-std=c++20", "-g1", "-U_FORTIFY_SOURCE", "-include", "cstdint", "-fno-pie"]
# the code under test: every memory access reports to the simulator
REPOF = BASE + ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
    "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-Dishexnumber=isxdigit",
    "-include", f"{VERIF}/sim/prelude.h", "-w"] + INC
SIMF = BASE + ["-O2", "-Wall", "-Dishexnumber=isxdigit", f"-I{VERIF}"] + INC
WRAP = ["memcpy", "memmove", "memset", "memcmp", "strlen"]
MAINS = {"convertMain": "convert_main", "formatMain": "format_main", "quizMain": "quiz_main", "statsMain": "stats_main"}

class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p.encode() if isinstance(p, str) else p); h.update(b"\0")
    return h.hexdigest()[:24]

def files_hash(fs):
    h = hashlib.sha256()
    for f in sorted(fs):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as i: h.update(i.read())
        h.update(b"\0")
    return h.hexdigest()

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])

def build(harness):
    """returns (binary, info)"""
    obj = os.path.join(OUT, "obj"); os.makedirs(obj, exist_ok=True)
    hdrs = [f for d in ("libs", "apps") for e in ("h", "hpp", "inc", "ipp", "tcc") for f in glob.glob(f"{REPO}/{d}/**/*.{e}", recursive=True)]
    simh = glob.glob(f"{VERIF}/sim/*.h") + glob.glob(f"{VERIF}/harness/*.h")
    hh, sh = files_hash(hdrs), files_hash(simh)
    jobs, objs = [], []
    # objects of the code under test come first so that shared template code
    # (std:: functions instantiated on both sides) is the instrumented copy
    srcs = sorted(glob.glob(f"{REPO}/libs/*/src/**/*.cpp", recursive=True)) + sorted(glob.glob(f"{REPO}/apps/*.cpp"))
    for s in srcs + [f"{VERIF}/sim/{x}.cpp" for x in ("rt", "vfs", "worker")] + [f"{VERIF}/harness/{harness}.cpp"] + sorted(glob.glob(f"{VERIF}/harness/lib_*.cpp")):
        own = s.startswith(VERIF + "/")
        fl = list(SIMF if own else REPOF)
        b = os.path.basename(s)[:-4]
        if not own and s.startswith(f"{REPO}/apps/"):
            fl.append(f"-Dmain={MAINS.get(b, b + '_main')}")
        key = sha(s, open(s, "rb").read(), hh, sh, " ".join(fl), CXX)
        o = os.path.join(obj, f"{b}-{key}.o")
        objs.append(o)
        if not os.path.exists(o): jobs.append([CXX] + fl + ["-c", s, "-o", o + f".{os.getpid()}"])
    def go(c):
        run(c); os.rename(c[-1], c[-1].rsplit(".", 1)[0])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(go, jobs))
    exe = os.path.join(OUT, f"{harness}-{sha(*objs)}")
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}"
        run([CXX, "-no-pie"] + objs + ["-o", tmp, "-ldl", "-pthread"] + [f"-Wl,--wrap={w}" for w in WRAP])
        os.rename(tmp, exe)
        for old in glob.glob(os.path.join(OUT, f"{harness}-*")):
            if old != exe and os.path.getmtime(old) < os.path.getmtime(exe) - 600: os.unlink(old)
    return exe, {"sources": len(srcs), "tree": sha(hh, *[open(s, "rb").read() for s in srcs])}

if __name__ == "__main__":
    for h in sys.argv[1:]: print(build(h)[0])
