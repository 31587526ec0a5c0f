"""Building the simulator from the current tree, running seeds, replaying and minimising failures."""
import array
import hashlib
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
JOBS = os.cpu_count() or 4
WRAP = "-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc aligned_alloc posix_memalign free".split())
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"


class BuildError(Exception):
    pass


def generate_headers(outdir, reuse):
    """What the build system configures: Config.hpp and Version.hpp."""
    d = os.path.join(outdir, "inc", "XAD")
    os.makedirs(d, exist_ok=True)
    on = {"XAD_USE_STRONG_INLINE": False, "XAD_ALLOW_INT_CONVERSION": True, "XAD_TAPE_REUSE_SLOTS": reuse,
          "XAD_NO_THREADLOCAL": False}
    src = os.path.join(REPO, "src", "XAD")
    out = []
    for line in open(os.path.join(src, "Config.hpp.in")):
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if m:
            if m.group(1) in on:
                line = "#define %s%s\n" % (m.group(1), m.group(2)) if on[m.group(1)] else "/* #undef %s */\n" % m.group(1)
            else:
                line = "/* #undef %s */\n" % m.group(1)
        out.append(line)
    open(os.path.join(d, "Config.hpp"), "w").write("".join(out))
    ver = open(os.path.join(src, "Version.hpp.in")).read()
    ver = re.sub(r"@\w*MAJOR\w*@", "1", ver)
    ver = re.sub(r"@\w*MINOR\w*@", "0", ver)
    ver = re.sub(r"@\w*PATCH\w*@", "0", ver)
    ver = re.sub(r"@\w*@", "1.0.0", ver)
    ver = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", ver)
    open(os.path.join(d, "Version.hpp"), "w").write(ver)
    return os.path.join(outdir, "inc")


class Variant:
    def __init__(self, name, reuse=False, chunk=64, flags=(), san=("-O0", "-fsanitize=address"), lib_flags=(), instrumented=(), link=()):
        self.name, self.reuse, self.chunk, self.flags, self.san = name, reuse, chunk, list(flags), list(san)
        self.lib_flags, self.instrumented, self.link = list(lib_flags), instrumented, list(link)

    def dir(self):
        return os.path.join(BUILD, self.name)

    def binary(self):
        return os.path.join(self.dir(), "sim")


THR_UNITS = ("w_double", "w_float", "w_freal", "w_areal", "drivers", "stream", "chunk", "loop")
VARIANTS = {v.name: v for v in [
    Variant("def"),
    Variant("reuse", reuse=True),
    Variant("big", chunk=8192, flags=["-DNDEBUG"]),
    # instrumented for the scheduler: see sim/trt.cpp
    Variant("thr", chunk=16, san=["-O1"], lib_flags=["-fsanitize=thread", "-O1"], instrumented=THR_UNITS,
            link=["-rdynamic", "-static-libstdc++", "-Wl," + ",".join("--wrap=" + f for f in
                  "pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_allocate_exception".split())]),
    Variant("thrr", reuse=True, chunk=16, san=["-O1"], lib_flags=["-fsanitize=thread", "-O1"], instrumented=THR_UNITS),
    Variant("tiny", reuse=True, chunk=16, flags=["-DNDEBUG"]),
]}
VARIANTS["thrr"].link = VARIANTS["thr"].link


def build(units_by_variant, log=sys.stderr):
    """units_by_variant: {variant: [unit, ...]}; compiles everything in parallel."""
    t0 = time.time()
    jobs = []
    for name, units in units_by_variant.items():
        v = VARIANTS[name]
        shutil.rmtree(v.dir(), ignore_errors=True)
        os.makedirs(v.dir())
        inc = generate_headers(v.dir(), v.reuse)
        base = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-I" + inc, "-I" + os.path.join(REPO, "src"), "-I" + SIM,
                "-Wno-everything", "-DXAD_SIM_CHUNK_SIZE=%d" % v.chunk] + v.san + v.flags
        srcs = {u: os.path.join(SIM, u + ".cpp") for u in units}
        for f in sorted(os.listdir(os.path.join(REPO, "src"))):
            if f.endswith(".cpp"):
                srcs["lib_" + f[:-4]] = os.path.join(REPO, "src", f)
        for u, src in srcs.items():
            extra = []
            if v.lib_flags and (u.startswith("lib_") or u in v.instrumented):
                extra = v.lib_flags
            jobs.append((u, [CXX] + base + extra + ["-c", src, "-o", os.path.join(v.dir(), u + ".o")]))
    # long ones first
    weight = {"lib_Tape": 50}
    jobs.sort(key=lambda j: -weight.get(j[0], 60 if j[0].startswith("w_") or j[0] == "threads" else 1))

    def run(job):
        r = subprocess.run(job[1], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (job[0], r.stderr[:4000]))

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run, jobs))
    for name in units_by_variant:
        v = VARIANTS[name]
        objs = [os.path.join(v.dir(), f) for f in sorted(os.listdir(v.dir())) if f.endswith(".o")]
        san = [f for f in v.san if f.startswith("-fsanitize")]
        r = subprocess.run([CXX] + san + [WRAP] + v.link + objs + ["-lpthread", "-o", v.binary()], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stderr[:4000])
    return time.time() - t0


# ------------------------------------------------------------------ replay files
OPFMT = "<10q"


class Failure:
    def __init__(self, variant, workload, real, profile, seed, cls, msg, ops, generate=False):
        self.variant, self.workload, self.real, self.profile = variant, workload, real, profile
        self.seed, self.cls, self.msg, self.ops = seed, cls, msg, ops
        self.generate = generate
        self.text = []
        self.extra = {}     # further lines of the replay file: other <variant> <fill>, range <from> <step>

    def write(self, path, ops=None, header=""):
        with open(path, "w") as f:
            f.write("# replay file of the simulator: verif/replay.py FILE\n" + header)
            f.write("variant %s\nworkload %s\nreal %s\nprofile %s\nseed %d\n" % (self.variant, self.workload, self.real, self.profile, self.seed))
            for k in sorted(self.extra):
                f.write("%s %s\n" % (k, self.extra[k]))
            f.write("class %s\nmessage %s\n" % (self.cls, self.msg.replace("\n", " ")))
            for i, o in enumerate(self.ops if ops is None else ops):
                f.write("op " + " ".join(str(x) for x in o))
                if ops is None and i < len(self.text):
                    f.write("   # " + self.text[i])
                f.write("\n")


def load_failure(path):
    d, ops, text = {}, [], []
    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("#") or not line:
            continue
        k, _, rest = line.partition(" ")
        if k == "op":
            o, _, t = rest.partition("#")
            ops.append(tuple(int(x) for x in o.split()))
            text.append(t.strip())
        else:
            d[k] = rest
    f = Failure(d["variant"], d["workload"], d["real"], d["profile"], int(d["seed"]), d["class"], d.get("message", ""), ops)
    f.text = text
    f.extra = {k: d[k] for k in ("other", "range") if k in d}
    f.generate = not ops and not f.extra
    return f


def crash_class(rc, err):
    if "DATA RACE: " in err:
        return "data-race"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "crash:" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "crash:undefined-behaviour"
    if "Assertion" in err and "failed" in err:
        return "crash:assertion"
    if "terminate called" in err or rc in (-signal.SIGABRT, 134):
        return "crash:terminate"
    if rc < 0:
        return "crash:signal-%d" % -rc
    return "crash:exit-%d" % rc


def crash_msg(err):
    lines = [l.strip() for l in err.splitlines()]
    pick = [l[11:] for l in lines if l.startswith("DATA RACE: ")] + [l for l in lines if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l or "what()" in l or "terminate called" in l]
    frames = [l for l in lines if re.match(r"#\d+ ", l) and "/src/" in l][:3]
    s = " ".join(pick[:2] + frames)
    return re.sub(r"==\d+==", "", s)[:800]


def parse_output(out):
    r = {"stats": {}, "runs": 0, "seconds": 0.0, "fail": None, "ops": [], "done": False, "hashes": {}, "text": [], "hash": None, "obs": None}
    # the process might have been stopped while writing a line
    for line in out[:out.rfind("\n") + 1].splitlines():
        k, _, rest = line.partition(" ")
        if k == "FAIL":
            r["fail"] = [int(rest), "", ""]
        elif k == "CLS":
            r["fail"][1] = rest
        elif k == "MSG":
            r["fail"][2] = rest
        elif k == "op":
            r["ops"].append(tuple(int(x) for x in rest.split()))
        elif k == "RUNS":
            r["runs"] = int(rest)
        elif k == "SECONDS":
            r["seconds"] = float(rest)
        elif k == "STAT":
            n, _, v = rest.rpartition(" ")
            r["stats"][n] = r["stats"].get(n, 0) + int(v)
        elif k == "RUN":
            s, o, l = rest.split()
            r["hashes"][int(s)] = (o, l)
        elif k == "HASH":
            r["hash"] = rest
        elif k == "OBS":
            r["obs"] = rest
        elif k == "DONE":
            r["done"] = True
        elif k == "ERROR":
            raise RuntimeError(rest)
        elif k == "TEXT":
            r["text"].append(rest)
    return r


def run_range(f, timeout=300):
    """runs all seeds up to the failing one: a violation that needs the history of the process"""
    start, step = (int(x) for x in f.extra["range"].split())
    try:
        p = subprocess.run([VARIANTS[f.variant].binary(), "run", "--workload", f.workload, "--real", f.real, "--profile", f.profile,
                            "--from", str(start), "--count", str((f.seed - start) // step + 1), "--step", str(step)],
                           capture_output=True, text=True, env=ENV, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", None, "no end within %d s" % timeout
    r = parse_output(p.stdout)
    if not r["done"]:
        return crash_class(p.returncode, p.stderr), r, crash_msg(p.stderr)
    return (r["fail"][1], r, r["fail"][2]) if r["fail"] else (None, r, "")


def run_replay(f, ops=None, path=None, text=False, timeout=60):
    """executes a replay file in a fresh process; returns (class or None, parsed, message)"""
    if "range" in f.extra:
        return run_range(f)
    if "other" in f.extra:
        variant, fill = f.extra["other"].split()
        a = run_single(f, ops, path, text, timeout)
        if a[0]:
            return a
        b = run_single(f, ops, path, False, timeout, variant, ["--fill", fill] if int(fill) >= 0 else [])
        if b[0]:
            return "differs", a[1], "%s in configuration %s only: %s" % (b[0], variant, b[2])
        if a[1]["obs"] != b[1]["obs"]:
            return "differs", a[1], "results differ between configurations %s and %s (memory contents %s)" % (f.variant, variant, fill)
        return None, a[1], ""
    return run_single(f, ops, path, text, timeout, extra=["--twice", "1"] if f.cls == "not-reproducible" else [])


def run_single(f, ops=None, path=None, text=False, timeout=60, variant=None, extra=()):
    own = path is None
    if own:
        path = os.path.join(BUILD, "tmp-%d-%d.replay" % (os.getpid(), threading.get_ident()))
        f.write(path, ops if ops is not None else f.ops)
    try:
        p = subprocess.run([VARIANTS[variant or f.variant].binary(), "replay", "--file", path] + (["--text", "1"] if text else [])
                           + (["--generate", "1"] if f.generate else []) + list(extra),
                           capture_output=True, text=True, env=ENV, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", None, "no end within %d s" % timeout
    finally:
        if own:
            os.unlink(path)
    r = parse_output(p.stdout)
    if not r["done"]:
        return crash_class(p.returncode, p.stderr), r, crash_msg(p.stderr)
    if r["fail"]:
        return r["fail"][1], r, r["fail"][2]
    return None, r, ""


def minimise(f, budget=60.0, pred=None):
    """delta debugging over the steps; keeps the class of the violation"""
    t0 = time.time()
    if pred is None:
        to = 10 if f.cls == "hang" else 30

        def pred(ops):
            return run_replay(f, ops, timeout=to)[0] == f.cls
    ops = list(f.ops)
    n = 2
    pool = ThreadPoolExecutor(JOBS)
    while len(ops) >= 2 and time.time() - t0 < budget:
        size = max(1, (len(ops) + n - 1) // n)
        cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
        res = None
        for i in range(0, len(cands), JOBS):
            if time.time() - t0 > budget:
                break
            batch = cands[i:i + JOBS]
            oks = list(pool.map(pred, batch))
            for c, ok in zip(batch, oks):
                if ok:
                    res = c
                    break
            if res is not None:
                break
        if res is not None:
            ops = res
            n = max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    # faults that aren't needed
    for i in range(len(ops)):
        if len(ops[i]) >= 10 and ops[i][7] and time.time() - t0 < budget:
            o = list(ops[i])
            o[7], o[8] = 0, 1
            c = ops[:i] + [tuple(o)] + ops[i + 1:]
            if pred(c):
                ops = c
    pool.shutdown()
    return ops


# ------------------------------------------------------------------ running ranges of seeds
class Bitmap:
    """set of hashes, folded to 28 bits (counts are lower bounds)"""

    def __init__(self):
        self.bits = bytearray(1 << 25)
        self.lock = threading.Lock()
        self.n = 0

    def add(self, values):
        with self.lock:
            b = self.bits
            for x in values:
                x = (x ^ (x >> 28)) & 0xFFFFFFF
                m = 1 << (x & 7)
                if not b[x >> 3] & m:
                    b[x >> 3] |= m
                    self.n += 1

    def count(self):
        return self.n


STATES, RUNS_SEEN = Bitmap(), Bitmap()


class Task:
    """a range of seeds of one workload, run by one process"""

    def __init__(self, variant, workload, real, profile, start, count, step=1, extra=(), limit=600):
        self.variant, self.workload, self.real, self.profile = variant, workload, real, profile
        self.start, self.count, self.step, self.extra, self.limit = start, count, step, list(extra), limit
        self.result = None
        self.failure = None


def run_task(t, idx, stop, hang=60):
    v = VARIANTS[t.variant]
    prog = os.path.join(BUILD, "prog-%d-%d" % (os.getpid(), idx))
    st = prog + ".states"
    outf, errf = prog + ".out", prog + ".err"
    with open(outf, "w") as fo, open(errf, "w") as fe:
        p = subprocess.Popen([v.binary(), "run", "--workload", t.workload, "--real", t.real, "--profile", t.profile, "--from", str(t.start),
                              "--count", str(t.count), "--step", str(t.step), "--time", str(t.limit), "--progress", prog, "--states", st] + t.extra,
                             stdout=fo, stderr=fe, env=ENV)
        last, since = None, time.time()
        hung = False
        while True:
            try:
                p.wait(0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            if stop.is_set():
                p.kill()
                p.wait()
                break
            try:
                with open(prog, "rb") as fp:
                    cur = fp.read(24)
            except OSError:
                cur = None
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > hang:
                hung = True
                p.kill()
                p.wait()
                break
    out = open(outf, errors="replace").read()
    err = open(errf, errors="replace").read()
    r = parse_output(out)
    t.result = r
    if r["fail"]:
        t.failure = Failure(t.variant, t.workload, t.real, t.profile, r["fail"][0], r["fail"][1], r["fail"][2], r["ops"])
    elif not r["done"] and not (stop.is_set() and p.returncode == -9 and not hung):
        seed, ops = t.start, []
        try:
            with open(prog, "rb") as fp:
                seed, n, done = struct.unpack("<3Q", fp.read(24))
                r["runs"] = done
                for _ in range(min(n, 4096)):
                    ops.append(struct.unpack(OPFMT, fp.read(80)))
        except (OSError, struct.error):
            pass
        cls = "hang" if hung else crash_class(p.returncode, err)
        t.failure = Failure(t.variant, t.workload, t.real, t.profile, seed, cls, "no end within %d s" % hang if hung else crash_msg(err), ops)
    if os.path.exists(st):
        a = array.array("I")
        with open(st, "rb") as fp:
            a.frombytes(fp.read())
        STATES.add(a)
    if os.path.exists(st + ".runs"):
        a = array.array("Q")
        with open(st + ".runs", "rb") as fp:
            a.frombytes(fp.read())
        RUNS_SEEN.add(a)
    for f in (prog, st, st + ".runs", outf, errf):
        if os.path.exists(f):
            os.unlink(f)
    if t.failure:
        stop.set()
    return t


def run_tasks(tasks, workers=None, stop_on_failure=True, deadline=None):
    stop = threading.Event()
    lock = threading.Lock()
    it = iter(list(enumerate(tasks)))
    done = []

    def worker():
        while True:
            with lock:
                if stop.is_set() and stop_on_failure:
                    return
                x = next(it, None)
            if x is None:
                return
            if deadline:
                left = deadline - time.time()
                if left <= 0:
                    return
                x[1].limit = min(x[1].limit, max(1, left))
            st = stop if stop_on_failure else threading.Event()
            run_task(x[1], x[0], st)
            with lock:
                done.append(x[1])

    ths = [threading.Thread(target=worker) for _ in range(workers or JOBS)]
    for th in ths:
        th.start()
    for th in ths:
        th.join()
    return done
