"""Shared machinery of the checks: build the library from /repo, run recorders and replayers, run TLC
on traces and models, confirm rejections, write evidence."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CXX = "g++"


class CheckError(Exception):
    """The check itself could not do its work (exit code 3)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------------------------------- build

def core_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "src/pymatching/**/*.cc"), recursive=True)):
        b = os.path.basename(f)
        if any(x in b for x in (".test.", ".perf.", ".pybind.", "namespaced_main", "main.cc")):
            continue
        if "/diagram/" in f or "/perf/" in f:
            continue
        out.append(f)
    return out


def cxx_std():
    try:
        m = re.search(r"CMAKE_CXX_STANDARD\s+(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
        return m.group(1) if m else "20"
    except OSError:
        return "20"


def flags():
    return ["-std=c++" + cxx_std(), "-O1", "-g0", "-w", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HARNESS, "stub"), "-I" + HARNESS]


def _key():
    h = hashlib.sha256()
    h.update(REPO.encode())
    h.update(" ".join(flags()).encode())
    fs = sorted(glob.glob(os.path.join(REPO, "src/pymatching/**/*"), recursive=True))
    fs += sorted(glob.glob(os.path.join(HARNESS, "**/*"), recursive=True))
    for f in fs:
        if os.path.isfile(f) and f.endswith((".cc", ".h", ".inl")):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


# The Python package: /repo's own Python files and its binding files, compiled against the stand-ins for pybind11
# and Stim in harness/stub.
PYTHON = "python3-vt"


def binding_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "src/pymatching/**/*.cc"), recursive=True)):
        b = os.path.basename(f)
        if ".pybind." in b or b == "namespaced_main.cc":
            out.append(f)
    return out + [os.path.join(HARNESS, "py", "glue.cc")]


def python_facts():
    r = subprocess.run([PYTHON, "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include()); "
                        "print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise CheckError("no Python with NumPy")
    return r.stdout.split()


def python_files():
    base = os.path.join(REPO, "src/pymatching")
    return [(f, os.path.relpath(f, base)) for f in sorted(glob.glob(base + "/**/*.py", recursive=True))]


def python_package(d, so, suffix):
    """The package as a directory Python can import, beside a program that runs the recorder with it."""
    h = hashlib.sha256()
    for f, rel in python_files():
        h.update(rel.encode())
        h.update(open(f, "rb").read())
    p = os.path.join(d, "py-" + h.hexdigest()[:12])
    if not os.path.isdir(p):
        tmp = tempfile.mkdtemp(prefix="pkg-", dir=d)
        for f, rel in python_files():
            t = os.path.join(tmp, "pymatching", rel)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy(f, t)
        shutil.copy(so, os.path.join(tmp, "pymatching", "_cpp_pymatching" + suffix))
        try:
            os.rename(tmp, p)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    run = os.path.join(p, "front")
    if not os.path.exists(run):
        t = "%s.%d" % (run, os.getpid())
        with open(t, "w") as fh:
            fh.write("#!/bin/sh\nPYTHONPATH=%s:%s PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 exec %s %s \"$@\"\n"
                     % (p, os.path.join(HARNESS, "py", "stubs"), PYTHON, os.path.join(HARNESS, "py", "front.py")))
        os.chmod(t, 0o755)
        os.replace(t, run)
    return run


def _compile(args):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_dir():
    k = _key()
    d = os.path.join(BUILD, k)
    if not os.path.isdir(d):
        # drop the builds of earlier trees
        if os.path.isdir(BUILD):
            olds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x != "scratch"), key=os.path.getmtime)
            for o in olds[:-3]:
                shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d


def build(*harnesses, guarded=False):
    """Compile the library (once per tree) and the named harness programs; returns their paths. Guarded: every
    access to memory that is not there, or no longer, ends the program."""
    d = build_dir()
    jobs = []
    objs = []
    fl = flags()
    if guarded:
        fl = fl + ["-fsanitize=address"]
        d = os.path.join(d, "guarded")
        os.makedirs(d, exist_ok=True)
    for s in core_sources():
        o = os.path.join(d, hashlib.sha1(s.encode()).hexdigest()[:12] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    hobjs, pobjs, pyinc, so = [], [], [], None
    if "front" in harnesses:
        inc, npinc, suffix = python_facts()
        pyinc = ["-I" + inc, "-I" + npinc]
        for s in binding_sources():
            o = os.path.join(d, "py" + hashlib.sha1(s.encode()).hexdigest()[:12] + ".o")
            pobjs.append(o)
            if not os.path.exists(o):
                jobs.insert(0, (s, o))
    for h in harnesses:
        if h == "front":
            continue
        o = os.path.join(d, h + ".h.o")
        hobjs.append((h, o))
        if not os.path.exists(o):
            jobs.insert(0, (os.path.join(HARNESS, h + ".cc"), o))
    t0 = time.time()
    fails = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        def one(j):
            tmp = "%s.%d.tmp.o" % (j[1], os.getpid())
            rc, txt = _compile([CXX, *fl, *(pyinc if os.path.basename(j[1]).startswith("py") else ()), "-c", j[0], "-o", tmp])
            if rc == 0:
                os.replace(tmp, j[1])
            return j, rc, txt
        for j, rc, txt in ex.map(one, jobs):
            if rc != 0:
                fails.append((j[0], txt))
    if fails:
        raise CheckError("compilation failed: %s\n%s" % (fails[0][0], fails[0][1][:1500]))
    if pobjs:
        so = os.path.join(d, "cpp" + suffix)
        if not os.path.exists(so):
            tmp = "%s.%d.tmp" % (so, os.getpid())
            rc, txt = _compile([CXX, "-shared", *pobjs, *objs, "-o", tmp])
            if rc != 0:
                raise CheckError("linking the extension module failed:\n%s" % txt[:1500])
            os.replace(tmp, so)
    out = []
    byname = dict(hobjs)
    for h in harnesses:
        o = byname.get(h)
        if h == "front":
            out.append(python_package(d, so, suffix))
            continue
        b = os.path.join(d, h)
        if not os.path.exists(b):
            tmp = "%s.%d.tmp" % (b, os.getpid())
            rc, txt = _compile([CXX, *fl, o, *objs, "-o", tmp])
            if rc != 0:
                raise CheckError("linking %s failed:\n%s" % (h, txt[:1500]))
            os.replace(tmp, b)
        out.append(b)
    if jobs:
        log("built %d objects in %.1fs" % (len(jobs), time.time() - t0))
    return out


def recorder(harness, guarded):
    """The program to run; not the guarded one where the system does not let that start."""
    if guarded:
        (b,) = build(harness, guarded=True)
        r = subprocess.run([b, "--only", "-1", "--graphs", "0", "--histories", "0", "--runs", "0", "--models", "0", "--out", "/dev/null"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=harness_env())
        if r.returncode == 0:
            return b
        log("no guarded run of " + harness)
    return build(harness)[0]


# ----------------------------------------------------------------------------------------- running

def scratch(prop):
    base = os.path.join(BUILD, "scratch")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=prop + "-", dir=base)


def harness_env():
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"
    e["LC_ALL"] = "C.UTF-8"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=76"
    return e


def run_bin(binary, args, timeout=800, stdin=None):
    """Runs a harness; returns its STAT dictionary. Any abnormal end of the harness itself is an error
    of the check (the code under test runs in children whose death the harness records)."""
    argv = [binary]
    for k, v in args.items():
        argv += ["--" + k, str(v)]
    try:
        r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           env=harness_env(), input=stdin, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("harness timed out: " + " ".join(argv))
    if r.returncode != 0:
        raise CheckError("harness failed (%d): %s\n%s" % (r.returncode, " ".join(argv), r.stderr[-2000:]))
    m = re.findall(r"^STAT (\{.*\})$", r.stderr, re.M)
    return json.loads(m[-1]) if m else {}


class TLCResult:
    def __init__(self):
        self.ok = False
        self.rejected = None   # line number of the first record no step explains
        self.invariant = None  # name of a violated invariant / property
        self.error = None
        self.states = 0
        self.distinct = 0
        self.text = ""
        self.wall = 0.0


def tlc(module, consts=None, env=None, workdir=None, timeout=800, workers=1, heap="2g", cfg_lines=None, extra=(), tag=""):
    """Run TLC on spec/<module>.tla with spec/<module>.cfg plus constants."""
    if cfg_lines is None:
        cfg_lines = open(os.path.join(SPEC, module + ".cfg")).read().splitlines()
    consts = dict(consts or {})
    lines = []
    for ln in cfg_lines:
        m = re.match(r"\s*CONSTANT\s+(\w+)\s*=", ln)
        if m and m.group(1) in consts:
            ln = "CONSTANT %s = %s" % (m.group(1), consts.pop(m.group(1)))
        lines.append(ln)
    for k, v in consts.items():
        lines.append("CONSTANT %s = %s" % (k, v))
    wd = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    cfg = os.path.join(wd, "run.cfg")
    with open(cfg, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    e = dict(os.environ)
    e.update(env or {})
    argv = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
            "-XX:TieredStopAtLevel=4", "-cp", TLA_CP, "-Djava.io.tmpdir=" + wd, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-noTE", "-nowarning",
            "-metadir", os.path.join(wd, "meta"), "-config", cfg, "-workers", str(workers), *extra,
            os.path.join(SPEC, module + ".tla")]
    res = TLCResult()
    t0 = time.time()
    try:
        r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e,
                           cwd=wd, errors="replace")
    except subprocess.TimeoutExpired:
        shutil.rmtree(wd, ignore_errors=True)
        raise CheckError("TLC timed out on " + module + tag)
    res.wall = time.time() - t0
    res.text = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    if m:
        res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r'<<"REJECTED", (\d+)', r.stdout)
    if m:
        res.rejected = int(m.group(1))
    m = re.search(r"Error: (?:Invariant|Temporal property|Action property) (\w+) (?:is|was) violated", r.stdout)
    if m:
        res.invariant = m.group(1)
    if r.returncode == 0 and "No error has been found" in r.stdout:
        res.ok = True
    elif res.rejected is None and res.invariant is None:
        res.error = r.stdout[-3000:]
        if "OutOfMemory" not in r.stdout and "StackOverflow" not in r.stdout and "evaluat" in r.stdout or "Attempted to" in r.stdout:
            m = re.findall(r"^(?:/\\ )?i = (\d+)$", r.stdout, re.M)
            if m:
                res.rejected = int(m[-1])
    shutil.rmtree(wd, ignore_errors=True)
    return res


def pmap(fn, items, n=None):
    with cf.ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(fn, items))


# ----------------------------------------------------------------------------------------- traces

def read_histories(path):
    """A trace file is a sequence of histories: a line with "begin" starts one; files whose records stand
    alone have "id" on every line."""
    out = []
    with open(path) as fh:
        for ln in fh:
            ln = ln.rstrip("\n")
            if not ln:
                continue
            if ln.startswith('{"kind":"begin"') or not ln.startswith('{"kind":"step"') or not out:
                out.append([ln])
            else:
                out[-1].append(ln)
    return out


def locate(path, line_no):
    """The history that contains (1-based) line line_no."""
    n = 0
    hs = read_histories(path)
    for h in hs:
        if n < line_no <= n + len(h):
            return h
        n += len(h)
    return hs[-1] if hs else []


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = scratch(prop)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.extra = {}
        self.assumptions = []

    @property
    def quick(self):
        return self.tier == "quick"

    def path(self, name):
        return os.path.join(self.dir, name)

    def add_stat(self, st):
        for k, v in st.items():
            if isinstance(v, (int, float)):
                self.extra[k] = self.extra.get(k, 0) + v

    # -- recording -----------------------------------------------------------------------------
    def record(self, harness, jobs, per=None):
        """jobs: list of argument dictionaries. Runs them in parallel, each with its own output file.
        Returns [(job, file)]."""
        bins = {g: recorder(harness, g) for g in {bool(j.get("guarded")) for j in jobs}}

        def one(ij):
            i, j = ij
            b = bins[bool(j.get("guarded"))]
            f = self.path("%s-%d.ndjson" % (harness, i))
            a = dict(j)
            a["out"] = f
            st = run_bin(b, a)
            return j, f, st
        res = pmap(one, list(enumerate(jobs)))
        out = []
        for j, f, st in res:
            self.add_stat(st)
            out.append((harness, j, f))
        return out

    def validate(self, module, recorded, consts=None, heap="2g", max_lines=None, count=None):
        """Trace validation: every recorded file must be a behaviour of the specification."""
        work = []
        for h, j, f in recorded:
            if os.path.getsize(f) == 0:
                continue
            work.append((h, j, f))

        def one(w):
            return w, tlc(module, consts, {"TRACE": w[2]}, self.dir, heap=heap)
        for (h, j, f), r in pmap(one, work):
            self.states += r.distinct
            self.transitions += max(0, r.states - 1)
            hs = read_histories(f)
            self.traces += len(hs)
            if len(self.samples) < 3 and hs:
                self.samples.append(short(hs[len(hs) // 2]))
            if r.rejected is not None:
                self.reject(module, consts, h, j, f, r)
            elif not r.ok:
                raise CheckError("TLC failed on %s: %s" % (module, r.error))

    def reject(self, module, consts, h, j, f, r):
        hist = locate(f, r.rejected)
        first = json.loads(hist[0])
        # confirm: run the same unit of the recorder again and judge the new recording
        confirmed = None
        if h is not None and "id" in first:
            b = recorder(h, bool(j.get("guarded")))
            f2 = self.path("confirm-%d.ndjson" % len(self.violations))
            a = dict(j)
            a["out"] = f2
            a["only"] = first["id"]
            run_bin(b, a)
            if os.path.getsize(f2):
                r2 = tlc(module, consts, {"TRACE": f2}, self.dir)
                confirmed = r2.rejected is not None
            else:
                confirmed = False
        self.violations.append(
            {"spec": module, "consts": consts, "harness": h, "args": {k: v for k, v in j.items()} if j else None,
             "history": hist, "reproduced": confirmed, "tlc": r.text[-1500:] if r.error else None})

    def expected(self, module, harness, consts, key, args):
        """One particular input that is known to fail: if the known-findings file lists it, its failure is
        reported as that finding and not as a violation."""
        rec = self.record(harness, [args])
        before = len(self.violations)
        self.validate(module, rec, consts)
        for k, what in known_findings(self.prop):
            if k == key and len(self.violations) > before:
                del self.violations[before:]
                self.known.append("%s %s" % (k, what))

    def model(self, module, consts=None, workers=4, heap="4g", cfg_lines=None, timeout=800, extra=()):
        """Model-check a specification itself. A violation here is a defect of the specification, not of
        the code: an error of the check."""
        r = tlc(module, consts, None, self.dir, workers=workers, heap=heap, cfg_lines=cfg_lines, timeout=timeout, extra=extra)
        if not r.ok:
            raise CheckError("specification %s fails its own properties: %s\n%s" % (module, r.invariant, r.text[:1500]))
        self.states += r.distinct
        self.transitions += r.states
        self.extra.setdefault("model_runs", []).append(
            {"module": module, "consts": {k: str(v) for k, v in (consts or {}).items()}, "states": r.distinct,
             "transitions": r.states, "wall_s": round(r.wall, 2)})
        return r

    def generate(self, module, cfg, consts, name):
        """Let TLC enumerate behaviours of a specification and write them out for replay."""
        r = tlc(module, consts, None, self.dir, cfg_lines=open(os.path.join(SPEC, cfg + ".cfg")).read().splitlines(),
                workers=1, heap="3g")
        if not r.ok:
            raise CheckError("generation from %s failed: %s" % (module, r.text[-2000:]))
        hs = [json.loads('"' + x + '"') for x in re.findall(r'<<"HIST", "(.*)">>', r.text)]
        f = self.path(name)
        with open(f, "w") as fh:
            fh.write("\n".join(hs) + "\n")
        self.states += r.distinct
        self.transitions += r.states
        self.extra["generated_behaviours"] = self.extra.get("generated_behaviours", 0) + len(hs)
        return f

    # -- end -----------------------------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["(none)"],
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        rc = 0
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for n, v in enumerate(self.violations[:5]):
                p = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (self.prop, self.tier, n))
                with open(p, "w") as fh:
                    json.dump({"property": self.prop, **v}, fh, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            rc = 1
        else:
            print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.traces, wall))
        shutil.rmtree(self.dir, ignore_errors=True)
        sys.stdout.flush()
        return rc


def short(hist, n=1200):
    s = "\n".join(hist)
    return s if len(s) <= n else s[:n] + "..."


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) (\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out
