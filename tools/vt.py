"""Build / run / report machinery shared by every check."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = int(os.environ.get("VT_JOBS", "8"))
STALL = int(os.environ.get("VT_STALL", "100"))
LOCK = threading.Lock()
CXX, CC = "g++", "gcc"


class HarnessError(Exception):
    pass


BASE = ["-std=c++17", "-fopenmp", "-w", "-ftemplate-depth=2000",
        "-include", f"{VERIF}/shim/pre_parallel_do.h"]
KINDS = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-omit-frame-pointer",
             "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-DVT_TSAN"],
}
LINK = {"plain": [], "asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}

# the library under test
LIB = {
    "predicates": "src/utils/Predicates.cpp",
    "timings": "src/utils/Timings.cpp",
    "systemc": "src/utils/System.c",
    "system": "src/utils/System.cpp",
    "logger": "src/utils/Logger.cpp",
    "ccolor": "src/utils/ccolor.cpp",
    "version": "@version",
    "strings": "src/utils/StringUtils.cxx",
    "geometry": "src/lib/Geometry.cpp",
    "partitioner": "src/lib/Partitioner.cpp",
    "spatialsort": "src/lib/SpatialSort.cpp",
    "triangulator": "src/lib/Triangulator.cpp",
    "dc": "src/lib/DCTriangulator.cpp",
    "cgal": "src/lib/CGALTriangulator.cpp",
}
UTIL = ["timings", "systemc", "system", "logger", "ccolor", "version"]
GEO = UTIL + ["predicates", "geometry", "strings"]
PART = GEO + ["partitioner", "spatialsort"]
TRI = PART + ["triangulator", "cgal", "dc"]
HEAVY = ["cgal", "dc"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def gen():
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    r = sh(["bash", f"{VERIF}/shim/gen_tds.sh", g])
    if r.returncode:
        raise HarnessError("gen_tds failed: " + r.stdout[-2000:])
    v = os.path.join(REPO, "src/utils/version.cpp.in")
    txt = open(v).read().replace("@GIT_SHA1@", "0123456789abcdef").replace("@GIT_REFSPEC@", "refs/heads/x")
    p = os.path.join(g, "version.cpp")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return g


def incs(kind, mini):
    i = []
    if mini:
        i += ["-DVT_MINITBB", f"-I{VERIF}/minitbb"]
    i += [f"-I{BUILD}/gen", f"-I{VERIF}/shim", f"-I{VERIF}/harness", f"-I{REPO}/include", "-I/usr/include/eigen3", "-idirafter", f"{REPO}/include/utils", "-idirafter", REPO]
    return i


def compile_one(src, obj, kind, extra, mini=False):
    is_c = src.endswith(".c")
    comp = [CC if is_c else CXX]
    if shutil.which("ccache"):
        comp = ["ccache"] + comp
    flags = KINDS[kind] + extra + incs(kind, mini)
    if is_c:
        flags = [f for f in flags if f != "-std=c++17"] + ["-std=gnu11", "-w"]
    else:
        flags = BASE + flags
    cmd = comp + flags + ["-c", src, "-o", obj]
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "2G"
    env["CCACHE_SLOPPINESS"] = "include_file_mtime,include_file_ctime,time_macros"
    t = time.time()
    r = sh(cmd, env=env)
    if r.returncode:
        raise HarnessError(f"compile failed: {' '.join(cmd)}\n{r.stdout[-6000:]}")
    return time.time() - t


def build(jobs):
    """jobs: list of dict(name, src, libs, kind, flags=[], mini=False, ldflags=[]); returns name -> exe."""
    gen()
    objs, exes = {}, {}
    tasks = {}
    for j in jobs:
        kind, mini = j.get("kind", "plain"), j.get("mini", False)
        lf = j.get("libflags", [])
        tag = kind + ("-mini" if mini else "") + ("-" + hashlib.md5(" ".join(lf).encode()).hexdigest()[:6] if lf else "")
        ol = []
        for l in j.get("libs", []):
            s = LIB[l]
            s = os.path.join(BUILD, "gen", "version.cpp") if s == "@version" else os.path.join(REPO, s)
            o = os.path.join(BUILD, tag, l + ".o")
            tasks[o] = (0 if l == "cgal" else 1 if l == "dc" else 3, s, kind, lf, mini)
            ol.append(o)
        for e in j.get("extra_src", []):
            s, ekind = (e if isinstance(e, tuple) else (e, kind))
            o = os.path.join(BUILD, tag, os.path.basename(s).replace(".", "_") + "_" + ekind + ".o")
            tasks[o] = (3, os.path.join(VERIF, s), ekind, [], mini)
            ol.append(o)
        dtag = tag + "-" + hashlib.md5(" ".join(j.get("flags", [])).encode()).hexdigest()[:6]
        o = os.path.join(BUILD, dtag, "drv_" + j["name"] + ".o")
        tasks[o] = (2, os.path.join(VERIF, j["src"]), kind, j.get("flags", []) + lf, mini)
        ol.append(o)
        objs[j["name"]] = ol
        exes[j["name"]] = os.path.join(BUILD, dtag, j["name"])
    for o in tasks:
        os.makedirs(os.path.dirname(o), exist_ok=True)
    times = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = {}
        for o, (pr, s, k, f, m) in sorted(tasks.items(), key=lambda x: x[1][0]):
            fs[ex.submit(compile_one, s, o, k, f, m)] = o
        for f in cf.as_completed(fs):
            times[fs[f]] = f.result()
        ls = {}
        for j in jobs:
            kind = j.get("kind", "plain")
            cmd = [CXX, "-o", exes[j["name"]]] + objs[j["name"]] + LINK[kind] + ["-fopenmp"] + j.get("ldflags", []) + \
                ["-ltbb", "-ltbbmalloc", "-lboost_serialization", "-lboost_program_options", "-lgmp", "-lmpfr",
                 "-lnuma", "-lpthread"]
            ls[ex.submit(sh, cmd)] = cmd
        for f in cf.as_completed(ls):
            if f.result().returncode:
                raise HarnessError("link failed: " + " ".join(ls[f]) + "\n" + f.result().stdout[-4000:])
    return exes


ENV = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"},
    "tsan": {},
    "plain": {},
}


def rep_path(p):
    return os.path.join(VERIF, "evidence", p)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.stalls, self.stuck = 0, False
        self.viol = []       # (key, msg, replay)
        self.evals = 0
        self.counters, self.maxima = {}, {}
        self.hashes = set()
        self.samples = []
        self.inconclusive = []
        self.notes = {}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    # ---- running -------------------------------------------------------
    def run(self, exe, kind="plain", args=(), shards=1, timeout=300, label=None, env=None, crash_key="crash",
            log_races=False, parallel=None):
        label = label or os.path.basename(exe)
        if self.stuck:
            return
        d = os.path.join(BUILD, "runs", f"{self.pid}-{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        jobs = []
        for s in range(shards):
            out = os.path.join(d, f"{label}-{s}.out")
            jobs.append((exe, list(args), s, shards, out, kind, timeout, env or {}, label, crash_key, log_races))
        with cf.ThreadPoolExecutor(parallel or NCPU) as ex:
            list(ex.map(self._one, jobs))
        shutil.rmtree(d, ignore_errors=True)

    def _one(self, job, retry=True):
        exe, args, s, n, out, kind, timeout, env, label, crash_key, log_races = job
        cmd = [exe, "--seed", str(SEED), "--shard", f"{s}/{n}", "--out", out] + args
        if THOROUGH:
            cmd.append("--thorough")
        if os.path.exists(out):
            os.remove(out)
        e = dict(os.environ)
        e.update(ENV[kind])
        e.update(env)
        slog = out + ".san"
        if kind == "tsan":
            supp = os.path.join(VERIF, "harness", "tsan.supp")
            e["TSAN_OPTIONS"] = (f"halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:"
                                 f"log_path={slog}" + (f":suppressions={supp}" if os.path.exists(supp) else ""))
        e["VT_MAXSEC"] = str(int(timeout))
        err = open(out + ".err", "w+")
        p = subprocess.Popen(cmd, stdout=err, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=os.path.dirname(out))
        # The driver stops starting cases after `timeout` seconds by itself; it is stuck if one case takes longer than STALL.
        rc, last, still = None, None, 0
        while rc is None:
            try:
                rc = p.wait(timeout=1)
            except subprocess.TimeoutExpired:
                size = os.path.getsize(out) if os.path.exists(out) else -1
                still = still + 1 if size == last else 0
                last = size
                if still >= STALL:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    rc = "timeout"
        err.seek(0)
        etxt = err.read()
        err.close()
        cur, done = "", False
        lines = open(out, errors="replace").read().splitlines() if os.path.exists(out) else []
        replay = " ".join(cmd)
        for ln in lines:
            if ln.startswith("B "):
                cur = ln[2:]
            elif ln.startswith("V "):
                k, _, m = ln[2:].partition(" | ")
                self.viol.append((k, m, self._replay(cmd, cur)))
            elif ln.startswith("S "):
                self.samples.append(ln[2:])
            elif ln.startswith("C "):
                _, k, v = ln.rsplit(" ", 2) if False else ln.split(" ", 2)
                self.counters[k] = self.counters.get(k, 0) + int(v)
            elif ln.startswith("M "):
                _, k, v = ln.split(" ", 2)
                self.maxima[k] = max(self.maxima.get(k, 0), int(v))
            elif ln.startswith("H "):
                self.hashes.add(label.split("@")[0] + ln[2:])
            elif ln.startswith("E "):
                self.evals += int(ln[2:])
            elif ln.startswith("DONE"):
                done = True
        if not done:
            nb = sum(1 for l in lines if l.startswith("B "))
            if rc == "timeout":
                with LOCK:
                    self.stalls += 1
                    again = retry and self.stalls == 1
                if again:
                    return self._one(job, retry=False)
                # Stuck twice in this check (normal cases take a few seconds at most): it does not terminate.
                self.stuck = True
                self.viol.append((f"{label}:hang", f"case {cur} made no progress for {STALL}s ({self.stalls} stalls)", self._replay(cmd, cur)))
            elif rc == -9 and retry:
                return self._one(job, retry=False)  # killed from outside (memory?)
            else:
                self.evals += nb
                what = self._crash_kind(etxt, rc)
                self.viol.append((f"{label}:{crash_key}:{what}", f"case {cur}: process ended rc={rc}: " + etxt[-1500:].replace("\n", " / "),
                                  self._replay(cmd, cur)))
        elif rc not in (0,):
            what = self._crash_kind(etxt, rc)
            self.viol.append((f"{label}:exit:{what}", f"after the last case: rc={rc}: " + etxt[-1500:].replace("\n", " / "), replay))
        if kind == "tsan":
            self._races(slog, label, replay)

    @staticmethod
    def _crash_kind(etxt, rc):
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", etxt)
        if m:
            return "asan-" + m.group(1)
        m = re.search(r"([\w./+-]+\.[chtx]\w*):\d+:\d+: runtime error: ([^\n]*)", etxt)
        if m:
            return "ubsan-" + os.path.basename(m.group(1)) + "-" + re.sub(r"[^a-z]+", "-", m.group(2).lower())[:50].strip("-")
        return f"rc{rc}"

    def _races(self, slog, label, replay):
        d = os.path.dirname(slog)
        for f in sorted(os.listdir(d)):
            if not f.startswith(os.path.basename(slog)):
                continue
            txt = open(os.path.join(d, f), errors="replace").read()
            for rep in txt.split("==================\n"):
                m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", rep)
                if not m:
                    continue
                frames = []
                for blk in re.split(r"\n\n|\n  (?=\S)", rep):
                    fr = [x for x in re.findall(r"#\d+ (.*?) (\S+):(\d+)", blk)]
                    own = [x for x in fr if "/include/" in x[1] and REPO in x[1] or (REPO + "/src") in x[1]]
                    if own:
                        fn = re.sub(r"<.*", "", own[0][0]).split("(")[0]
                        frames.append(f"{os.path.basename(own[0][1])}:{fn}")
                    if len(frames) >= 2:
                        break
                if not frames:
                    # no frame of the code under test: not evidence about it
                    self.counters["foreign_race_reports"] = self.counters.get("foreign_race_reports", 0) + 1
                    continue
                self.counters["race_reports"] = self.counters.get("race_reports", 0) + 1
                key = f"{label}:race:{m.group(1).strip()}:" + "|".join(sorted(set(frames)))
                if os.environ.get("VT_KEEP"):
                    open(os.path.join(BUILD, "races.log"), "a").write(key + "\n" + rep + "\n")
                self.viol.append((key, rep[:1800].replace("\n", " / "), replay))

    def _replay(self, cmd, cur):
        c = cur.split(" ", 1)[0]
        cc = [x for x in cmd]
        if "--out" in cc:
            i = cc.index("--out")
            del cc[i:i + 2]
        return " ".join(cc) + (f" --case {c}" if c.lstrip("-").isdigit() else "")

    # ---- verdict -------------------------------------------------------
    def finish(self, rule, level="exploration", min_evals=1, assumptions=(), extra=None):
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        listed = [f for f in kf.get("findings", []) if f["property"] == self.pid]
        unlisted, seen = {}, {f["key"]: 0 for f in listed}
        for k, m, r in self.viol:
            hit = None
            for f in listed:
                if re.fullmatch(f["key"], k):
                    hit = f["key"]
                    break
            if hit:
                seen[hit] += 1
            else:
                unlisted.setdefault(k, (m, r))
        for f in listed:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}" + ("" if seen[f["key"]] else " (not met in this run)"))
        if not unlisted and self.evals < min_evals:
            raise HarnessError(f"observed too little: {self.evals} evaluations < {min_evals}")
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.hashes), "rule": rule,
               "samples": self.samples[:8], "counters": dict(sorted(self.counters.items())),
               "maxima": dict(sorted(self.maxima.items()))}
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(unlisted)}
        with open(rep_path(f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if unlisted:
            rp = rep_path(f"{self.pid}.replay.txt")
            with open(rp, "w") as f:
                for k, (m, r) in unlisted.items():
                    f.write(f"key: {k}\nwhat: {m}\nreplay: {r}\n\n")
            for k, (m, r) in list(unlisted.items())[:20]:
                print(f"  [{k}] {m[:400]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} evaluations={self.evals} distinct={len(self.hashes)} wall={ev['wall_s']}s")
        return 0
