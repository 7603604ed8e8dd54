"""Builds, job running, verdicts and evidence shared by all checks."""
import array, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GECS_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
WIDE = os.path.join(VERIF, "wide")
CORES = os.cpu_count() or 8
TRIPLE = "x86_64-unknown-linux-gnu"


class Inconclusive(Exception):
    pass


def repo_hash():
    """Content hash of everything in /repo that can influence a build."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(os.path.relpath(p, REPO).encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()


def base_env():
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    return env


class Config:
    """One build configuration of a crate of ours against /repo."""

    def __init__(self, name, *, features=(), release=False, nightly=False, san=None, miri=False, crate=HARNESS, bin="gecs_harness", hooks=True, target=None, profile=None):
        self.name, self.features, self.release, self.nightly = name, list(features), release, nightly
        self.san, self.miri, self.crate, self.bin, self.hooks = san, miri, crate, bin, hooks
        self.target = os.path.join(TARGET, target or name)
        self.profile = profile or {}
        self.error = None
        self.built = False

    def rustflags(self):
        f = []
        if self.hooks:
            f.append("--cfg gecs_verif")
        if self.san:
            f.append(f"-Zsanitizer={self.san} -Cforce-frame-pointers=yes")
        return " ".join(f)

    def env(self):
        env = base_env()
        env["CARGO_TARGET_DIR"] = self.target
        env.update(self.profile)
        if self.rustflags():
            env["RUSTFLAGS"] = self.rustflags()
        if self.miri:
            env["MIRIFLAGS"] = "-Zmiri-ignore-leaks -Zmiri-permissive-provenance"
        env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=1"
        return env

    def cargo(self, *cmd):
        c = ["cargo"]
        if self.nightly or self.miri or self.san:
            c.append("+nightly")
        c += list(cmd) + ["--offline"]
        if self.release:
            c.append("--release")
        if self.san:
            c += ["--target", TRIPLE]
        if self.features:
            c += ["--features", ",".join(self.features)]
        return c

    def exe(self):
        d = self.target
        if self.san:
            d = os.path.join(d, TRIPLE)
        return os.path.join(d, "release" if self.release else "debug", self.bin)

    def build(self, timeout=700):
        os.makedirs(self.target, exist_ok=True)
        stamp = os.path.join(self.target, "repo.stamp")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old and old != h:
            # never trust timestamps across trees
            subprocess.run(["cargo", "clean", "--offline", "-p", "gecs", "-p", "gecs_macros", "-p", self.bin],
                           cwd=self.crate, env=self.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for sub in ("miri",):
                shutil.rmtree(os.path.join(self.target, sub), ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(h)
        # `cargo miri run -- --n 0` builds and runs nothing; a plain build otherwise.
        if self.miri:
            cmd = self.cargo("miri", "run") + ["--", "--n", "0"]
        else:
            cmd = self.cargo("build")
        try:
            r = subprocess.run(cmd, cwd=self.crate, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            self.error = "build timed out"
            return False
        if r.returncode != 0:
            self.error = r.stdout
            return False
        self.built = True
        return True

    def build_or_fallback(self):
        if self.build():
            return True
        if self.hooks:
            first = self.error
            self.hooks = False
            if self.build():
                log(f"{self.name}: built without the hook (the hooked build failed)")
                return True
            self.error = first
        return False


def log(msg):
    print(f"[{time.strftime('%H:%M:%S')}] {msg}", flush=True)


def build_all(configs):
    ths = []
    for c in configs:
        t = threading.Thread(target=c.build_or_fallback)
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    return [c for c in configs if not c.built]


HARNESS_CONFIGS = {
    "dbg": dict(features=["events"]),
    "rel": dict(features=["events", "32_components"], release=True),
    "asan": dict(features=["events"], san="address"),
    "miri": dict(features=["events"], miri=True),
    "wide": dict(features=["events"], crate=WIDE, bin="gecs_wide", hooks=False),
    "wrap": dict(features=["events", "wrapping_version"]),
    "wraprel": dict(features=["events", "wrapping_version", "32_components"], release=True),
    "wrapasan": dict(features=["wrapping_version"], san="address"),
}


def harness_config(name):
    return Config("h_" + name, **HARNESS_CONFIGS[name])


class Job:
    def __init__(self, cfg, scenario, prop, seed, n, skip=0, stride=1, max_secs=60, extra=(), scale=1):
        self.cfg, self.scenario, self.prop, self.seed = cfg, scenario, prop, seed
        self.n, self.skip, self.stride, self.max_secs = n, skip, stride, max_secs
        self.extra, self.scale = list(extra), scale
        self.out = ""
        self.err = ""
        self.rc = None
        self.timeout = False
        self.cpu = 0.0
        self.dfile = None

    def args(self, n=None, skip=None, trace=False):
        a = ["--scenario", self.scenario, "--prop", self.prop, "--seed", str(self.seed), "--n", str(self.n if n is None else n),
             "--skip", str(self.skip if skip is None else skip), "--stride", str(self.stride), "--scale", str(self.scale),
             "--max-secs", str(self.max_secs)] + self.extra
        if trace:
            a.append("--trace")
        elif self.dfile and not self.cfg.miri:
            a += ["--distinct", self.dfile]
        return a

    def cmd(self, **kw):
        if self.cfg.miri:
            return self.cfg.cargo("miri", "run") + ["--"] + self.args(**kw)
        return [self.cfg.exe()] + self.args(**kw)

    def shell(self, **kw):
        env = self.cfg.env()
        pre = " ".join(f"{k}='{env[k]}'" for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "ASAN_OPTIONS", *self.cfg.profile) if k in env)
        return f"cd {self.cfg.crate} && {pre} {' '.join(self.cmd(**kw))}"

    def run(self, leaks=False, **kw):
        env = self.cfg.env()
        if not kw.get("trace"):
            self.dfile = os.path.join(BUILD, "distinct", f"{os.getpid()}-{id(self)}.bin")
            os.makedirs(os.path.dirname(self.dfile), exist_ok=True)
        if leaks:
            env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
        grace = 900 if self.cfg.miri else 240
        t0 = time.time()
        r0 = resource.getrusage(resource.RUSAGE_CHILDREN)
        p = subprocess.Popen(self.cmd(**kw), cwd=self.cfg.crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        try:
            self.out, self.err = p.communicate(timeout=min(self.max_secs, 1500) + grace)
        except subprocess.TimeoutExpired:
            self.timeout = True
            try:
                with open(f"/proc/{p.pid}/stat") as f:
                    st = f.read().rsplit(")", 1)[1].split()
                self.cpu = (int(st[11]) + int(st[12])) / os.sysconf("SC_CLK_TCK")
            except OSError:
                pass
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            self.out, self.err = p.communicate()
        self.rc = p.returncode
        self.wall = time.time() - t0
        return self


def run_pool(jobs, workers, leaks=False, stop=None):
    """Runs jobs on a fixed number of workers; stops handing out jobs once `stop(job)` is true."""
    lock = threading.Lock()
    it = iter(jobs)
    done = []
    halt = [False]

    def work():
        while True:
            with lock:
                if halt[0]:
                    return
                j = next(it, None)
            if j is None:
                return
            j.run(leaks=leaks and j.cfg.san == "address")
            with lock:
                done.append(j)
                if stop and stop(j):
                    halt[0] = True

    ths = [threading.Thread(target=work) for _ in range(workers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return done


def spread(cfg, scenario, prop, seed, n, workers=8, **kw):
    """Splits n items over workers, interleaved, so that a time limit keeps the coverage even."""
    workers = max(1, min(workers, n))
    return [Job(cfg, scenario, prop, seed, (n - w + workers - 1) // workers, skip=w, stride=workers, **kw) for w in range(workers)]


SAN = re.compile(r"ERROR: AddressSanitizer: ([a-zA-Z-]+)|error: Undefined Behavior: ([^\n]*)|error: (abnormal termination[^\n]*)|(unsafe precondition\(s\) violated[^\n]*)|(panic in a function that cannot unwind)|(panic in a destructor during cleanup)")


class Verdict:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []   # (message, replay path)
        self.inconclusive = []
        self.known = []
        self.stats = {}
        self.per = {}
        self.evaluations = 0
        self.distinct = 0
        self.seen = {}  # per scenario: hashes of the situations observed
        self.soft = []
        self.samples = []
        self.t0 = time.time()
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)

    def replay_path(self):
        return os.path.join(self.replays, f"{self.prop}-{self.tier}-{self.seed}-{len(self.violations)}.txt")

    def violate(self, msg, body):
        known = known_findings(self.prop)
        for k in known:
            if k and k in msg:
                self.known.append(k)
                return
        path = self.replay_path()
        with open(path, "w") as f:
            f.write(f"property {self.prop}\n{msg}\n\n{body}\n")
        self.violations.append((msg, path))

    def add_job(self, j):
        """Classifies the outcome of one harness process."""
        prop = self.prop
        tag = f"{j.cfg.name[2:]}:{j.scenario}"
        d = self.per.setdefault(tag, {"processes": 0, "items": 0, "evaluations": 0, "distinct": 0})
        d["processes"] += 1
        nd = 0
        for m in re.finditer(r"^STAT (\S+) (\d+)$", j.out, re.M):
            k, v = m.group(1), int(m.group(2))
            if k == "items":
                d["items"] += v
            elif k == "evaluations":
                d["evaluations"] += v
                self.evaluations += v
            elif k == "distinct":
                nd = v
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        if j.dfile and os.path.exists(j.dfile):
            a = array.array("Q")
            with open(j.dfile, "rb") as f:
                a.frombytes(f.read())
            os.unlink(j.dfile)
            seen = self.seen.setdefault(j.scenario, set())
            n0 = len(seen)
            seen.update(a)
            d["new_distinct"] = d.get("new_distinct", 0) + len(seen) - n0
        d["distinct"] = max(d["distinct"], nd)
        for m in re.finditer(r"^SAMPLE (.*)$", j.out, re.M):
            if sum(1 for s in self.samples if s.startswith(tag)) < 3:
                self.samples.append(f"{tag} seed {j.seed}: {m.group(1)[:400]}")
        tainted = int((re.search(r"^STAT tainted (\d+)$", j.out, re.M) or [0, "0"])[1])
        viol = re.findall(r"^VIOL props=(\S+) item=(\d+) msg=(.*)$", j.out, re.M)
        ended = re.search(r"^END code=(\d+)", j.out, re.M)
        mine = [v for v in viol if prop in v[0].split(",") or "*" in v[0].split(",")]
        if mine:
            item = int(mine[0][1])
            one = Job(j.cfg, j.scenario, j.prop, j.seed, 1, skip=item, stride=1, max_secs=j.max_secs, extra=j.extra, scale=j.scale)
            one.run(trace=True)
            body = f"replay: {one.shell(trace=True)}\n\nfirst run:\n" + "\n".join(f"VIOL {a} item {b}: {c}" for a, b, c in viol[:8])
            body += f"\n\nreplayed (exit {one.rc}); operations on stderr, monitor verdicts on stdout:\n{one.out[-6000:]}\n{one.err[-60000:]}"
            self.violate(f"[{tag} seed {j.seed} item {item}] {mine[0][2]}", body)
            return
        if ended and j.rc == 0:
            return
        blob = j.err + "\n" + j.out
        if "LeakSanitizer" in j.err and "AddressSanitizer: " not in j.err.replace("SUMMARY: AddressSanitizer", ""):
            if "has encountered a fatal error" in j.err:
                self.stats["lsan_unavailable"] = self.stats.get("lsan_unavailable", 0) + 1
                return
            if tainted == 0 and "detected memory leaks" in j.err:
                self.violate(f"[{tag} seed {j.seed}] memory leaked by a history that dropped every world", f"replay: {j.shell()}\n\n{j.err[-20000:]}")
            return
        m = SAN.search(blob)
        cause = None
        if m:
            cause = next(g for g in m.groups() if g)
            if j.cfg.miri and re.search(r"error: unsupported operation|resource exhaustion", blob) and not m.group(2):
                cause = None
        elif j.rc is not None and j.rc < 0 and -j.rc in (4, 5, 6, 7, 8, 11) and not j.timeout:
            if "memory allocation of" not in blob:
                cause = f"killed by signal {-j.rc}"
        if cause:
            self.violate(f"[{tag} seed {j.seed}] {cause} in a valid workload", f"replay: {j.shell()}\n\n{blob[-30000:]}")
            return
        if j.timeout and not j.cfg.miri and j.cpu > j.max_secs + 200:
            self.violate(f"[{tag} seed {j.seed}] one item made no progress in {j.cpu - j.max_secs:.0f} s of CPU time", f"replay: {j.shell()}\n\n{blob[-10000:]}")
            return
        if j.timeout and j.cfg.miri:
            self.soft.append(f"{tag} seed {j.seed} skip {j.skip}: stopped after {j.wall:.0f} s")
            return
        why = "timed out" if j.timeout else f"exit {j.rc}"
        self.inconclusive.append(f"{tag} seed {j.seed} skip {j.skip}: {why}: {blob.strip()[-400:]}")

    def finish(self, level, rule, assumptions, extra=None, exhaustive=None):
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        self.distinct += sum(len(x) for x in self.seen.values())
        cov = {
            "evaluations": int(self.evaluations),
            "distinct_nontrivial": int(self.distinct),
            "rule": rule,
            "samples": self.samples[:40] or ["none"],
            "workloads": self.per,
            "observed": self.stats,
        }
        if extra:
            cov.update(extra)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        if self.soft:
            cov["stopped_early"] = self.soft
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        for m, _ in self.violations[:8]:
            print(f"  {m[:600]}")
        if self.violations:
            print(f"VIOLATION property={self.prop} replay={self.violations[0][1]}")
            return 1
        for i in self.inconclusive[:8]:
            print(f"INCONCLUSIVE: {i}")
        if self.inconclusive or not self.evaluations or not self.distinct:
            print(f"{self.prop}: no verdict ({self.evaluations} evaluations)")
            return 2
        print(f"{self.prop}: held on {self.evaluations} monitor evaluations, {self.distinct} distinct situations, {time.time() - self.t0:.1f} s")
        return 0


def known_findings(prop):
    """`finding: property=<id> match=<text>` lines; `fixed:` lines suppress nothing."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.+)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out
