"""Generated client programs: building gecs once per configuration, compiling and running programs against it."""
import itertools
import random
from .core import *

GENLIB = os.path.join(VERIF, "genlib")
OUT = os.path.join(BUILD, "gen")
RUST_ICE = re.compile(r"internal compiler error|rustc-ice|SIGSEGV|memory allocation of")


class Lib:
    """gecs built by cargo in one configuration; programs are then compiled directly with rustc."""

    def __init__(self, name="base", features=(), release=False, nightly=False, target=None):
        self.cfg = Config("g_" + name, features=features, release=release, nightly=nightly, crate=GENLIB, bin="gecs_genlib", hooks=False, target=target and "g_" + target)
        self.release, self.nightly = release, nightly
        self.features = list(features)
        self.error = None
        self.rlib = self.rmeta = None
        self.dirs = set()

    def build(self):
        if not self.cfg.build():
            self.error = self.cfg.error
            return False
        cmd = self.cfg.cargo("build") + ["--message-format=json"]
        r = subprocess.run(cmd, cwd=GENLIB, env=self.cfg.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
        for l in r.stdout.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("reason") == "compiler-artifact":
                # (newer cargo keeps every crate in a directory of its own)
                self.dirs.update(os.path.dirname(f) for f in d["filenames"] if f.endswith((".rlib", ".rmeta", ".so")))
            if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "gecs":
                for f in d["filenames"]:
                    if f.endswith(".rlib"):
                        self.rlib = f
                    elif f.endswith(".rmeta"):
                        self.rmeta = f
        if not self.rlib:
            self.error = r.stderr[-2000:] or "gecs artifact not found"
            return False
        return True

    def cmd(self, src, out, cfgs=(), emit=None, opt=None, extra=()):
        c = ["rustc"] + (["+nightly"] if self.nightly else [])
        c += ["--edition", "2021", "--crate-type", "bin", "--crate-name", "gp", "--extern", "gecs=" + self.rlib]
        for x in sorted(self.dirs):
            c += ["-L", "dependency=" + x]
        c += ["--extern", "gecs=" + self.rmeta] if self.rmeta else []
        c += ["-A", "warnings", "-C", "debuginfo=0", "-C", "codegen-units=4"]
        if self.release:
            c += ["-C", "opt-level=1", "-C", "debug-assertions=off"]
        else:
            c += ["-C", "opt-level=0", "-C", "debug-assertions=on"]
        for f in cfgs:
            c += ["--cfg", f]
        if emit:
            c += ["--emit", emit]
        c += list(extra) + ["-o", out, src]
        return c


class Res:
    def __init__(self):
        self.rc = None
        self.out = self.err = ""
        self.timeout = False

    @property
    def odd(self):
        """Neither a clean success nor ordinary compile errors."""
        return self.timeout or self.rc not in (0, 1) or bool(RUST_ICE.search(self.err))


def call(cmd, timeout=240, cwd=None, env=None):
    r = Res()
    p = subprocess.Popen(cmd, cwd=cwd or BUILD, env=env or base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        r.out, r.err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        r.out, r.err = p.communicate()
    r.rc = p.returncode
    return r


def workdir(name):
    d = os.path.join(OUT, f"{name}-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def write(path, text):
    with open(path, "w") as f:
        f.write(text)
    return path


def pmap(fn, items, workers=CORES, deadline=None):
    """Runs fn over items on threads; items not started before the deadline are skipped (returned as None)."""
    items = list(items)
    res = [None] * len(items)
    it = iter(range(len(items)))
    lock = threading.Lock()
    errs = []

    def work():
        while True:
            with lock:
                k = next(it, None)
            if k is None or errs or (deadline and time.time() > deadline):
                return
            try:
                res[k] = fn(items[k])
            except Exception as e:  # reported by the caller's thread
                errs.append(e)
                return
    ths = [threading.Thread(target=work) for _ in range(workers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    return res


def error_lines(stderr):
    """Line numbers of the main file that carry an error (primary spans and the macro calls that led to them)."""
    lines = set()
    n = 0
    for l in stderr.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        n += 1
        for s in d.get("spans", []):
            if not s.get("is_primary"):
                continue
            while s:
                if s["file_name"].endswith("main.rs"):
                    lines.update(range(s["line_start"], s["line_end"] + 1))
                e = s.get("expansion")
                s = e["span"] if e else None
    return lines, n


def first_errors(err, n=6):
    return "\n".join([l for l in err.splitlines() if l.startswith("error")][:n])


class NegBatch:
    """Forbidden snippets, each of which must be rejected; compiled together, and singly when the joint
    compilation does not already point at one of them."""

    def __init__(self, prelude, items, tail="fn main() {}\n"):
        self.prelude, self.items, self.tail = prelude, items, tail  # items: (label, text)

    def text(self, only=None):
        s = self.prelude
        ranges = []
        for k, (label, t) in enumerate(self.items):
            if only is not None and k not in only:
                continue
            a = s.count("\n") + 1
            s += t if t.endswith("\n") else t + "\n"
            ranges.append((k, a, s.count("\n")))
        return s + self.tail, ranges

    def accepted(self, lib, d, cfgs=(), singly=False):
        """Indices of the snippets that compile (a violation each), plus odd outcomes."""
        os.makedirs(d, exist_ok=True)
        pending = list(range(len(self.items)))
        odd = []
        # An early phase's errors can hide a later phase's, so the ones not pointed at are compiled together again.
        while not singly and len(pending) > 1:
            src, ranges = self.text(only=set(pending))
            p = write(os.path.join(d, "main.rs"), src)
            r = call(lib.cmd(p, os.path.join(d, "o.rmeta"), cfgs, emit="metadata", extra=["--error-format=json"]))
            if r.rc != 1 or r.odd:
                break
            lines, _ = error_lines(r.err)
            left = [k for k, a, b in ranges if not any(a <= x <= b for x in lines)]
            if len(left) == len(pending):
                break
            pending = left
        bad = []
        single = 0
        for k in pending:
            if len(bad) >= 4:
                break
            src, _ = self.text(only={k})
            dd = os.path.join(d, f"n{k}")
            os.makedirs(dd, exist_ok=True)
            p = write(os.path.join(dd, "main.rs"), src)
            r = call(lib.cmd(p, os.path.join(dd, "o.rmeta"), cfgs, emit="metadata"))
            single += 1
            if r.rc == 0:
                bad.append((k, p, src))
            elif r.odd:
                odd.append((k, r.err[-400:]))
        return bad, odd, single
