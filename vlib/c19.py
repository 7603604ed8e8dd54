"""C19: the same histories and programs in every feature combination, with debug assertions on and off."""
from .gencore import *
from . import c05, c15, c18

FEATS = ["events", "32_components", "wrapping_version"]
SHORT = ["ev", "32", "wr"]


def combo(mask):
    return [f for k, f in enumerate(FEATS) if mask >> k & 1]


def cname(mask):
    return "".join(s for k, s in enumerate(SHORT) if mask >> k & 1) or "none"


# scenario, items per configuration (quick, thorough round), scale. The last column: whether the wrapping feature may change it.
SCEN = [("hist", 240, 600, 1), ("exh", 240, 800, 1), ("fault", 160, 500, 1), ("clonediv", 80, 240, 1), ("brk", 120, 400, 1), ("dec", 60, 200, 1),
        ("borrow", 90, 390, 1), ("conv", 40, 150, 1), ("alloc", 40, 120, 1), ("forge", 60, 300, 1), ("overflow", 160, 600, 1)]


def outcome(j):
    """item -> what happened, for one harness process"""
    res = {}
    for m in re.finditer(r"^DIGEST (\d+) ([0-9a-f]+)$", j.out, re.M):
        res[int(m.group(1))] = ("ok", m.group(2))
    for m in re.finditer(r"^(?:VIOL|TAINT) props=(\S+) item=(\d+) msg=(.*)$", j.out, re.M):
        res[int(m.group(2))] = ("monitor", m.group(1), m.group(3))
    return res


def crashed(j):
    """A crash or sanitizer report of a harness process, or None."""
    blob = j.err + "\n" + j.out
    m = SAN.search(blob)
    if m:
        if j.cfg.miri and re.search(r"error: unsupported operation|resource exhaustion", blob) and not m.group(2):
            return None
        return next(g for g in m.groups() if g)
    if j.rc is not None and j.rc < 0 and -j.rc in (4, 5, 6, 7, 8, 11) and not j.timeout and "memory allocation of" not in blob:
        return f"killed by signal {-j.rc}"
    return None


def run(prop, tier, seed):
    v = Verdict(prop, tier, seed)
    thorough = tier == "thorough"
    t_end = time.time() + (800 if thorough else 420)
    lock = threading.Lock()
    d0 = workdir("C19")
    tot = {"configurations": 16, "harness_processes": 0, "items_compared": 0, "configurations_compared_per_item": 16, "uniform_monitor_reports": 0, "programs": 0, "program_runs": 0,
           "component_counts_tried": 0, "client_programs_compiled_everywhere": 0}
    distinct = set()

    # ---- builds -----------------------------------------------------------------------------------
    cfgs = {(m, r): Config(f"h19_{cname(m)}_{'rel' if r else 'dbg'}", features=combo(m), release=r, profile={"CARGO_PROFILE_DEV_OPT_LEVEL": "0", "CARGO_PROFILE_DEV_DEBUG": "0"}) for m in range(8) for r in (False, True)}
    libs = {(m, r): Lib(f"19_{cname(m)}_{'rel' if r else 'dbg'}", features=combo(m), release=r, target=f"19_{'rel' if r else 'dbg'}") for m in range(8) for r in (False, True)}
    san = {"wrapasan": harness_config("wrapasan"), "asan": harness_config("asan"), "asanrel": Config("h_asanrel", features=combo(7), san="address", release=True),
           "miriwrap": Config("h_miriwrap", features=["wrapping_version"], miri=True)}
    log(f"{prop}: building {len(cfgs)} harness and {len(libs)} library configurations")

    def build(x):
        if isinstance(x, Config):
            return x.build_or_fallback()
        for l in x:  # one target directory, one after the other
            l.build()
    pmap(build, list(san.values()) + [[libs[m, r] for m in range(8)] for r in (False, True)] + list(cfgs.values()))
    broken = [x for x in list(cfgs.values()) + list(san.values()) if not x.built] + [l for l in libs.values() if l.error]
    if broken:
        core = [k for k, l in libs.items() if l.error]
        if core and len(core) < len(libs):
            v.violate(f"gecs does not build with features {sorted({cname(k[0]) for k in core})} although it does without: {first_errors(libs[core[0]].error, 2)}", libs[core[0]].error)
            return v.finish("exploration", "", [])
        bad = {k for k, c in cfgs.items() if not c.built}
        if not core and bad and bad == {k for k in cfgs if k[0] & 2} and all("could not compile" in (cfgs[k].error or "") for k in bad):
            k = min(bad)
            v.violate(f"a world with archetypes of up to 32 components does not compile with 32_components, while the same world without them does: {first_errors(cfgs[k].error, 2)}", cfgs[k].error)
            return v.finish("exploration", "", [])
        v.inconclusive += [f"{getattr(x, 'name', 'library')} does not build: {(x.error or '')[-800:]}" for x in broken[:3]]
        return v.finish("exploration", "", [])
    hook = all(c.hooks for c in cfgs.values())
    t_end = max(t_end, time.time() + 200)

    # ---- identical histories ---------------------------------------------------------------------------
    def harness_round(sd, part, salt):
        groups = []
        jobs = []
        for scen, q, t, scale in SCEN:
            if scen == "overflow" and not hook:
                v.soft.append("overflow histories skipped: the hook does not build on this tree")
                continue
            n = t if part == "thorough" else q
            ch = 2
            for w in range(ch):
                g = []
                for key, c in cfgs.items():
                    j = Job(c, scen, "C19", sd, (n - w + ch - 1) // ch, skip=w, stride=ch, max_secs=90, extra=["--digests"], scale=scale)
                    g.append((key, j))
                    jobs.append(j)
                groups.append((scen, g))
        run_pool(jobs, CORES, stop=lambda j: False)
        for scen, g in groups:
            compare(scen, g, sd)

    def compare(scen, g, sd):
        if v.violations:
            return
        tag = f"{scen} seed {sd}"
        dead = {key: crashed(j) for key, j in g}
        for key, j in g:
            nm = f"{cname(key[0])}/{'rel' if key[1] else 'dbg'}:{scen}"
            d = v.per.setdefault(nm, {"processes": 0, "items": 0, "evaluations": 0, "distinct": 0})
            d["processes"] += 1
            for m in re.finditer(r"^STAT (\S+) (\d+)$", j.out, re.M):
                k, x = m.group(1), int(m.group(2))
                if k in d:
                    d[k] += x
                    if k == "evaluations":
                        v.evaluations += x
                elif k in ("overflow_panics", "wraparounds", "created", "destroyed", "audits", "boundary_histories"):
                    v.stats[k] = v.stats.get(k, 0) + x
            if j.dfile and os.path.exists(j.dfile):
                a = array.array("Q")
                with open(j.dfile, "rb") as f:
                    a.frombytes(f.read())
                os.unlink(j.dfile)
                v.seen.setdefault(scen, set()).update(a)
            tot["harness_processes"] += 1
        some = {k: c for k, c in dead.items() if c}
        # Wrapping histories cross the boundary where the others panic: those are compared among themselves.
        parts = [[x for x in g]] if scen != "overflow" else [[x for x in g if x[0][0] & 4], [x for x in g if not x[0][0] & 4]]
        if some and len(some) < len(g):
            key = next(iter(some))
            j = dict(g)[key]
            v.violate(f"[{tag}] {some[key]} with features {cname(key[0])} ({'release' if key[1] else 'debug'}); {len(g) - len(some)} of {len(g)} configurations run the same histories cleanly", f"replay: {j.shell()}\n\n{(j.err + j.out)[-20000:]}")
            return
        if some:
            v.soft.append(f"{tag}: {next(iter(some.values()))} in every configuration")
            return
        for key, j in g:
            if j.rc not in (0, 1) or j.timeout or not re.search(r"^END ", j.out, re.M):
                v.inconclusive.append(f"{tag} {cname(key[0])}/{key[1]}: exit {j.rc} {'timed out' if j.timeout else ''} {j.err[-300:]}")
                return
        for part in parts:
            outs = {key: outcome(j) for key, j in part}
            common = set.intersection(*[set(o) for o in outs.values()])
            if scen == "overflow" and part[0][0][0] & 4:
                pass
            for i in sorted(common):
                kinds = {}
                for key, o in outs.items():
                    x = o[i]
                    # (messages may name configuration-specific details, and forged handles may panic only in debug builds)
                    kinds.setdefault(x[:2] if scen != "forge" else x[:1] + (x[1:2] if x[0] == "monitor" else ()), []).append(key)
                tot["items_compared"] += 1
                v.evaluations += len(outs)
                if len(kinds) == 1:
                    k = next(iter(kinds))
                    if k[0] == "monitor":
                        if "C19" in k[1].split(","):
                            j = dict(part)[part[0][0]]
                            v.violate(f"[{tag} item {i}] {outs[part[0][0]][i][2]}", replay(j, i))
                            return
                        tot["uniform_monitor_reports"] += 1
                    else:
                        distinct.add((scen,) + k)
                    continue
                groups = sorted(kinds.items(), key=lambda kv: -len(kv[1]))
                odd = groups[-1][1][0]
                mon = next((k for k in kinds if k[0] == "monitor"), None)
                if mon:
                    odd = kinds[mon][0]
                what = "; ".join(f"{'/'.join(k[:2])}: {', '.join(cname(a) + ('/rel' if b else '/dbg') for a, b in ks)}" for k, ks in groups)
                msg = outs[odd][i][2] if outs[odd][i][0] == "monitor" else "different observable results"
                other = next(key for key in outs if outs[key][i] != outs[odd][i])
                v.violate(f"[{tag} item {i}] the same history ends differently with features {cname(odd[0])} ({'release' if odd[1] else 'debug'}): {msg}", f"{what}\n\n{replay(dict(part)[odd], i)}\n\n===== and, different:\n{replay(dict(part)[other], i)}")
                return

    def replay(j, i):
        one = Job(j.cfg, j.scenario, j.prop, j.seed, 1, skip=i, stride=1, max_secs=60, extra=j.extra, scale=j.scale)
        one.run(trace=True)
        return f"replay: {one.shell(trace=True)}\n{one.out[-3000:]}\n{one.err[-20000:]}"

    # ---- the whole world (17 and 32 component archetypes included), wrapping and sanitizers --------------
    def wide_round(sd, n):
        jobs = []
        for key, c in cfgs.items():
            if key[0] & 2:
                for scen, k in (("hist", n), ("clonediv", n // 4), ("fault", n // 2), ("brk", n // 2), ("dec", n // 4)):
                    jobs.append((key, Job(c, scen, "C19", sd, k, max_secs=60)))
        run_pool([j for _, j in jobs], CORES, stop=lambda j: False)
        base = {}
        for key, j in jobs:
            if v.violations:
                return
            if j.dfile and os.path.exists(j.dfile):
                os.unlink(j.dfile)
            tag = f"{j.scenario} seed {sd}, 10 archetypes, {cname(key[0])}/{'rel' if key[1] else 'dbg'}"
            m = re.search(r"^STAT evaluations (\d+)", j.out, re.M)
            v.evaluations += int(m.group(1)) if m else 0
            tot["harness_processes"] += 1
            got = re.findall(r"^(?:VIOL|TAINT) props=(\S+) item=(\d+) msg=(.*)$", j.out, re.M)
            cr = crashed(j)
            if not got and not cr:
                continue
            # does the same monitor report on histories that need no feature?
            if j.scenario not in base:
                b = Job(cfgs[(0, False)], j.scenario, "C19", sd, j.n * 2, max_secs=60)
                b2 = Job(cfgs[(0, True)], j.scenario, "C19", sd, j.n * 2, max_secs=60)
                b.run()
                b2.run()
                base[j.scenario] = (set(p for x in (b, b2) for ps in re.findall(r"^(?:VIOL|TAINT) props=(\S+)", x.out, re.M) for p in ps.split(",")), crashed(b) or crashed(b2))
            props, bc = base[j.scenario]
            new = [x for x in got if not set(x[0].split(",")) & props]
            if cr and not bc:
                v.violate(f"[{tag}] {cr}", f"replay: {j.shell()}\n\n{(j.err + j.out)[-20000:]}")
            elif new and not bc:
                v.violate(f"[{tag} item {new[0][1]}] only with features: {new[0][2]}", replay(j, int(new[0][1])))
            else:
                tot["uniform_monitor_reports"] += 1

    def san_round(sd, k):
        jobs = []
        if san["wrapasan"].hooks:
            jobs += spread(san["wrapasan"], "overflow", "C19", sd, 160 * k, workers=2, max_secs=60)
            jobs += spread(san["asanrel"], "overflow", "C19", sd, 160 * k, workers=2, max_secs=60)
            jobs += spread(san["miriwrap"], "overflow", "C19", sd, 4 * k, workers=2, max_secs=60, scale=0)
        jobs += spread(san["wrapasan"], "hist", "C19", sd, 40 * k, workers=2, max_secs=60)
        jobs += spread(san["asanrel"], "hist", "C19", sd, 60 * k, workers=2, max_secs=60)
        jobs += spread(san["asanrel"], "fault", "C19", sd, 60 * k, workers=2, max_secs=60)
        jobs += spread(san["asanrel"], "clonediv", "C19", sd, 40 * k, workers=2, max_secs=60)
        jobs += spread(san["asanrel"], "reuse", "C19", sd, 4, workers=1, max_secs=60, extra=["--cycles", str(1 << 20)])
        run_pool(jobs, CORES, stop=lambda j: False)
        for j in jobs:
            if v.violations:
                return
            nm = f"{j.cfg.name[2:]}:{j.scenario}"
            d = v.per.setdefault(nm, {"processes": 0, "items": 0, "evaluations": 0, "distinct": 0})
            d["processes"] += 1
            for m in re.finditer(r"^STAT (\S+) (\d+)$", j.out, re.M):
                if m.group(1) in d:
                    d[m.group(1)] += int(m.group(2))
                    if m.group(1) == "evaluations":
                        v.evaluations += int(m.group(2))
                elif m.group(1) in ("overflow_panics", "wraparounds", "boundary_histories"):
                    v.stats[m.group(1)] = v.stats.get(m.group(1), 0) + int(m.group(2))
            if j.dfile and os.path.exists(j.dfile):
                os.unlink(j.dfile)
            mine = [x for x in re.findall(r"^(?:VIOL|TAINT) props=(\S+) item=(\d+) msg=(.*)$", j.out, re.M) if "C19" in x[0].split(",")]
            if mine:
                v.violate(f"[{nm} seed {sd} item {mine[0][1]}] {mine[0][2]}", replay(j, int(mine[0][1])))
                return
            cr = crashed(j)
            if cr:
                b = Job(san["asan"], "hist" if j.scenario == "overflow" else j.scenario, "C19", sd, max(j.n, 60), max_secs=60, extra=j.extra, scale=j.scale)
                b.run()
                if crashed(b):
                    tot["uniform_monitor_reports"] += 1
                else:
                    v.violate(f"[{nm} seed {sd}] {cr} (the default feature set runs cleanly)", f"replay: {j.shell()}\n\n{(j.err + j.out)[-20000:]}")
                return

    def wrap_real(cycles):
        """Across the boundary without the hook."""
        jobs = spread(cfgs[(4, True)], "reuse", "C19", seed, 4, workers=4, max_secs=700, extra=["--cycles", str(cycles)])
        run_pool(jobs, 4, stop=lambda j: False)
        for j in jobs:
            if j.dfile and os.path.exists(j.dfile):
                os.unlink(j.dfile)
            got = re.findall(r"^(?:VIOL|TAINT) props=(\S+) item=(\d+) msg=(.*)$", j.out, re.M)
            cr = crashed(j)
            with lock:
                m = re.search(r"^STAT evaluations (\d+)", j.out, re.M)
                v.evaluations += int(m.group(1)) if m else 0
                if got or cr:
                    v.violate(f"[reuse of one position, wrapping_version] {cr or got[0][2]}", f"replay: {j.shell()}\n\n{(j.err + j.out)[-10000:]}")

    # ---- identical programs ---------------------------------------------------------------------------
    def program(i):
        if v.violations:
            return
        rng = random.Random(f"c19p-{seed}-{i}")
        if i % 3 < 2:
            text, flags = c05.Program(f"c19{seed}", i, False, 5, 16).text(), []
        else:
            ds = []
            while len(ds) < 4:
                x = c15.Decl(rng, maxc=16)
                if x.archs:
                    ds.append(x)
            text = c15.PRELUDE + "".join(c15.check_mod(k, x, rng) for k, x in enumerate(ds))
            text += "fn main() {\n    let mut st = St { evals: 0, fails: 0, w: 0 };\n" + "".join(f"    w{k}::check(&mut st);\n" for k in range(len(ds))) + '    println!("DONE evals={} fails={}", st.evals, st.fails);\n}\n'
            flags = ["gp_on"]
        text = "#![forbid(unsafe_code)]\n" + text
        keys = sorted(libs)
        if not thorough:
            # both profiles of the default features, and six of the others
            keys = [(0, False), (0, True)] + random.Random(i).sample([k for k in keys if k[0]], 6)
        d = os.path.join(d0, f"p{i}")
        os.makedirs(d)
        res = {}
        for key in keys:
            if v.violations:
                return
            n = f"{cname(key[0])}{key[1]}"
            src = write(os.path.join(d, f"{n}.rs"), text)
            c = libs[key].cmd(src, os.path.join(d, n), flags)
            r = call(c)
            if r.odd:
                with lock:
                    v.inconclusive.append(f"program {i}: rustc {r.rc}: {r.err[-300:]}")
                return
            if r.rc != 0:
                res[key] = ("does not compile", "", first_errors(r.err, 2), c)
            else:
                x = call([os.path.join(d, n)], timeout=60)
                if x.timeout:
                    with lock:
                        v.inconclusive.append(f"program {i} timed out")
                    return
                res[key] = (f"exit {x.rc}", x.out, x.err[-300:], c)
                os.unlink(os.path.join(d, n))
        outs = {}
        for key, x in res.items():
            outs.setdefault(x[:2], []).append(key)
        with lock:
            tot["programs"] += 1
            tot["program_runs"] += len(res)
            v.evaluations += len(res)
            if len(outs) > 1:
                odd = min(outs.items(), key=lambda kv: len(kv[1]))
                key = odd[1][0]
                v.violate(f"[program {i} seed {seed}] behaves differently with features {cname(key[0])} ({'release' if key[1] else 'debug'}): {odd[0][0]} {res[key][2]} {odd[0][1][:200]}",
                          "\n".join(f"{[cname(a) + ('/rel' if b else '/dbg') for a, b in ks]}: {o[0]} {o[1][:1500]}" for o, ks in outs.items()) + f"\n\n{' '.join(res[key][3])}\n\n{text}")
            else:
                m = re.search(r"^DONE evals=(\d+)", next(iter(outs))[1], re.M)
                if m:
                    v.evaluations += int(m.group(1)) * len(res)
                distinct.add(("program", hashlib.sha256(text.encode()).hexdigest()))
        shutil.rmtree(d, ignore_errors=True)

    def limit(n):
        """Archetypes of n components compile exactly when the limit allows it."""
        d = os.path.join(d0, f"limit{n}")
        os.makedirs(d)
        text = "#![forbid(unsafe_code)]\n#![allow(warnings)]\nuse gecs::prelude::*;\n" + "".join(f"#[derive(Clone, Debug)] pub struct K{j}(pub u32);\n" for j in range(n))
        text += "pub struct Kother;\necs_world! { ecs_archetype!(ArchSmall, Kother); ecs_archetype!(ArchWide, " + ", ".join(f"K{j}" for j in range(n)) + "); }\n"
        text += "fn main() {\n    let mut w = EcsWorld::default(); let c = |x: u32| ArchWideComponents { " + ", ".join(f"k{j}: K{j}(x + {j})" for j in range(n)).replace("k", "k_", 0) + " };\n"
        text += "    let e = w.create::<ArchWide>((" + "".join(f"K{j}(100 + {j})," for j in range(n)) + "));\n"
        text = text.replace("let c = |x: u32| ArchWideComponents { " + ", ".join(f"k{j}: K{j}(x + {j})" for j in range(n)) + " };", "")
        text += "    let f = w.create::<ArchWide>((" + "".join(f"K{j}(200 + {j})," for j in range(n)) + "));\n"
        text += "    assert_eq!(w.archetype::<ArchWide>().len(), 2);\n"
        for j in range(n):
            text += f"    ecs_find!(w, f, |k: &mut K{j}| {{ k.0 += 1; }}).unwrap(); assert_eq!(ecs_find!(w, e, |k: &K{j}| k.0), Some(100 + {j})); assert_eq!(ecs_find!(w, f, |k: &K{j}| k.0), Some(201 + {j}));\n"
        text += "    w.destroy(e); assert_eq!(w.archetype::<ArchWide>().len(), 1);\n    println!(\"OK\");\n}\n"
        for key in sorted(libs):
            if v.violations:
                return
            if key[1] and not thorough and n not in (16, 17, 32, 33):
                continue
            nm = f"{cname(key[0])}{key[1]}"
            src = write(os.path.join(d, nm + ".rs"), text)
            c = libs[key].cmd(src, os.path.join(d, nm))
            r = call(c)
            want = n <= (32 if key[0] & 2 else 16)
            with lock:
                v.evaluations += 1
                tot["component_counts_tried"] += 1
                distinct.add(("limit", n, key))
                if r.odd:
                    v.inconclusive.append(f"{n} components: rustc {r.rc} {r.err[-200:]}")
                    return
                if (r.rc == 0) != want:
                    v.violate(f"an archetype of {n} components {'compiles' if r.rc == 0 else 'does not compile'} with features {cname(key[0])} ({'release' if key[1] else 'debug'}): {first_errors(r.err, 2)}", f"{' '.join(c)}\n\n{r.err[-4000:]}\n\n{text}")
                    return
            if r.rc == 0:
                x = call([os.path.join(d, nm)], timeout=60)
                with lock:
                    if x.rc != 0 or "OK" not in x.out:
                        v.violate(f"an archetype of {n} components misbehaves with features {cname(key[0])} ({'release' if key[1] else 'debug'}): exit {x.rc} {x.err[-300:]}", f"{' '.join(c)}\n\n{text}")
                        return
                os.unlink(os.path.join(d, nm))

    twins = {}

    def surface(key):
        """Every sound client program of the C18 corpus compiles, and every forbidden one is rejected, in this configuration as in the default one."""
        pre, item = c18.prelude(3, 1)
        pre += "pub struct Xnone;\n"
        C = c18.corpus(item)
        d = os.path.join(d0, f"s{cname(key[0])}{key[1]}")
        os.makedirs(os.path.join(d, "t"))
        p = write(os.path.join(d, "t", "main.rs"), pre + "".join(f"fn t{n}() {{ {x[3]} }}\n" for n, x in enumerate(C)) + "fn main() {}\n")
        c = libs[key].cmd(p, p + ".rmeta", emit="metadata", extra=["--error-format=json"])
        r = call(c, timeout=400)
        lines, _ = error_lines(r.err)
        first = pre.count("\n") + 1
        fails = frozenset(x[1] for n, x in enumerate(C) if first + n in lines) if r.rc else frozenset()
        with lock:
            twins[key] = (fails, r, c)
            v.evaluations += len(C)
            tot["client_programs_compiled_everywhere"] += len(C)

    jobs = [("l", n) for n in ([1, 15, 16, 17, 18, 24, 31, 32, 33] if not thorough else list(range(1, 36)) + [48])]
    jobs += [("s", k) for k in sorted(libs) if thorough or not k[1]]
    np_ = 400 if thorough else 6
    jobs += [("p", i) for i in range(np_)]

    log(f"{prop}: histories")
    harness_round(seed, tier, 0)
    log(f"{prop}: wide archetypes, sanitizers")
    if not v.violations:
        wide_round(seed, 400 if thorough else 100)
    if not v.violations:
        san_round(seed, 8 if thorough else 1)
    if thorough and not v.violations:
        th = threading.Thread(target=wrap_real, args=((1 << 32) + 5000,))
        th.start()
    log(f"{prop}: programs")
    if not v.violations:
        pmap(lambda j: {"l": limit, "s": surface, "p": program}[j[0]](j[1]), jobs, deadline=min(t_end, time.time() + (260 if thorough else 90)))
    if not v.violations and (0, False) in twins:
        b = twins[(0, False)][0]
        for key, (f, r, c) in twins.items():
            if f != b:
                x = sorted(f ^ b)[0]
                v.violate(f"client programs compile differently with features {cname(key[0])} ({'release' if key[1] else 'debug'}): {x}", f"{' '.join(c)}\n\n{r.err[-6000:]}")
                break
    if thorough:
        k = 1
        while time.time() < t_end - 60 and not v.violations and k < 30:
            harness_round(seed + 1000 * k, "thorough" if time.time() < t_end - 200 else "quick", k)
            if not v.violations and time.time() < t_end - 60:
                wide_round(seed + 1000 * k, 200)
            if not v.violations and time.time() < t_end - 60:
                san_round(seed + 1000 * k, 2)
            k += 1
        if not v.violations:
            th.join()
    v.distinct = len(distinct)
    if not v.violations:
        shutil.rmtree(d0, ignore_errors=True)
    v.stats.update(tot)
    v.samples += [f"{s}: {sum(1 for x in distinct if x[0] == s)} distinct outcomes, equal in all configurations" for s, *_ in SCEN]
    return v.finish("exploration", "An evaluation is one monitor comparison inside a configuration, or one comparison of an item's observable digest or monitor verdict across the 16 configurations (8 feature sets, debug assertions on and off), or one compile verdict. "
                    "A distinct situation is a history outcome (digest of handles, values, orders and capacities), a program, or a component count in a configuration.",
                    ["The digest covers what the history engine observes.", "Histories in wrapping configurations that cross 2^32 start from counters preset by the gecs_verif hook (quick) or cross it with real cycles (thorough)."])
