"""The checks that drive the monitored harness (C01-C04, C06-C14, C17)."""
from .core import *

# (configuration, scenario, items in the quick tier, items in the thorough tier, options)
def plan(prop, tier):
    t = tier == "thorough"

    def it(cfg, scen, q, th, **kw):
        return (cfg, scen, th if t else q, kw)

    def miri(scen, q=8, th=160):
        return it("miri", scen, q, th, scale=0)

    cyc = ["--cycles", str((1 << 32) - 1 if t else 1 << 23)]
    P = {
        "C01": [it("dbg", "hist", 9600, 120000), it("rel", "hist", 9600, 120000), it("asan", "hist", 240, 6000), it("dbg", "exh", 960, 1600),
                it("rel", "exh", 960, 1600), it("rel", "large", 8, 64), it("rel", "reuse", 8, 8, extra=cyc, prio=1), it("dbg", "overflow", 1600, 16000),
                it("dbg", "alias", 160, 3000), it("rel", "alias", 160, 3000), it("dbg", "full", 3, 6), miri("hist")],
        "C02": [it("dbg", "hist", 9600, 120000), it("rel", "hist", 9600, 120000), it("asan", "hist", 240, 6000), it("dbg", "exh", 960, 1600),
                it("rel", "large", 8, 64), it("dbg", "clonediv", 1600, 16000), it("dbg", "dec", 160, 4000), it("dbg", "fault", 1300, 13000), it("dbg", "full", 3, 6), miri("hist")],
        "C03": [it("dbg", "forge", 1600, 30000), it("rel", "forge", 3200, 60000), it("asan", "forge", 120, 3000), it("dbg", "hist", 2400, 40000),
                it("dbg", "alias", 80, 1000), miri("forge")],
        "C04": [it("dbg", "hist", 6400, 80000), it("rel", "hist", 6400, 80000), it("asan", "hist", 240, 5000), it("dbg", "fault", 5200, 60000),
                it("dbg", "clonediv", 1600, 24000), it("dbg", "alloc", 400, 4000), it("asan", "fault", 208, 4000), it("dbg", "dec", 160, 4000), miri("hist", 4), miri("fault", 4, 110)],
        "C06": [it("dbg", "hist", 6400, 80000), it("rel", "hist", 6400, 80000), it("dbg", "brk", 3200, 60000), it("rel", "brk", 3200, 60000), it("dbg", "exh", 960, 1600),
                it("rel", "large", 8, 64), it("asan", "brk", 400, 6000), it("wide", "wide", 160, 4000), it("dbg", "full", 3, 6), miri("brk")],
        "C07": [it("dbg", "dec", 800, 20000), it("rel", "dec", 1600, 40000), it("dbg", "hist", 4800, 80000), it("asan", "dec", 96, 3000), it("dbg", "exh", 960, 1600),
                it("rel", "large", 8, 64), it("wide", "wide", 160, 4000), it("dbg", "full", 3, 6), miri("dec")],
        "C08": [it("dbg", "hist", 9600, 120000), it("rel", "hist", 9600, 120000), it("dbg", "overflow", 6400, 60000), it("rel", "overflow", 6400, 60000), it("dbg", "exh", 960, 1600),
                it("rel", "exh", 960, 1600), it("rel", "large", 8, 64), it("dbg", "alias", 160, 3000), it("rel", "alias", 160, 3000), it("dbg", "clonediv", 1600, 16000),
                it("dbg", "fault", 1300, 13000), it("rel", "reuse", 8, 8, extra=cyc, prio=1)],
        "C09": [it("dbg", "hist", 9600, 120000), it("rel", "hist", 9600, 120000), it("dbg", "dec", 400, 8000), it("dbg", "overflow", 4800, 60000), it("asan", "hist", 160, 4000), it("dbg", "clonediv", 1600, 16000),
                it("dbg", "exh", 960, 1600), it("rel", "exh", 960, 1600), it("dbg", "alias", 160, 3000), it("rel", "alias", 160, 3000), it("rel", "large", 8, 64), it("dbg", "fault", 1300, 13000), it("dbg", "full", 3, 6),
                it("rel", "reuse", 8, 8, extra=cyc, prio=1)],
        "C10": [it("dbg", "fault", 7800, 80000), it("rel", "fault", 7800, 80000), it("asan", "fault", 312, 6000), it("dbg", "overflow", 3200, 40000), it("rel", "overflow", 3200, 40000),
                it("rel", "limit", 12, 64), it("dbg", "toolarge", 8, 16), it("dbg", "borrow", 240, 3000), miri("fault", 13, 220)] + ([miri("overflow", 4, 80)] if t else []),
        "C11": [it("dbg", "borrow", 1560, 16000), it("rel", "borrow", 1560, 16000), it("asan", "borrow", 120, 1800), it("dbg", "fault", 1300, 13000), it("dbg", "full", 3, 6), miri("borrow", 24, 400)],
        "C12": [it("dbg", "hist", 9600, 120000), it("rel", "hist", 9600, 120000), it("dbg", "exh", 960, 1600), it("dbg", "alloc", 600, 6000), it("asan", "alloc", 200, 2000),
                it("rel", "limit", 12, 96), it("rel", "toolarge", 12, 32), it("dbg", "full", 3, 6), it("rel", "full", 3, 6), it("rel", "large", 8, 64), it("dbg", "fault", 2600, 13000), it("dbg", "overflow", 1600, 16000), it("dbg", "clonediv", 800, 8000)],
        "C13": [it("dbg", "clonediv", 4800, 60000), it("rel", "clonediv", 4800, 60000), it("asan", "clonediv", 160, 4000), it("dbg", "hist", 3200, 40000), it("dbg", "exh", 960, 1600),
                it("rel", "exh", 960, 1600), it("dbg", "full", 3, 6), miri("clonediv", 5)],
        "C14": [it("dbg", "conv", 800, 16000), it("rel", "conv", 800, 24000), it("rel", "convsweep", 256, 256), it("dbg", "hist", 2400, 20000), it("dbg", "alias", 80, 1000), miri("conv", 4, 60)],
        "C17": [it("dbg", "evt", 6144, 80000), it("rel", "evt", 6144, 80000), it("dbg", "hist", 4800, 80000), it("rel", "hist", 4800, 80000), it("dbg", "fault", 2600, 13000), it("dbg", "clonediv", 1600, 16000),
                it("dbg", "exh", 960, 1600), it("wide", "wide", 240, 6000), it("dbg", "overflow", 1600, 16000),
                it("dbg", "full", 3, 6), it("rel", "full", 3, 6), it("rel", "large", 8, 64)],
    }
    return P[prop]


RULES = {
    "hist": "seeded random histories over the 8- (10-) archetype monitored world, every public path, checked against a reference model and a value ledger",
    "exh": "all operation sequences of length 6, 7 and 8 (thorough: up to 10) on one archetype from capacities 0-4, with direct handles, events and clones",
    "dec": "all 4^n decision vectors of ecs_iter_destroy! for small n, random ones beyond",
    "brk": "Break after every possible number of closure calls, for every iteration path",
    "large": "histories with thousands of entities and several growths",
    "reuse": "destroy/create cycles of one storage position, up to the whole generation space",
    "overflow": "histories that start just below the generation limits (hook presets the counters)",
    "alias": "handles kept across generations that agree with the new ones in all but chosen bits (hook moves the counters on)",
    "wide": "histories over a world of 256 archetypes with scrambled ids: queries, finds, destroying loops, event iterators",
    "forge": "bit-flipped, random, foreign and unchecked-converted handles through every API",
    "fault": "a panic injected at a chosen point of each kind of operation, then the history goes on; control run without the fault",
    "clonediv": "clone, compare, diverge one side, compare the other; control run without the clone",
    "alloc": "with_capacity sweeps with a counting allocator",
    "full": "every access path on an archetype of exactly 16,777,216 entities",
    "limit": "archetypes filled to the 2^24 limit", "toolarge": "with_capacity beyond the limit",
    "borrow": "nested and overlapping runtime borrows against a reader/writer model and an address monitor",
    "conv": "bit patterns and issued handles through every conversion", "convsweep": "every 32-bit key",
    "evt": "patterns of empty and pending event logs over all archetypes",
}

ASSUME = {
    "*": ["Verdicts cover the executions listed under workloads, not all executions.",
          "The reference model and ledger in /verif/harness state the property correctly."],
    "hook": ["The gecs_verif hook presets version counters of an empty storage to values reachable only by ~2^32 operations."],
    "miri": ["Miri (Stacked Borrows, permissive provenance) and AddressSanitizer report real undefined behaviour."],
}


def run(prop, tier, seed):
    v = Verdict(prop, tier, seed)
    entries = plan(prop, tier)
    names = []
    for e in entries:
        if e[0] not in names:
            names.append(e[0])
    cfgs = {n: harness_config(n) for n in names}
    log(f"{prop}: building {', '.join(names)}")
    failed = build_all(list(cfgs.values()))
    for c in failed:
        # Miri and ASan need the nightly toolchain; the stable builds decide whether there is a verdict at all.
        v.inconclusive.append(f"build of {c.name} failed: {(c.error or '')[-1500:]}")
    if failed:
        return v.finish("exploration", "", [], None)
    jobs, slow = [], []
    limit = 700 if tier == "thorough" else 60
    for cfg, scen, n, kw in entries:
        c = cfgs[cfg]
        if scen in ("overflow", "alias") and not c.hooks:
            v.soft.append(f"{scen} scenarios skipped: the hook does not build on this tree")
            continue
        kw = dict(kw)
        prio = kw.pop("prio", 0)
        secs = limit
        js = spread(c, scen, prop, seed, n, max_secs=secs, **kw)
        (slow if prio or cfg == "miri" else jobs).append(js)
    # long ones first, the rest interleaved
    flat = []
    for group in slow:
        flat += group
    rows = sorted(jobs, key=lambda g: -g[0].n if g[0].cfg.san else 0)
    for k in range(8):
        for g in rows:
            if k < len(g):
                flat.append(g[k])
    log(f"{prop}: {len(flat)} processes")

    def bad(j):
        return j.rc not in (0, None) and bool(re.search(r"^VIOL ", j.out, re.M) or SAN.search(j.err))

    if tier == "thorough":
        # deeper runs use further seeds until the time is used
        done = []
        t_end = time.time() + 780
        done += run_pool(flat, CORES, leaks=prop in ("C04", "C10"), stop=bad)
        k = 1
        while time.time() < t_end and not any(bad(j) for j in done) and k < 40:
            more = []
            for cfg, scen, n, kw in entries:
                kw = dict(kw)
                kw.pop("prio", 0)
                if scen in ("reuse", "convsweep", "limit", "toolarge", "large", "full", "exh") or (scen in ("overflow", "alias") and not cfgs[cfg].hooks):
                    continue
                left = max(5, int(t_end - time.time()))
                more += spread(cfgs[cfg], scen, prop, seed + 1000 * k, max(8, n // 6), max_secs=min(left, 60), **kw)
            done += run_pool(more, CORES, leaks=prop in ("C04", "C10"), stop=lambda j: bad(j) or time.time() > t_end)
            k += 1
    else:
        done = run_pool(flat, CORES, leaks=prop in ("C04", "C10"), stop=bad)
    for j in done:
        v.add_job(j)
    used = sorted({e[1] for e in entries})
    rule = "; ".join(f"{s}: {RULES[s]}" for s in used) + ". An evaluation is one comparison of an observed result with the model. A situation is distinct and non-trivial when the harness has not seen its hash before: the shape of an audited archetype (live, dead, growth), a borrow state plus access, a decision vector, a fault kind at a step, a log pattern, a short operation sequence."
    a = ASSUME["*"] + (ASSUME["hook"] if "overflow" in used or "alias" in used else []) + ASSUME["miri"]
    return v.finish("exploration", rule, a)
