"""C05: generated world declarations and queries, compared with a matcher written from the property text."""
from .gencore import *
from .worldgen import *

PNAMES = ["x", "y", "z", "a", "b", "c", "entity", "e", "archetype", "idx", "version", "slices", "found", "len", "world", "i", "value", "comp", "e2", "resolved", "w2", "params", "data", "this"]
KINDS = ["comp", "mut", "oneof", "oneofmut", "ent", "entw", "enta", "dir", "dirw", "dira"]


class Param:
    def __init__(self, kind, comps=(), arch=None, name="x"):
        self.kind, self.comps, self.arch, self.name = kind, list(comps), arch, name

    def ty(self):
        k = self.kind
        if k == "comp":
            return "&" + self.comps[0].name
        if k == "mut":
            return "&mut " + self.comps[0].name
        if k in ("oneof", "oneofmut"):
            return ("&mut " if k == "oneofmut" else "&") + "OneOf<" + ", ".join(c.name for c in self.comps) + (",>" if (len(self.name) + len(self.comps)) % 4 == 0 else ">")
        return {"ent": f"&Entity<{self.arch and self.arch.name}>", "entw": "&Entity<_>", "enta": "&EntityAny",
                "dir": f"&EntityDirect<{self.arch and self.arch.name}>", "dirw": "&EntityDirect<_>", "dira": "&EntityDirectAny"}[k]

    def bind(self, arch):
        """('R'|'M', comp) / 'E' / 'D' / None (no match) / 'AMBIG'."""
        k = self.kind
        if k in ("comp", "mut"):
            return ("M" if k == "mut" else "R", self.comps[0]) if arch.has(self.comps[0]) else None
        if k in ("oneof", "oneofmut"):
            h = [c for c in self.comps if arch.has(c)]
            if len(h) > 1:
                return "AMBIG"
            return ("M" if k == "oneofmut" else "R", h[0]) if h else None
        if k in ("ent", "dir"):
            return ("E" if k == "ent" else "D") if self.arch is arch else None
        return "E" if k in ("entw", "enta") else "D"


def classify(world, params):
    """('ok', {arch index: bindings}) / ('none', _) / ('ambig', _) / ('unclear', _)"""
    binds = {}
    ambig = clear = False
    for k, a in enumerate(world.archs):
        b = [p.bind(a) for p in params]
        if "AMBIG" in b:
            ambig = True
            if None not in b:
                clear = True
        elif None not in b:
            binds[k] = b
    if ambig:
        return ("ambig", binds) if clear else ("unclear", binds)
    return ("ok", binds) if binds else ("none", binds)


def well_formed(params, binds):
    """No column bound mutably together with any other binding of that column (that is C18's business)."""
    for b in binds.values():
        cols = [x for x in b if isinstance(x, tuple)]
        for k, (m, c) in enumerate(cols):
            for m2, c2 in cols[k + 1:]:
                if c is c2 and "M" in (m, m2):
                    return False
    return True


def rand_param(rng, world):
    kind = rng.choices(KINDS, [5, 5, 4, 4, 1.2, 1.2, 1.2, 1, 1, 1])[0]
    p = Param(kind)
    if kind in ("comp", "mut"):
        p.comps = [rng.choice(rng.choice(world.archs).comps) if rng.random() < 0.85 else rng.choice(world.comps)]
    elif kind in ("oneof", "oneofmut"):
        n = min(len(world.comps), rng.choice([1, 2, 2, 2, 3, 3, 4, 5]))
        p.comps = rng.sample(world.comps, n)
    elif kind in ("ent", "dir"):
        p.arch = rng.choice(world.archs)
    return p


def rand_query(rng, world, want):
    for _ in range(400):
        n = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6])
        params = [rand_param(rng, world) for _ in range(n)]
        if rng.random() < 0.4:  # grow from an archetype, so that long lists still match something
            a = rng.choice(world.archs)
            cs = rng.sample(a.comps, min(len(a.comps), n))
            params = [Param(rng.choice(["comp", "mut"]), [c]) for c in cs]
            if rng.random() < 0.5:
                params.insert(rng.randint(0, len(params)), rand_param(rng, world))
        names = rng.sample(PNAMES, len(params))
        for p, m in zip(params, names):
            p.name = m
        if len(params) > 1 and rng.random() < 0.25:  # parameters that only restrict the match
            for p in rng.sample(params, rng.randint(1, len(params) - 1)):
                p.name = rng.choice(["_", "_", "_" + p.name])
        kind, binds = classify(world, params)
        if kind == want and (want != "ok" or well_formed(params, binds)):
            return params, binds
    return None, None


def qtext(params, tail):
    return "|" + ", ".join(f"{p.name}: {p.ty()}" for p in params) + ("," if sum(len(p.name) for p in params) % 3 == 0 else "") + tail


def record(params, stamp):
    """Body statements: what each parameter was, then the writes through mutable ones."""
    vs = []
    params = [p for p in params if p.name != "_"]
    for p in params:
        if p.kind in ("comp", "mut", "oneof", "oneofmut"):
            vs.append(f"vc(&*{p.name})")
        elif p.kind in ("ent", "entw", "enta"):
            vs.append(f"V::E(EntityAny::from(*{p.name}))")
        else:
            vs.append(f"V::D(EntityDirectAny::from(*{p.name}))")
    s = f"rec.push((tname::<MatchedArchetype>(), vec![{', '.join(vs)}])); "
    for p in params:
        if p.kind in ("mut", "oneofmut"):
            s += f"{p.name}.set({stamp}); "
    return s


def bind_table(world, params, binds):
    rows = []
    shown = [k for k, p in enumerate(params) if p.name != "_"]
    for k, _ in enumerate(world.archs):
        if k not in binds:
            rows.append("None")
        else:
            rows.append("Some(&[" + ", ".join(x if isinstance(x, str) else f"{x[0]}({x[1].tag})" for x in (binds[k][n] for n in shown)).replace("R(", "B::R(").replace("M(", "B::M(") + "])")
    t = "&[" + ", ".join(rows) + "]"
    return re.sub(r"(?<![:\w])([ED])(?=[,\]])", r"B::\1", t)


def query_fn(rng, world, qn, params, binds, pops):
    s = f"fn q{qn}(st: &mut St) {{\n    st.q = {qn};\n    const BIND: &[Option<&[B]>] = {bind_table(world, params, binds)};\n"
    wexpr, pre = rng.choice([("world", "let (mut world, mut m) = setup();"), ("w", "let (mut w0, mut m) = setup(); let w = &mut w0;"),
                             ("ctx.world", "struct Ctx { world: WW } let (w0, mut m) = setup(); let mut ctx = Ctx { world: w0 };")])
    wref = {"world": "&mut world", "w": "w", "ctx.world": "&mut ctx.world"}[wexpr]
    s += f"    {pre}\n    let mut stamp = 1u64;\n"
    for mac in ("ecs_iter", "ecs_iter_borrow", "ecs_iter_destroy"):
        ret = {"ecs_iter": rng.choice(["", "EcsStep::Continue"]), "ecs_iter_borrow": rng.choice(["", "EcsStep::Continue"]), "ecs_iter_destroy": rng.choice(["", "EcsStep::Continue", "EcsStepDestroy::Continue"])}[mac]
        s += f"    {{ st.how = \"{mac}\"; let mut rec: Vec<(String, Vec<V>)> = Vec::new(); stamp += 1;\n"
        blk = rng.choice(["{{ {} }}", "{{ {} }}", "{{ {} }}", "{{ {} }},", "match () {{ () => {{ {} }} }}", "if stamp > 0 {{ {} }} else {{ panic!() }}", "({{ {} }})"] if rng.random() < 0.5 else ["{{ {} }}"])
        if ret and rng.random() < 0.3:
            ret = f"if stamp > 0 {{ return {ret}; }} panic!()"
        elif not ret and rng.random() < 0.3:
            ret = "return;"
        s += f"      {mac}!({wexpr}, {qtext(params, '|')} {blk.format(record(params, 'stamp') + ret).rstrip(',')});\n"
        s += "      let mut seen = Vec::new();\n      for (ma, r) in &rec { if let Some(k) = m.call(st, r, BIND, ma, NAMES, stamp, true) { seen.push(k); } }\n"
        s += f"      m.visited(st, &seen, BIND, NAMES); let d = dump({wref}); m.audit(st, d); }}\n"
    lvl = rng.sample(range(len(world.archs)), min(len(world.archs), 3))
    um = [k for k in range(len(world.archs)) if k not in binds and pops[k]]
    if um and not any(k in um for k in lvl):
        lvl[0] = rng.choice(um)
    for mac in ("ecs_find", "ecs_find_borrow"):
        keys = [("any", "e.any", None), ("dirany", "e.dir", None)]
        for k in lvl:
            a = world.archs[k].name
            keys.append((f"typed {a}", f"Entity::<{a}>::try_from(e.any).unwrap()", k))
            keys.append((f"direct {a}", f"EntityDirect::<{a}>::try_from(e.dir).unwrap()", k))
        if rng.random() < 0.3:
            keys.append(("any by ref", "&e.any", None))
        for label, expr, k in keys:
            cond = "true" if k is None else f"e.arch == {k}"
            r = rng.choice(["stamp + 5", "77u64"])
            ret = rng.choice(["", "-> u64 "])
            s += f"    st.how = \"{mac} by {label}\"; stamp += 1;\n    for e in m.ents.clone() {{ if {cond} {{ let mut rec: Vec<(String, Vec<V>)> = Vec::new();\n"
            form = rng.choice(["{{ {} }}", "{{ {} }}", "{{ return {}; }}", "match () {{ () => {{ {} }} }}"][: 4 if not ret else 3])
            inner = record(params, "stamp") + r if "return" not in form else record(params, "stamp") + f"return {r}"
            s += f"      let key = {expr};\n      let got: Option<u64> = {mac}!({wexpr}, key, {qtext(params, '|')} {ret}{form.replace('return ', '').format(inner)});\n"
            s += f"      check_find(st, &mut m, &e, &rec, got, {r}, BIND, stamp); }} }}\n"
        s += f"    {{ let d = dump({wref}); m.audit(st, d); }}\n"
    # destroying passes
    s += "    { st.how = \"ecs_iter_destroy, destroying\"; stamp += 1; let mut rec: Vec<(String, Vec<V>)> = Vec::new(); let mut dead: Vec<usize> = Vec::new();\n"
    s += f"      let mut n = {rng.randint(0, 3)}u32;\n      ecs_iter_destroy!({wexpr}, {qtext(params, '|')} {{ {record(params, 'stamp')}n += 1; if n % {rng.choice([1, 2, 3])} == 0 {{ dead.push(rec.len() - 1); EcsStepDestroy::ContinueDestroy }} else {{ EcsStepDestroy::Continue }} }});\n"
    s += "      let mut seen = Vec::new(); let mut gone = Vec::new();\n"
    s += "      for (i, (ma, r)) in rec.iter().enumerate() { let only_dir = r.iter().all(|v| matches!(v, V::D(_))); if only_dir { continue; } if let Some(k) = m.call(st, r, BIND, ma, NAMES, stamp, false) { seen.push(k); if dead.contains(&i) { gone.push(k); } } }\n"
    s += f"      if rec.iter().all(|(_, r)| !r.iter().all(|v| matches!(v, V::D(_)))) {{ m.visited(st, &seen, BIND, NAMES); gone.sort(); gone.dedup(); for k in gone.iter().rev() {{ m.ents.remove(*k); }} let d = dump({wref}); m.audit(st, d); }} }}\n"
    return s + "}\n"


CHECK_FIND = r'''
fn check_find(st: &mut St, m: &mut Model, e: &Ent, rec: &Vec<(String, Vec<V>)>, got: Option<u64>, want: u64, bind: &[Option<&[B]>], stamp: u64) {
    st.evals += 2;
    if bind[e.arch].is_some() {
        if got != Some(want) { st.fail(format!("find of entity {} of {} returned {got:?}, expected Some({want})", e.ser, NAMES[e.arch])); }
        if rec.len() != 1 { st.fail(format!("find of entity {} of {} ran the closure {} times", e.ser, NAMES[e.arch], rec.len())); }
    } else {
        st.nones += 1;
        if got.is_some() || !rec.is_empty() { st.fail(format!("find of entity {} of {}, which the query does not match, returned {got:?} and ran the closure {} times", e.ser, NAMES[e.arch], rec.len())); }
    }
    for (ma, r) in rec {
        if let Some(k) = m.call(st, r, bind, ma, NAMES, stamp, true) {
            if m.ents[k].any != e.any { st.fail(format!("find of entity {} presented entity {}", e.ser, m.ents[k].ser)); }
        }
    }
}
'''


def neg_item(rng, world, n, params, mac):
    body = "{ }" if not mac.startswith("ecs_find") else "{ 1u32 }"
    q = qtext(params, "|") + " " + body
    if mac.startswith("ecs_find"):
        return f"fn neg{n}(w: &mut WW, key: EntityAny) {{\n    {mac}!(w, key, {q});\n}}\n"
    return f"fn neg{n}(w: &mut WW) {{\n    {mac}!(w, {q});\n}}\n"


MACS = ["ecs_iter", "ecs_iter_borrow", "ecs_iter_destroy", "ecs_find", "ecs_find_borrow"]


def fix_twin(rng, world, params, kind):
    """The closest well-formed query: drop parameters or OneOf arguments until it matches."""
    for _ in range(200):
        ps = [Param(p.kind, p.comps, p.arch, p.name) for p in params]
        for p in ps:
            if p.kind in ("oneof", "oneofmut") and len(p.comps) > 1 and rng.random() < 0.6:
                p.comps = rng.sample(p.comps, rng.randint(1, len(p.comps) - 1))
        while len(ps) > 1 and rng.random() < 0.4:
            ps.pop(rng.randrange(len(ps)))
        k, b = classify(world, ps)
        if k == "ok" and well_formed(ps, b):
            return ps
    return None


class Program:
    def __init__(self, seed, idx, big, nq, maxcomps=16):
        rng = random.Random(f"c05-{seed}-{idx}")
        self.idx = idx
        self.world = make_world(rng, big, maxcomps)
        pops = [rng.choice([0, 1, 2, 3, 3]) for _ in self.world.archs]
        if not any(pops):
            pops[0] = 2
        self.pops = pops
        self.queries = []
        for _ in range(nq):
            p, b = rand_query(rng, self.world, "ok")
            if p:
                self.queries.append((p, b))
        decl = self.world.decl(rng)
        r2 = random.Random(f"c05-mod-{seed}-{idx}")
        if r2.random() < 0.5:
            # a second world in the same crate, with archetypes of the same names and other components
            other = WorldDecl(r2.choice([self.world.name, "OtherWorld"]), self.world.comps, [Arch(a.name, r2.sample(self.world.comps, r2.randint(1, min(6, len(self.world.comps))))) for a in r2.sample(self.world.archs, len(self.world.archs))])
            use = "use super::{" + ", ".join(c.name for c in self.world.comps) + "};"
            decoy = f"mod decoy {{ {use} use gecs::prelude::*;\n" + other.decl() + "}\n"
            if r2.random() < 0.5:
                decl = f"pub mod real {{ {use} use gecs::prelude::*;\n" + decl + "}\npub use real::*;\n"
            decl = decoy + decl if r2.random() < 0.5 else decl + decoy
        self.base = SUPPORT + "".join(c.decl() for c in self.world.comps) + decl + world_support(self.world, pops)
        self.fns = [query_fn(rng, self.world, k, p, b, pops) for k, (p, b) in enumerate(self.queries)]
        self.neg, self.twins = [], []
        for want in ("none", "ambig"):
            for _ in range(3):
                p, _ = rand_query(rng, self.world, want)
                if not p:
                    continue
                t = fix_twin(rng, self.world, p, want)
                mac = rng.choice(MACS)
                for mc in ([mac] if rng.random() < 0.7 else MACS):
                    n = len(self.neg)
                    self.neg.append((f"{want}: {mc} {qtext(p, '|')}", neg_item(rng, self.world, n, p, mc)))
                    if t:
                        self.twins.append(neg_item(rng, self.world, n, t, mc).replace("fn neg", "fn twin"))

    def text(self):
        s = self.base + CHECK_FIND + "".join(self.fns) + "".join(self.twins)
        s += "fn main() {\n    let mut st = St { evals: 0, visits: 0, nones: 0, fails: 0, q: 0, how: \"setup\" };\n    { let (mut w, m) = setup(); let d = dump(&mut w); m.audit(&mut st, d); if st.fails > 0 { println!(\"BASE\"); } }\n"
        s += "".join(f"    q{k}(&mut st);\n" for k in range(len(self.fns)))
        return s + '    println!("DONE evals={} visits={} nones={} fails={}", st.evals, st.visits, st.nones, st.fails);\n}\n'

    def base_text(self):
        return self.base + "fn main() { let (mut w, m) = setup(); let mut st = St { evals: 0, visits: 0, nones: 0, fails: 0, q: 0, how: \"setup\" }; let d = dump(&mut w); m.audit(&mut st, d); if st.fails > 0 { println!(\"BASE\"); } }\n"

    def describe(self, k):
        p, b = self.queries[k]
        return f"query {qtext(p, '|')} (matches {', '.join(self.world.archs[x].name for x in b)})\nin\n{self.world.decl()}"


def run(prop, tier, seed):
    v = Verdict(prop, tier, seed)
    thorough = tier == "thorough"
    libs = [Lib("base"), Lib("full", features=["events", "32_components", "wrapping_version"], release=True)]
    for e in pmap(lambda l: l.build(), libs):
        pass
    for l in libs:
        if l.error:
            v.inconclusive.append(f"gecs does not build: {l.error[-1000:]}")
            return v.finish("exploration", "", [])
    d0 = workdir("C05")
    nprog = 2000 if thorough else 40
    deadline = time.time() + (780 if thorough else 100)
    shapes = set()
    lock = threading.Lock()
    tot = {"programs": 0, "queries": 0, "closure_calls": 0, "finds_of_unmatched_archetypes": 0, "forbidden_queries": 0, "forbidden_ambiguous": 0, "accepted_twins": 0, "skipped_programs": 0, "worlds_with_more_than_7_archetypes": 0, "forbidden_compiled_singly": 0}

    def one(i):
        if v.violations:
            return
        big = True if i % 16 == 7 else "wide" if i % 16 == 11 else False
        lib = libs[1] if i % 4 == 3 else libs[0]
        pr = Program(seed, i, big, 10 if big is not True else 5, 32 if "32_components" in lib.features else 16)
        d = os.path.join(d0, str(i))
        os.makedirs(d)
        src = write(os.path.join(d, "main.rs"), pr.text())
        exe = os.path.join(d, "p")
        r = call(lib.cmd(src, exe))
        keep = False
        if r.rc != 0 or r.odd:
            b = call(lib.cmd(write(os.path.join(d, "base.rs"), pr.base_text()), exe))
            with lock:
                if b.rc != 0 or b.odd or r.odd:
                    tot["skipped_programs"] += 1
                    v.soft.append(f"program {i}: the declaration alone does not compile: {first_errors(b.err or r.err, 2)}")
                else:
                    keep = True
                    v.violate(f"[program {i} seed {seed}] a well-formed query does not compile: {first_errors(r.err, 3)}", f"{' '.join(lib.cmd(src, exe))}\n\n{r.err[-8000:]}\n\n{pr.text()}")
            return
        x = call([exe], timeout=60)
        m = re.search(r"^DONE evals=(\d+) visits=(\d+) nones=(\d+) fails=(\d+)", x.out, re.M)
        bads = re.findall(r"^BAD q(\d+) (.*)$", x.out, re.M)
        with lock:
            if "BASE" in x.out.splitlines():
                tot["skipped_programs"] += 1
                v.soft.append(f"program {i}: the world is wrong before any query: {x.out[:200]}")
                return
            if bads:
                q, msg = bads[0]
                v.violate(f"[program {i} seed {seed}] {msg}", f"{' '.join(lib.cmd(src, exe))} && {exe}\n\n{pr.describe(int(q))}\n\n{x.out[:4000]}\n\n{pr.text()}")
                return
            if not m:
                if x.timeout:
                    v.inconclusive.append(f"program {i} timed out")
                else:
                    v.violate(f"[program {i} seed {seed}] the program stopped with {x.rc}: {x.err.strip()[-300:]}", f"{' '.join(lib.cmd(src, exe))} && {exe}\n\n{x.out[-2000:]}\n{x.err[-4000:]}\n\n{pr.text()}")
                return
            v.evaluations += int(m.group(1))
            tot["programs"] += 1
            tot["queries"] += len(pr.queries)
            tot["closure_calls"] += int(m.group(2))
            tot["finds_of_unmatched_archetypes"] += int(m.group(3))
            tot["accepted_twins"] += len(pr.twins)
            tot["worlds_with_more_than_7_archetypes"] += len(pr.world.archs) > 7
            for p, b in pr.queries:
                # a query shape: kinds in order, how each archetype binds it
                sh = (tuple(q.kind for q in p), tuple(sorted((len(pr.world.archs[k].comps), tuple((x[0], pr.world.archs[k].col(x[1])) if isinstance(x, tuple) else x for x in bb)) for k, bb in b.items())), len(pr.world.archs))
                shapes.add(sh)
        if pr.neg:
            nb = NegBatch(pr.base, pr.neg)
            bad, odd, single = nb.accepted(lib, os.path.join(d, "neg"))
            with lock:
                v.evaluations += len(pr.neg)
                tot["forbidden_queries"] += len(pr.neg)
                tot["forbidden_ambiguous"] += sum(1 for l, _ in pr.neg if l.startswith("ambig"))
                tot["forbidden_compiled_singly"] += single
                for k, p, src2 in bad:
                    keep = True
                    v.violate(f"[program {i} seed {seed}] accepted although it must be rejected ({pr.neg[k][0]})", f"{' '.join(lib.cmd(p, '/dev/null', emit='metadata'))}\n\n{src2}")
                for k, e in odd:
                    v.inconclusive.append(f"program {i}: {e}")
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
        if len(v.samples) < 12:
            with lock:
                v.samples.append(f"program {i}: {qtext(pr.queries[0][0], '|') if pr.queries else ''} over {len(pr.world.archs)} archetypes")

    pmap(one, range(nprog), deadline=deadline)
    v.distinct = len(shapes)
    if tot["skipped_programs"] > tot["programs"]:
        v.inconclusive += v.soft[:4]
    if not v.violations:
        shutil.rmtree(d0, ignore_errors=True)
    v.stats.update(tot)
    return v.finish("exploration", "An evaluation is one comparison of an observed closure call, binding, visit count, find result, column content or compile outcome with the generator's matcher. "
                    "A distinct situation is a query shape (parameter kinds in order) with the column positions it binds in each matched archetype.",
                    ["The matcher in vlib/c05.py states the property correctly.", "rustc reports compile errors faithfully."])
