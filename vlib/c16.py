"""C16: programs with #[cfg] decorations, compared under every truth assignment with the same program textually stripped."""
from .gencore import *
from .worldgen import *
from . import c05
from .c15 import assign, It

FLAGS = ["p0", "p1", "p2", "p3", 'feature = "fx"']


NOSHADOW = {"_", "world", "out", "n", "es", "key", "rec", "w"}


def flag_args(mask, flags):
    return [f for k, f in enumerate(flags) if mask >> k & 1]


class Pred:
    """A cfg predicate: text, and its value under an assignment of the flags."""

    def __init__(self, text, fn):
        self.text, self.fn = text, fn


def rand_pred(rng, nf, depth=0):
    x = rng.random()
    if depth > 2 or x < 0.45:
        k = rng.randrange(nf)
        return Pred(FLAGS[k], lambda m, k=k: bool(m >> k & 1))
    if x < 0.5:
        return rng.choice([Pred("all()", lambda m: True), Pred("any()", lambda m: False), Pred("not(any())", lambda m: True)])
    if x < 0.7:
        p = rand_pred(rng, nf, depth + 1)
        return Pred(f"not({p.text})", lambda m: not p.fn(m))
    ps = [rand_pred(rng, nf, depth + 1) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.5:
        return Pred("all(" + ", ".join(p.text for p in ps) + ")", lambda m: all(p.fn(m) for p in ps))
    return Pred("any(" + ", ".join(p.text for p in ps) + ")", lambda m: any(p.fn(m) for p in ps))


def ev(preds, m):
    return all(p.fn(m) for p in preds)


def at(preds):
    return "".join(f"#[cfg({p.text})] " for p in preds)


def at_not(preds):
    return "#[cfg(not(all(" + ", ".join(p.text for p in preds) + ")))] "


class D:
    """A decorated item."""

    def __init__(self, obj, preds=()):
        self.obj, self.preds = obj, list(preds)
        self.xid = None
        self.cut = 0  # how many of the predicates are written after the id attribute


class Prog:
    def __init__(self, seed, i):
        rng = self.rng = random.Random(f"c16-{seed}-{i}")
        self.nf = rng.choice([1, 2, 2, 3, 3, 4]) if i % 9 else 5
        pool = [rand_pred(rng, self.nf) for _ in range(rng.choice([2, 3, 5, 8]))]

        def deco(p):
            if rng.random() > p:
                return []
            return [rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        w = make_world(rng)
        while len(w.archs) > 5:
            w.archs.pop()
        self.name = w.name
        self.comps = w.comps
        self.archs = []
        for a in w.archs:
            d = D(a, deco(0.45))
            cs = a.comps[:6]
            d.comps = [D(c, deco(0.4)) for c in cs]
            if rng.random() < 0.8:
                rng.choice(d.comps).preds = []
            d.xid = rng.randint(0, 255) if rng.random() < 0.2 else None
            for c in d.comps:
                c.xid = rng.randint(0, 255) if rng.random() < 0.1 else None
                c.cut = rng.randint(0, len(c.preds))
            d.cut = rng.randint(0, len(d.preds))
            self.archs.append(d)
        def split(preds):
            p = rng.choice(pool)
            return [p] + preds, [Pred(f"not({p.text})", lambda m, p=p: not p.fn(m))]
        # a component or an archetype written twice, under predicates of which one holds
        for d in self.archs:
            if rng.random() < 0.15:
                c = rng.choice(d.comps)
                c.preds, other = split(c.preds)
                c2 = D(c.obj, other)
                c2.cut = rng.randint(0, 1)
                d.comps.insert(rng.randint(0, len(d.comps)), c2)
        if rng.random() < 0.3:
            d = rng.choice(self.archs)
            d.preds, other = split(d.preds)
            d2 = D(Arch(d.obj.name, rng.sample(self.comps, min(len(self.comps), rng.randint(1, 4)))), other)
            d2.comps = [D(c, deco(0.3)) for c in d2.obj.comps]
            d2.comps[0].preds = []
            self.archs.insert(rng.randint(0, len(self.archs)), d2)
        self.pops = [rng.choice([1, 2, 3]) for _ in self.archs]
        self.caps = [rng.choice([0, 2, 5]) for _ in self.archs]
        self.queries = []
        for _ in range(6):
            n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
            ps = []
            for k in range(n):
                p = c05.rand_param(rng, w)
                pr = deco(0.6)
                if rng.random() < 0.4:
                    # decorate like the item the parameter names
                    if p.arch:
                        pr = [x for d in self.archs if d.obj is p.arch for x in d.preds]
                    elif p.comps:
                        c = [x.preds for d in self.archs for x in d.comps if x.obj is p.comps[0]]
                        pr = list(rng.choice(c)) if c else pr
                p.preds = pr
                ps.append(p)
            for p, nm in zip(ps, rng.sample(c05.PNAMES, n)):
                p.name = nm
            if rng.random() < 0.35:
                # the same name twice, one of the two absent
                k = rng.randrange(n)
                q = c05.rand_param(rng, w)
                q.name = ps[k].name
                ps[k].preds, q.preds = split(ps[k].preds)
                ps.insert(rng.choice([k + 1, k, rng.randint(0, n)]), q)
            for p in ps:
                p.shadow = bool(p.preds) and p.name not in NOSHADOW and sum(o.name == p.name for o in ps) == 1
            self.queries.append(ps)
        self.nests = [(rng.choice(c05.MACS), rng.choice(c05.MACS)) for _ in self.queries]

    def view(self, m):
        """The declaration under an assignment: enabled archetypes with their enabled components; None if it is not a legal one."""
        archs = []
        items = []
        for d in self.archs:
            if not ev(d.preds, m):
                continue
            cs = [c for c in d.comps if ev(c.preds, m)]
            if not cs:
                return None
            its = [It(c.obj.name, c.xid) for c in cs]
            if assign(its):
                return None
            a = Arch(d.obj.name, [c.obj for c in cs])
            a.src = d.obj
            archs.append(a)
            items.append(It(d.obj.name, d.xid))
        if not archs or assign(items):
            return None
        return WorldDecl(self.name, self.comps, archs)

    def qview(self, ps, w, m):
        """Stripped parameters against the stripped world; ('ok'|'none'|'ambig'|'unclear'|'bad', params)."""
        out = []
        for p in ps:
            if not ev(p.preds, m):
                continue
            q = c05.Param(p.kind, p.comps, None, p.name)
            if p.arch:
                q.arch = next((a for a in w.archs if a.name == p.arch.name), None) or p.arch
            out.append(q)
        if not out:
            return "empty", out
        k, b = c05.classify(w, out)
        if k == "ok" and not c05.well_formed(out, b):
            return "bad", out
        return k, out

    def text(self, m=None):
        """The program: decorated (m is None) or stripped for the assignment m. Statements that depend on a predicate carry it too."""
        dec = m is None

        def item(preds, s):
            if dec:
                return at(preds) + s
            return s if ev(preds, m) else ""
        def both(d, key, body):
            # the id attribute before, between or after the predicates
            idt = f"#[{key}({d.xid})] " if d.xid is not None else ""
            if not dec:
                return idt + body if ev(d.preds, m) else ""
            k = len(d.preds) - d.cut
            return at(d.preds[:k]) + idt + at(d.preds[k:]) + body

        def item_not(preds, s):
            if not preds:
                return ""
            if dec:
                return at_not(preds) + s
            return "" if ev(preds, m) else s
        s = SUPPORT + "".join(c.decl() for c in self.comps) + "ecs_world! {\n"
        if self.name != "EcsWorld":
            s += f"    ecs_name!({self.name});\n"
        for d in self.archs:
            cs = "".join(both(c, "component_id", c.obj.name + ", ") for c in d.comps)
            s += both(d, "archetype_id", f"ecs_archetype!({d.obj.name}, {cs});") + "\n"
        s += "}\npub type WW = " + self.name + ";\n"
        # setup and dump
        s += "pub fn setup(out: &mut Vec<String>) -> (WW, Vec<EntityAny>) {\n    let mut w = WW::with_capacity(" + self.name + "Capacity { " + "".join(item(d.preds, f"{d.obj.field}: {c}, ") for d, c in zip(self.archs, self.caps)) + "});\n    let mut es: Vec<EntityAny> = Vec::new();\n"
        ser = 1
        for rnd in range(3):
            for k, d in enumerate(self.archs):
                if rnd < self.pops[k]:
                    s += "    " + item(d.preds, f"{{ let e = w.create::<{d.obj.name}>((" + "".join(item(c.preds, f"<{c.obj.name} as Tg>::mk({ser}), ") for c in d.comps) + ")); es.push(e.into()); }") + "\n"
                    ser += 1
        s += "    (w, es)\n}\npub fn dump(w: &mut WW, es: &[EntityAny], out: &mut Vec<String>) {\n    out.push(format!(\"archetypes {} size {}\", <WW as World>::NUM_ARCHETYPES, std::mem::size_of::<WW>()));\n"
        # what the ids convert to, and what the handles select
        s += "    for id in 0..=255u8 { match SelectArchetype::try_from(id) { Err(_) => {}\n"
        for d in self.archs:
            s += "        " + item(d.preds, f"Ok(SelectArchetype::{d.obj.name}) => out.push(format!(\"select {{id}} {d.obj.name} {{}}\", SelectArchetype::{d.obj.name}.archetype_id())),") + "\n"
        s += "    } }\n    for e in es { match SelectEntity::try_from(*e) { Err(_) => out.push(format!(\"select {e:?} nothing\")),\n"
        for d in self.archs:
            s += "        " + item(d.preds, f"Ok(SelectEntity::{d.obj.name}(t)) => out.push(format!(\"select {{e:?}} {d.obj.name} {{t:?}} {{}} {{:?}}\", w.contains(t), w.to_direct(*e).map(|x| SelectEntityDirect::try_from(x).is_ok()))),") + "\n"
        s += "    } }\n"
        s += "    #[cfg(vevents)] { out.push(format!(\"world created {:?} destroyed {:?}\", w.iter_created().collect::<Vec<_>>(), w.iter_destroyed().collect::<Vec<_>>())); out.push(format!(\"world created {:?}\", w.iter_created().size_hint())); }\n"
        for d in self.archs:
            b = f"{{ let a = w.archetype_mut::<{d.obj.name}>(); out.push(format!(\"{d.obj.name} id {{}} len {{}} cap {{}} comps {{}} rowsize {{}} entities {{:?}}\", {d.obj.name}::ARCHETYPE_ID, a.len(), a.capacity(), std::any::type_name::<<{d.obj.name} as Archetype>::Components>(), std::mem::size_of::<<{d.obj.name} as Archetype>::View<'static>>(), a.entities())); "
            for c in d.comps:
                b += item(c.preds, f"{{ out.push(format!(\"  {c.obj.name} macro id {{}}\", ecs_component_id!({c.obj.name}, {d.obj.name}))); out.push(format!(\"  {c.obj.name} id {{}}\", <{d.obj.name} as ArchetypeHas<{c.obj.name}>>::COMPONENT_ID)); for x in a.get_slice_mut::<{c.obj.name}>().iter() {{ out.push(format!(\"  {{:?}}\", vc(x))); }} }} ")
            s += "    " + item(d.preds, b + "}") + "\n"
        s += "}\n"
        def query(n, ps, mac, j, world, key, names=True, tail=""):
            qt = "|" + ", ".join(x for x in (item(p.preds, f"{p.name}: {p.ty()}") for p in ps) if x) + "|"
            body = "let mut rec: Vec<V> = Vec::new(); "
            for p in ps:
                if p.kind in ("comp", "mut", "oneof", "oneofmut"):
                    x = f"rec.push(vc(&*{p.name}));"
                elif p.kind.startswith("ent"):
                    x = f"rec.push(V::E(EntityAny::from(*{p.name})));"
                else:
                    x = f"rec.push(V::D(EntityDirectAny::from(*{p.name})));"
                if p.kind in ("mut", "oneofmut"):
                    x += f" {p.name}.set({p.name}.w() + {j + 1});"
                body += item(p.preds, "{ " + x + " }") + " "
                if names and p.shadow:
                    # a parameter that is absent does not hide what its name means outside
                    body += item_not(p.preds, "{ " + f"out.push(format!(\"outer {{}}\", {p.name}));" + " }") + " "
            body += "out.push(format!(\"" + f"q{n} {mac} {{}} {{:?}}" + "\", tname::<MatchedArchetype>(), rec)); " + tail
            if mac.startswith("ecs_find"):
                return f"{mac}!({world}, {key}, {qt} {{ {body}rec.len() }})"
            if mac == "ecs_iter_destroy":
                return f"{mac}!({world}, {qt} {{ {body}n += 1; if n % 2 == 0 {{ EcsStepDestroy::ContinueDestroy }} else {{ EcsStepDestroy::Continue }} }})"
            return f"{mac}!({world}, {qt} {{ {body}}})"

        for n, ps in enumerate(self.queries):
            for j, mac in enumerate(c05.MACS):
                call_ = query(n, ps, mac, j, "world", "*key")
                s += f"#[cfg(q{n}_{j})] fn q{n}_{j}(out: &mut Vec<String>) {{ let (mut world, es) = setup(out); let mut n = 0u32; " + "".join(f"let {p.name} = \"o-{p.name}\"; " for p in ps if p.shadow)
                if mac.startswith("ecs_find"):
                    s += f"for key in es.iter() {{ let r: Option<usize> = {call_}; out.push(format!(\"find {{key:?}} {{r:?}}\")); }} "
                else:
                    s += call_ + "; "
                s += "dump(&mut world, &es, out); }\n"
            # a query with predicates inside the closure of another one
            inner_ps = self.queries[(n + 1) % len(self.queries)]
            om, im = self.nests[n]
            inner = query(n, inner_ps, im, 6, "world2", "es2[0]", names=False)
            s += f"#[cfg(q{n}_5)] fn q{n}_5(out: &mut Vec<String>) {{ let (mut world, es) = setup(out); let (mut world2, es2) = setup(out); let key = &es[es.len() - 1]; let mut n = 0u32; let _r = {query(n, ps, om, 5, 'world', '*key', names=False, tail='{ let _ = ' + inner + '; } ')}; dump(&mut world, &es, out); dump(&mut world2, &es2, out); }}\n"
        s += "fn main() { let mut out: Vec<String> = Vec::new(); { let (mut w, es) = setup(&mut out); dump(&mut w, &es, &mut out); }\n"
        for n in range(len(self.queries)):
            for j in range(len(c05.MACS) + 1):
                s += f"    #[cfg(q{n}_{j})] q{n}_{j}(&mut out);\n"
        return s + "    for l in &out { println!(\"{l}\"); } println!(\"DONE {}\", out.len()); }\n"


def run(prop, tier, seed):
    v = Verdict(prop, tier, seed)
    thorough = tier == "thorough"
    libs = [Lib("base"), Lib("full", features=["events", "32_components", "wrapping_version"], release=True)]
    pmap(lambda l: l.build(), libs)
    for l in libs:
        if l.error:
            v.inconclusive.append(f"gecs does not build: {l.error[-1000:]}")
            return v.finish("exploration", "", [])
    d0 = workdir("C16")
    deadline = time.time() + (780 if thorough else 110)
    lock = threading.Lock()
    shapes = set()
    tot = {"programs": 0, "assignments": 0, "trace_lines": 0, "queries": 0, "rejected_queries": 0, "illegal_assignments_skipped": 0, "assignments_not_comparable": 0, "max_distinct_predicates": 0, "programs_with_every_assignment": 0}

    def prep(i):
        pr = Prog(seed, i)
        masks = list(range(1 << pr.nf))
        random.Random(i).shuffle(masks)
        full = len(masks) <= 8 or thorough
        return pr, (masks if full else masks[:8]), full

    work = []
    n = 4000 if thorough else 56
    progs = {}

    def one(t):
        i, j = t
        if v.violations:
            return
        with lock:
            if i not in progs:
                progs[i] = prep(i)
            pr, masks, full = progs[i]
        if j >= len(masks):
            return
        m = masks[j]
        w = pr.view(m)
        if w is None:
            with lock:
                tot["illegal_assignments_skipped"] += 1
            return
        lib = libs[1] if i % 4 == 2 else libs[0]
        flags = flag_args(m, FLAGS[: pr.nf]) + (["vevents"] if lib is libs[1] else [])
        ok, no = [], []
        rng = random.Random(f"{seed}-{i}-{m}")
        for q, ps in enumerate(pr.queries):
            k, _ = pr.qview(ps, w, m)
            # three of the five macros per query and assignment keep the programs small
            k2 = pr.qview(pr.queries[(q + 1) % len(pr.queries)], w, m)[0]
            if k == k2 == "ok" and rng.random() < 0.4:
                ok.append(f"q{q}_5")
            for mac in rng.sample(range(5), 3):
                if k == "ok":
                    ok.append(f"q{q}_{mac}")
                elif k in ("none", "ambig"):
                    no.append((k, f"q{q}_{mac}"))
        d = os.path.join(d0, f"{i}-{m}")
        os.makedirs(d)
        a, b = pr.text(), pr.text(m)
        da, db = os.path.join(d, "dec"), os.path.join(d, "str")
        os.makedirs(da)
        os.makedirs(db)
        pa, pb = write(os.path.join(da, "main.rs"), a), write(os.path.join(db, "main.rs"), b)
        ca, cb = lib.cmd(pa, os.path.join(da, "p"), flags + ok), lib.cmd(pb, os.path.join(db, "p"), flags + ok)
        ra, rb = call(ca), call(cb)
        if ra.odd or rb.odd:
            with lock:
                v.inconclusive.append(f"program {i}/{m}: rustc {ra.rc} {rb.rc}: {(ra.err + rb.err)[-300:]}")
            return
        info = f"assignment: {flags or 'nothing'}\n{' '.join(ca)}\n{' '.join(cb)}\n"
        if ra.rc != rb.rc:
            which = "decorated program does not compile, the stripped one does" if ra.rc else "decorated program compiles, the stripped one does not"
            with lock:
                v.violate(f"[program {i} assignment {m} seed {seed}] the {which}: {first_errors(ra.err + rb.err, 2)}", f"{info}\n{(ra.err + rb.err)[-6000:]}\n\n=== decorated\n{a}\n\n=== stripped\n{b}")
            return
        if ra.rc != 0:
            with lock:
                tot["assignments_not_comparable"] += 1
                v.soft.append(f"program {i}/{m}: neither version compiles: {first_errors(rb.err, 1)}")
            return
        xa, xb = call([os.path.join(da, "p")], timeout=60), call([os.path.join(db, "p")], timeout=60)
        if xa.timeout or xb.timeout:
            with lock:
                v.inconclusive.append(f"program {i}/{m} timed out")
            return
        la, lb = xa.out.splitlines(), xb.out.splitlines()
        if la != lb or xa.rc != xb.rc:
            k = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            with lock:
                v.violate(f"[program {i} assignment {m} seed {seed}] traces differ at line {k}: decorated {(la + ['(end)'])[k][:150]!r}, stripped {(lb + ['(end)'])[k][:150]!r}; exits {xa.rc}/{xb.rc}",
                          f"{info}\n{xa.err[-1500:]}\n{xb.err[-1500:]}\n=== decorated\n{a}\n\n=== stripped\n{b}")
            return
        if not la or not la[-1].startswith("DONE"):
            with lock:
                tot["assignments_not_comparable"] += 1
                v.soft.append(f"program {i}/{m}: both versions stop with {xa.rc}: {xa.err[-200:]}")
            return
        # queries that must be rejected under this assignment, in both versions
        rej = 0
        for k, q in rng.sample(no, min(2, len(no))):
            na = call(lib.cmd(pa, os.path.join(da, "n.rmeta"), flags + [q], emit="metadata"))
            if na.rc == 0:
                nb_ = call(lib.cmd(pb, os.path.join(db, "n.rmeta"), flags + [q], emit="metadata"))
                if nb_.rc == 1 and not nb_.odd:
                    with lock:
                        v.violate(f"[program {i} assignment {m} seed {seed}] query {q} is accepted decorated but rejected stripped ({k})", f"{info} query {q}\n=== decorated\n{a}\n\n=== stripped\n{b}")
                    return
            rej += 1
        with lock:
            v.evaluations += len(la) + rej
            tot["assignments"] += 1
            tot["trace_lines"] += len(la)
            tot["queries"] += len(ok)
            tot["rejected_queries"] += rej
            if j == 0:
                tot["programs"] += 1
                tot["programs_with_every_assignment"] += full
                wp = len({p.text for d in pr.archs for p in d.preds} | {p.text for d in pr.archs for c in d.comps for p in c.preds})
                tot["max_distinct_predicates"] = max(tot["max_distinct_predicates"], wp)
            shapes.add((i, tuple(ev(d.preds, m) for d in pr.archs), tuple(ev(c.preds, m) for d in pr.archs for c in d.comps), tuple(ev(p.preds, m) for q in pr.queries for p in q)))
            if len(v.samples) < 10:
                v.samples.append(f"program {i}, flags {flags}: " + "; ".join(at(d.preds) + d.obj.name for d in pr.archs)[:200])
        shutil.rmtree(d, ignore_errors=True)

    for i in range(n):
        for j in range(32):
            work.append((i, j))
    # programs interleaved: two assignments of everything before the third of anything
    work.sort(key=lambda t: (t[0] // 24, t[1] // 2, t[0]))
    pmap(one, work, deadline=deadline)
    v.distinct = len(shapes)
    if not v.violations:
        shutil.rmtree(d0, ignore_errors=True)
    if tot["assignments_not_comparable"] > tot["assignments"]:
        v.inconclusive += v.soft[:4]
    v.stats.update(tot)
    return v.finish("exploration", "An evaluation is one trace line (ids, sizes, contents, closure calls, find results) compared between the decorated program and the stripped one under the same flags, or one compile verdict. "
                    "A distinct situation is a program with the set of archetypes, components and parameters enabled in it.",
                    ["Textual stripping in vlib/c16.py realises `as if it had not been written`.", "rustc evaluates cfg predicates correctly."])
