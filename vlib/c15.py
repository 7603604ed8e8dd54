"""C15: generated declarations with explicit, implicit and cfg-disabled ids, compared with the discriminant rule."""
from .gencore import *

NC = 34  # component types


class It:
    """One archetype or component: explicit id or None, and cfg state (None, True, False)."""

    def __init__(self, name, xid=None, cfg=None):
        self.name, self.xid, self.cfg = name, xid, cfg
        self.comps = None
        self.id = None

    @property
    def on(self):
        return self.cfg is not False


def assign(items):
    """The rule. Returns None when every enabled item got an id, else the reason the declaration must be rejected."""
    last, seen = None, {}
    for it in items:
        if not it.on:
            continue
        n = it.xid if it.xid is not None else (0 if last is None else last + 1)
        if n > 255:
            return f"{it.name} would get id {n}"
        if n in seen:
            return f"{it.name} repeats id {n} of {seen[n]}"
        seen[n] = it.name
        last = n
        it.id = n
    return None


TRUE = ["all()", "not(any())", "any(all())", "all(all(), not(any()))", "gp_on"]
FALSE = ["any()", "not(all())", "all(any())", "any(any(), not(all()))", "gp_off"]


def lit(rng, n):
    x = rng.random()
    if x < 0.04:
        return hex(n)
    if x < 0.07 and n >= 10:
        s = str(n)
        return s[0] + "_" + s[1:]
    if x < 0.09:
        return f"{n}u8"
    return str(n)


def attrs(rng, it, kind, pre):
    a = []
    if it.xid is not None:
        a.append(f"#[{kind}_id({lit(rng, it.xid)})]")
    if it.cfg is not None:
        a.append(f"#[cfg({rng.choice(TRUE if it.cfg else FALSE)})]")
    rng.shuffle(a)
    return "".join(pre + x + "\n" for x in a)


def rand_ids(rng, items, mode):
    """Explicit ids in a given style; may or may not be legal."""
    n = len(items)
    for it in items:
        it.xid = None
    if mode == "none":
        return
    if mode == "asc":
        cur = -1
        for it in items:
            if rng.random() < 0.5:
                cur += rng.choice([1, 1, 2, 5, 40])
                it.xid = min(cur, 255)
            else:
                cur += 1
    elif mode == "desc":
        cur = rng.choice([255, 254, 200, 100])
        for it in items:
            if rng.random() < 0.7 or it is items[0]:
                it.xid = max(cur, 0)
                cur -= rng.choice([1, 2, 3, 10])
    elif mode == "tight":  # neighbouring values, so that implicit successors meet explicit ones
        b = rng.choice([0, 1, 5, 126, 250])
        for it in items:
            if rng.random() < 0.5:
                it.xid = min(255, b + rng.randint(0, 2 * n))
    elif mode == "top":
        for it in items:
            if rng.random() < 0.5:
                it.xid = rng.choice([255, 254, 253, 252, 0, 1, 128, 127])
    elif mode == "all":
        for it, x in zip(items, rng.sample(range(256), n)):
            it.xid = x
    elif mode == "any":
        for it in items:
            if rng.random() < 0.4:
                it.xid = rng.randint(0, 255)


MODES = ["none", "asc", "desc", "tight", "tight", "top", "all", "any"]


def rand_cfgs(rng, items, p):
    for it in items:
        it.cfg = None
        if rng.random() < p:
            it.cfg = rng.random() < 0.4
    if not any(it.on for it in items):
        rng.choice(items).cfg = None


class Decl:
    def __init__(self, rng, na=None, maxc=16, ok=True, tries=200, big=False):
        self.rng = rng
        self.reason = None
        for _ in range(tries):
            n = na or rng.choice([1, 2, 3, 3, 4, 5, 6, 8])
            archs = [It(f"Arch{chr(65 + k % 26)}{k // 26 if k >= 26 else ''}") for k in range(n)]
            rand_ids(rng, archs, rng.choice(MODES) if not big else rng.choice(["none", "asc"]))
            rand_cfgs(rng, archs, rng.choice([0, 0, 0.3, 0.6]))
            for a in archs:
                k = rng.choice([1, 2, 2, 3, 4, 6]) if not big else rng.choice([1, 2])
                if rng.random() < 0.08 and not big:
                    k = maxc
                a.comps = [It(f"C{x}") for x in rng.sample(range(NC), k)]
                rand_ids(rng, a.comps, rng.choice(MODES))
                rand_cfgs(rng, a.comps, rng.choice([0, 0, 0.3, 0.6]))
            bad = assign(archs)
            for a in archs:
                if bad is None and a.on:
                    bad = assign(a.comps)
                    if bad:
                        bad = f"{a.name}: {bad}"
            if ok and bad:
                # repair one offending item at a time rather than rejecting everything interesting
                for s in [archs] + [a.comps for a in archs if a.on]:
                    for _ in range(40):
                        b = assign(s)
                        if b is None:
                            break
                        name = b.split(" ")[0]
                        it = next(x for x in s if x.name == name)
                        it.xid = rng.randint(0, 255)
                bad = assign(archs)
                for a in archs:
                    if a.on and bad is None:
                        bad = assign(a.comps)
            if (bad is None) == ok:
                self.archs, self.reason = archs, bad
                return
        self.archs = None

    def text(self, name, pre="    "):
        s = f"{pre}ecs_world! {{\n{pre}    ecs_name!({name});\n"
        for a in self.archs:
            s += attrs(self.rng, a, "archetype", pre + "    ")
            s += f"{pre}    ecs_archetype!(\n{pre}        {a.name},\n"
            for c in a.comps:
                s += attrs(self.rng, c, "component", pre + "        ")
                s += f"{pre}        {c.name},\n"
            s += f"{pre}    );\n"
        return s + f"{pre}}}\n"

    def shape(self):
        return tuple((a.xid, a.cfg, tuple((c.xid, c.cfg) for c in a.comps)) for a in self.archs)


PRELUDE = "#![allow(warnings)]\nuse gecs::prelude::*;\n" + "".join(f"#[derive(Debug, Clone)] pub struct C{k}(pub u32);\n" for k in range(NC)) + r'''
pub struct St { evals: u64, fails: u64, w: u32 }
impl St {
    fn eq(&mut self, what: &str, got: u32, want: u32) {
        self.evals += 1;
        if got != want { self.fails += 1; if self.fails < 20 { println!("BAD w{} {what}: {got}, expected {want}", self.w); } }
    }
}
'''


def check_mod(k, d, rng):
    on = [a for a in d.archs if a.on]
    s = f"mod w{k} {{\n    use super::*;\n" + d.text(f"World{k}") + "    pub fn check(st: &mut St) {\n" + f"        st.w = {k};\n        let mut world = World{k}::default();\n"
    s += f"        st.eq(\"NUM_ARCHETYPES\", <World{k} as World>::NUM_ARCHETYPES as u32, {len(on)});\n"
    ids = {a.id: a for a in on}
    # SelectArchetype from every id
    s += "        for id in 0..=255u8 {\n            let got = match SelectArchetype::try_from(id as ArchetypeId) {\n"
    for j, a in enumerate(on):
        s += f"                Ok(SelectArchetype::{a.name}) => {j + 1},\n"
    s += "                Err(_) => 0u32,\n            };\n            let want = match id {" + ", ".join(f"{i} => {on.index(a) + 1}" for i, a in ids.items()) + (", _ => 0u32 };\n" if len(ids) < 256 else " };\n")
    s += "            st.eq(\"SelectArchetype::try_from(id)\", got, want);\n            if let Ok(x) = SelectArchetype::try_from(id as ArchetypeId) { st.eq(\"SelectArchetype::archetype_id\", x.archetype_id() as u32, id as u32); }\n"
    s += "            if let Ok(raw) = EntityAny::from_raw((id as u32 | 0x1200, 1)) {\n                st.eq(\"from_raw archetype_id\", raw.archetype_id() as u32, id as u32);\n"
    s += "                let g = match SelectArchetype::try_from(raw) {" + " ".join(f"Ok(SelectArchetype::{a.name}) => {j + 1}," for j, a in enumerate(on)) + " Err(_) => 0u32 };\n                st.eq(\"SelectArchetype::try_from(raw key)\", g, want);\n"
    s += "                let g = match SelectEntity::try_from(raw) {" + " ".join(f"Ok(SelectEntity::{a.name}(x)) => {j + 1}," for j, a in enumerate(on)) + " Err(_) => 0u32 };\n                st.eq(\"SelectEntity::try_from(raw key)\", g, want);\n            }\n        }\n"
    for j, a in enumerate(on):
        A, cs = a.name, [c for c in a.comps if c.on]
        n = f"{a.id}"
        s += f"        {{ let e = world.create::<{A}>(({', '.join(f'{c.name}({j})' for c in cs)},)); let any = e.into_any(); let dir = world.to_direct(e).unwrap(); let dany: EntityDirectAny = dir.into_any();\n"
        s += f"          st.eq(\"{A}::ARCHETYPE_ID\", {A}::ARCHETYPE_ID as u32, {n});\n"
        for x, l in (("e", "Entity"), ("any", "EntityAny"), ("dir", "EntityDirect"), ("dany", "EntityDirectAny")):
            s += f"          st.eq(\"{l} archetype_id of {A}\", {x}.archetype_id() as u32, {n});\n"
        for expr, ty in (("any", "SelectEntity"), ("e", "SelectEntity"), ("&e", "SelectEntity"), ("dany", "SelectEntityDirect"), ("dir", "SelectEntityDirect"), ("&dir", "SelectEntityDirect")):
            s += f"          st.eq(\"{ty} from {expr} of {A}\", match {ty}::try_from({expr}) {{ Ok({ty}::{A}(x)) => x.archetype_id() as u32, _ => 999 }}, {n});\n"
        for expr in ("any", "e", "dir"):
            s += f"          st.eq(\"SelectArchetype from {expr} of {A}\", match SelectArchetype::try_from({expr}) {{ Ok(SelectArchetype::{A}) => SelectArchetype::{A}.archetype_id() as u32, _ => 999 }}, {n});\n"
        for c in cs:
            s += f"          st.eq(\"{A}/{c.name} COMPONENT_ID\", <{A} as ArchetypeHas<{c.name}>>::COMPONENT_ID as u32, {c.id}); st.eq(\"ecs_component_id!({c.name}, {A})\", ecs_component_id!({c.name}, {A}{',' if len(A) % 2 else ''}) as u32, {c.id});\n"
        s += "        }\n"
    # inside queries, where the archetype is the matched one
    allc = sorted({c.name for a in on for c in a.comps if c.on})
    for c in rng.sample(allc, min(2, len(allc))):
        want = {a.id: next(x.id for x in a.comps if x.on and x.name == c) for a in on if any(x.on and x.name == c for x in a.comps)}
        tab = "match MatchedArchetype::ARCHETYPE_ID { " + ", ".join(f"{i} => {x}" for i, x in want.items()) + (", _ => 999u32 }" if len(want) < 256 else " }")
        s += f"        {{ let mut got: Vec<(u32, u32, u32)> = Vec::new(); ecs_iter!(world, |e: &EntityAny, _: &{c}| {{ got.push((ecs_component_id!({c}) as u32, {tab}, e.archetype_id() as u32)); }});\n"
        s += f"          for (g, w, i) in &got {{ st.eq(\"ecs_component_id!({c}) in ecs_iter\", *g, *w); }} st.eq(\"archetypes holding {c}\", got.len() as u32, {len(want)}); }}\n"
    return s + "    }\n}\n"


def run(prop, tier, seed):
    v = Verdict(prop, tier, seed)
    thorough = tier == "thorough"
    libs = [Lib("base"), Lib("full", features=["events", "32_components", "wrapping_version"], release=True)]
    pmap(lambda l: l.build(), libs)
    for l in libs:
        if l.error:
            v.inconclusive.append(f"gecs does not build: {l.error[-1000:]}")
            return v.finish("exploration", "", [])
    d0 = workdir("C15")
    deadline = time.time() + (780 if thorough else 90)
    nprog = 3000 if thorough else 64
    lock = threading.Lock()
    shapes = set()
    tot = {"programs": 0, "declarations": 0, "forbidden_declarations": 0, "forbidden_duplicates": 0, "forbidden_past_255": 0, "declarations_with_disabled_items": 0, "largest_world": 0, "forbidden_compiled_singly": 0}

    def one(i):
        if v.violations:
            return
        rng = random.Random(f"c15-{seed}-{i}")
        lib = libs[1] if i % 4 == 3 else libs[0]
        maxc = 32 if "32_components" in lib.features else 16
        big = i % 16 == 5
        decls = []
        if big:
            na = 256 if i % 32 == 5 else rng.choice([40, 100, 255])
            x = Decl(rng, na=na, big=True) if na < 255 else None
            if x is None or x.archs is None:
                x = Decl(rng, na=1)
                x.archs = [It(f"Arch{chr(65 + k % 26)}{k // 26 if k >= 26 else ''}") for k in range(na)]
                for a in x.archs:
                    a.comps = [It(f"C{rng.randrange(NC)}")]
                    assign(a.comps)
                if na == 256 and rng.random() < 0.7:  # a rotation: every id used, starting in the middle
                    r = rng.randrange(256)
                    x.archs[0].xid = r
                    if r:
                        x.archs[256 - r].xid = 0
                assert assign(x.archs) is None
            decls = [x]
        else:
            while len(decls) < 8:
                x = Decl(rng, maxc=maxc)
                if x.archs:
                    decls.append(x)
        text = PRELUDE + "".join(check_mod(k, x, rng) for k, x in enumerate(decls))
        text += "fn main() {\n    let mut st = St { evals: 0, fails: 0, w: 0 };\n" + "".join(f"    w{k}::check(&mut st);\n" for k in range(len(decls))) + '    println!("DONE evals={} fails={}", st.evals, st.fails);\n}\n'
        d = os.path.join(d0, str(i))
        os.makedirs(d)
        src, exe = write(os.path.join(d, "main.rs"), text), os.path.join(d, "p")
        cmd = lib.cmd(src, exe, ["gp_on"])
        r = call(cmd, timeout=400)
        if r.odd:
            with lock:
                v.inconclusive.append(f"program {i}: rustc {'timed out' if r.timeout else r.rc}: {r.err[-300:]}")
            return
        if r.rc != 0:
            with lock:
                v.violate(f"[program {i} seed {seed}] a legal declaration does not compile: {first_errors(r.err, 3)}", f"{' '.join(cmd)}\n\n{r.err[-8000:]}\n\n{text}")
            return
        x = call([exe], timeout=60)
        m = re.search(r"^DONE evals=(\d+) fails=(\d+)", x.out, re.M)
        bad = re.findall(r"^BAD w(\d+) (.*)$", x.out, re.M)
        with lock:
            if bad or not m:
                if x.timeout:
                    v.inconclusive.append(f"program {i} timed out")
                    return
                msg = f"{bad[0][1]}" if bad else f"the program stopped with {x.rc}: {x.err.strip()[-300:]}"
                dt = decls[int(bad[0][0])].text("World") if bad else ""
                v.violate(f"[program {i} seed {seed}] {msg}", f"{' '.join(cmd)} && {exe}\n\n{dt}\n{x.out[-4000:]}\n{x.err[-4000:]}\n\n{text}")
                return
            v.evaluations += int(m.group(1))
            tot["programs"] += 1
            tot["declarations"] += len(decls)
            tot["largest_world"] = max([tot["largest_world"]] + [sum(a.on for a in q.archs) for q in decls])
            tot["declarations_with_disabled_items"] += sum(any(not a.on or any(not c.on for c in a.comps) for a in q.archs) for q in decls)
            for q in decls:
                shapes.add(q.shape())
        # forbidden declarations
        neg = []
        for k in range(8 if not big else 1):
            if big:
                x = Decl(rng, na=1)
                x.archs = [It(f"Arch{chr(65 + j % 26)}{j // 26 if j >= 26 else ''}") for j in range(257)]
                for a in x.archs:
                    a.comps = [It(f"C{rng.randrange(NC)}")]
                x.reason = assign(x.archs)
            else:
                x = Decl(rng, maxc=maxc, ok=False)
            if x.archs:
                neg.append((x.reason, f"mod n{k} {{ use super::*;\n" + x.text(f"Neg{k}") + "}\n"))
        nb = NegBatch(PRELUDE, neg)
        bad, odd, single = nb.accepted(lib, os.path.join(d, "neg"), ["gp_on"])
        with lock:
            v.evaluations += len(neg)
            tot["forbidden_declarations"] += len(neg)
            tot["forbidden_duplicates"] += sum("repeats" in x for x, _ in neg)
            tot["forbidden_past_255"] += sum("would get" in x for x, _ in neg)
            tot["forbidden_compiled_singly"] += single
            for k, p, src2 in bad:
                v.violate(f"[program {i} seed {seed}] accepted although it must be rejected ({neg[k][0]})", f"{' '.join(lib.cmd(p, '/dev/null', ['gp_on'], emit='metadata'))}\n\n{src2}")
            for k, e in odd:
                v.inconclusive.append(f"program {i}: {e}")
            if len(v.samples) < 10:
                v.samples.append(f"program {i}: ids " + ", ".join(f"{a.name}={a.id}" for a in decls[0].archs if a.on)[:200])
        if not v.violations:
            shutil.rmtree(d, ignore_errors=True)

    pmap(one, range(nprog), deadline=deadline)
    v.distinct = len(shapes)
    if not v.violations:
        shutil.rmtree(d0, ignore_errors=True)
    v.stats.update(tot)
    return v.finish("exploration", "An evaluation is one id read from the compiled program, or one compile verdict of a forbidden declaration, compared with the rule (explicit, else previous + 1, else 0; disabled items skipped). "
                    "A distinct situation is a declaration shape: explicit ids and cfg states of every archetype and component in order.",
                    ["The rule in vlib/c15.py states the property correctly.", "rustc reports compile errors faithfully."])
