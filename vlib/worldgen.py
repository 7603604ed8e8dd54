"""Random world declarations, the component pool, and the Rust support code shared by generated programs."""
import random, re

# Families of confusable names: prefixes of each other, digits, acronym-like, shared snake words.
NAMES = ["Foo", "FooBar", "FooBarBaz", "Bar", "BarFoo", "Baz", "Comp1", "Comp10", "Comp2", "CompA", "CompAb", "CompB",
         "Position", "PositionX", "Posit", "Tag", "TagTag", "Velocity", "Arch", "Health", "HealthPoints", "Data", "DataArch",
         "Version", "Slices", "Found", "Idx", "Archetype1", "EntityRef", "Entities", "OneOff", "Closure", "Len", "World1"]
ANAMES = ["ArchFoo", "ArchFooBar", "ArchBar", "ArchBarFoo", "Arch1", "Arch10", "Arch2", "FooArch", "Player", "PlayerShip", "Ship", "Enemy",
          "EnemyShip", "ArchA", "ArchAb", "ArchB", "Thing", "ThingTwo", "Things", "Node", "NodeLeaf", "Leaf", "LeafNode", "Item", "ItemBox", "Box1", "Box12"]
FILL = ["()", "u8", "[u16; 3]", "String", "Option<Box<u64>>", "u128", "Vec<u8>", "(u8, u64)"]


def snake(name):
    """The documented field name of a PascalCase type name (heck-free, words split before capitals; digits as convert_case does)."""
    return re.sub(r"(?<=[a-z])(?=[0-9])|(?<!^)(?=[A-Z])", "_", name).lower()


class Comp:
    def __init__(self, name, tag, fill):
        self.name, self.tag, self.fill = name, tag, fill

    def decl(self):
        return (f"#[derive(Debug, Clone, Default)] pub struct {self.name} {{ pub v: u64, pub w: u64, pub fill: {self.fill} }}\n"
                f"impl Tg for {self.name} {{ const T: u32 = {self.tag}; fn mk(ser: u64) -> Self {{ Self {{ v: ser << 16 | {self.tag}, w: 0, fill: Default::default() }} }}"
                f" fn v(&self) -> u64 {{ self.v }} fn w(&self) -> u64 {{ self.w }} fn set(&mut self, w: u64) {{ self.w = w; }} }}\n")


class Arch:
    def __init__(self, name, comps, aid=None):
        self.name, self.comps, self.aid = name, comps, aid
        self.field = snake(name)

    def has(self, c):
        return any(x is c for x in self.comps)

    def col(self, c):
        return next(k for k, x in enumerate(self.comps) if x is c)


class WorldDecl:
    def __init__(self, name, comps, archs):
        self.name, self.comps, self.archs = name, comps, archs

    def decl(self, rng=None):
        s = "ecs_world! {\n"
        named = f"    ecs_name!({self.name});\n" if self.name != "EcsWorld" else ""
        late = rng is not None and rng.random() < 0.3
        s += "" if late else named
        for a in self.archs:
            if a.aid is not None:
                s += f"    #[archetype_id({a.aid})]\n"
            tail = "," if (rng is None or rng.random() < 0.5) else ""
            s += f"    ecs_archetype!({a.name}, {', '.join(c.name for c in a.comps)}{tail});\n"
        s += named if late else ""
        if rng is not None and rng.random() < 0.3:
            s = s.rstrip()[:-1] + "\n"
        return s + "}\n"


def make_world(rng, big=False, maxcomps=16):
    ncomp = rng.randint(2, 8) if not big else rng.randint(6, 20)
    names = rng.sample(NAMES, ncomp)
    comps = [Comp(n, k + 1, rng.choice(FILL)) for k, n in enumerate(names)]
    if big == "wide":
        names = names + [f"Wide{k}" for k in range(maxcomps)]
        comps = [Comp(n, k + 1, rng.choice(FILL)) for k, n in enumerate(names)]
    if big is True:
        na = rng.randint(8, 24)
    elif big == "wide":
        na = rng.randint(2, 3)
    else:
        na = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    anames = rng.sample(ANAMES, na)
    archs = []
    used = set()
    prev = None
    for n in anames:
        if big == "wide" and rng.random() < 0.6:
            k = rng.choice([maxcomps, maxcomps - 1, max(1, maxcomps // 2 + 1)])
        else:
            k = rng.randint(1, min(6, len(comps)))
        cs = rng.sample(comps, k)
        if archs and rng.random() < 0.3:  # near-copies: same set reordered, one removed, one added
            base = list(rng.choice(archs).comps)
            rng.shuffle(base)
            x = rng.random()
            if x < 0.35 and len(base) > 1:
                base.pop()
            elif x < 0.7 and len(base) < maxcomps:
                base += [c for c in rng.sample(comps, len(comps)) if c not in base][:1]
            cs = base
        aid = None
        nxt = 0 if prev is None else prev + 1
        if nxt > 255 or nxt in used or rng.random() < 0.15:
            aid = rng.choice([x for x in range(256) if x not in used])
        a = aid if aid is not None else nxt
        used.add(a)
        prev = a
        archs.append(Arch(n, cs, aid))
        archs[-1].id = a
    return WorldDecl(rng.choice(["EcsWorld", "EcsWorld", "GameWorld", "MyWorld2", "Wx"]), comps, archs)


# The runtime half of the oracle: a model of every live entity, and comparison of what closures saw with the tables the generator
# computed from the property text.
SUPPORT = r'''
#![allow(warnings)]
use gecs::prelude::*;
use std::collections::HashMap;

pub trait Tg { const T: u32; fn mk(ser: u64) -> Self; fn v(&self) -> u64; fn w(&self) -> u64; fn set(&mut self, w: u64); }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V { C(u32, u64, u64), E(EntityAny), D(EntityDirectAny) }
pub fn vc<C: Tg>(c: &C) -> V { V::C(C::T, c.v(), c.w()) }

/// What a parameter is bound to in one archetype: a column (tag), or a handle.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { R(u32), M(u32), E, D }

#[derive(Clone, Debug)]
pub struct Ent { pub arch: usize, pub ser: u64, pub any: EntityAny, pub dir: EntityDirectAny, pub w: Vec<u64> }

pub struct Model { pub ents: Vec<Ent>, pub tags: &'static [&'static [u32]] }
pub type Dump = Vec<(usize, EntityAny, Vec<(u32, u64, u64)>)>;

pub static mut FAILS: u32 = 0;
pub struct St { pub evals: u64, pub visits: u64, pub nones: u64, pub fails: u64, pub q: u32, pub how: &'static str }
impl St {
    pub fn fail(&mut self, msg: String) {
        self.fails += 1;
        if self.fails <= 20 { println!("BAD q{} {} : {}", self.q, self.how, msg); }
    }
}

impl Model {
    pub fn tag_of(&self, e: &Ent, t: u32) -> Option<(u64, u64)> {
        let k = self.tags[e.arch].iter().position(|x| *x == t)?;
        Some((e.ser << 16 | t as u64, e.w[k]))
    }
    /// Which entity one closure call was about, from any of its values.
    pub fn who(&self, r: &[V]) -> Option<usize> {
        for v in r {
            let f = match v {
                V::C(_, v, _) => self.ents.iter().position(|e| e.ser == v >> 16),
                V::E(x) => self.ents.iter().position(|e| e.any == *x),
                V::D(x) => self.ents.iter().position(|e| e.dir == *x),
            };
            if f.is_some() { return f; }
        }
        None
    }
    /// Checks one closure call against the binding of that entity's archetype; applies its writes.
    pub fn call(&mut self, st: &mut St, r: &[V], bind: &[Option<&[B]>], matched: &str, names: &[&str], stamp: u64, dirs: bool) -> Option<usize> {
        st.visits += 1;
        let Some(k) = self.who(r) else { st.fail(format!("closure call with values of no live entity: {r:?}")); return None; };
        let e = self.ents[k].clone();
        let Some(b) = bind[e.arch] else { st.fail(format!("closure ran for an entity of {}, which the query does not match: {r:?}", names[e.arch])); return Some(k); };
        st.evals += 2;
        if matched != names[e.arch] { st.fail(format!("MatchedArchetype is {matched} for an entity of {}", names[e.arch])); }
        if b.len() != r.len() { st.fail(format!("{} parameters seen, {} expected", r.len(), b.len())); return Some(k); }
        for (i, (b, v)) in b.iter().zip(r).enumerate() {
            st.evals += 1;
            let want = match b {
                B::R(t) | B::M(t) => { let (v, w) = self.tag_of(&e, *t).unwrap(); V::C(*t, v, w) }
                B::E => V::E(e.any),
                B::D => if dirs { V::D(e.dir) } else { continue },
            };
            if want != *v { st.fail(format!("parameter {i} of {} bound to {v:?}, expected {want:?}", names[e.arch])); }
        }
        for b in b.iter() {
            if let B::M(t) = b {
                let c = self.tags[e.arch].iter().position(|x| x == t).unwrap();
                self.ents[k].w[c] = stamp;
            }
        }
        Some(k)
    }
    pub fn visited(&self, st: &mut St, seen: &[usize], bind: &[Option<&[B]>], names: &[&str]) {
        for (k, e) in self.ents.iter().enumerate() {
            st.evals += 1;
            let n = seen.iter().filter(|x| **x == k).count();
            let want = bind[e.arch].is_some() as usize;
            if n != want { st.fail(format!("entity {} of {} visited {n} times, expected {want}", e.ser, names[e.arch])); }
        }
    }
    pub fn audit(&self, st: &mut St, d: Dump) {
        st.evals += 1;
        let mut n = 0;
        for (arch, any, cols) in d {
            n += 1;
            let Some(e) = self.ents.iter().find(|e| e.any == any) else { st.fail(format!("unexpected entity {any:?} in the world")); continue; };
            st.evals += 1;
            if e.arch != arch { st.fail(format!("entity {} in the wrong archetype", e.ser)); continue; }
            for (t, v, w) in cols {
                st.evals += 1;
                if self.tag_of(e, t) != Some((v, w)) { st.fail(format!("column {t} of entity {} holds {:?}, expected {:?}", e.ser, (v, w), self.tag_of(e, t))); }
            }
        }
        if n != self.ents.len() { st.fail(format!("{n} entities in the world, {} expected", self.ents.len())); }
    }
}
pub fn last<T>(_: &T) -> String { let s = std::any::type_name::<T>(); s.rsplit("::").next().unwrap().to_string() }
pub fn tname<T>() -> String { let s = std::any::type_name::<T>(); s.rsplit("::").next().unwrap().to_string() }
'''


def world_support(w, pops):
    """setup() and dump() for a declaration."""
    s = f"pub type WW = {w.name};\n"
    s += "pub static NAMES: &[&str] = &[" + ", ".join(f'"{a.name}"' for a in w.archs) + "];\n"
    s += "pub static TAGS: &[&[u32]] = &[" + ", ".join("&[" + ", ".join(str(c.tag) for c in a.comps) + "]" for a in w.archs) + "];\n"
    s += "pub fn setup() -> (WW, Model) {\n    let mut w = WW::new();\n    let mut ents: Vec<Ent> = Vec::new();\n"
    ser = 1
    # interleave creation over the archetypes
    order = [k for k, n in enumerate(pops) for _ in range(n)]
    random.Random(len(order) * 7 + sum(pops)).shuffle(order)
    for k in order:
        a = w.archs[k]
        s += f"    {{ let e = w.create::<{a.name}>(({', '.join(f'<{c.name} as Tg>::mk({ser})' for c in a.comps)},)); ents.push(Ent {{ arch: {k}, ser: {ser}, any: e.into(), dir: w.to_direct(e).unwrap().into(), w: vec![0; {len(a.comps)}] }}); }}\n"
        ser += 1
    # creations do not invalidate direct handles of other archetypes, but refresh all of them anyway
    s += "    for e in ents.iter_mut() { e.dir = w.to_direct(e.any).unwrap(); }\n    (w, Model { ents, tags: TAGS })\n}\n"
    s += "pub fn dump(w: &mut WW) -> Dump {\n    let mut d: Dump = Vec::new();\n"
    for k, a in enumerate(w.archs):
        s += f"    {{ let a = w.archetype_mut::<{a.name}>(); let es: Vec<EntityAny> = a.entities().iter().map(|e| (*e).into()).collect(); let base = d.len();\n"
        s += f"      for e in es {{ d.push(({k}, e, Vec::new())); }}\n"
        for c in a.comps:
            s += f"      for (i, c) in a.get_slice_mut::<{c.name}>().iter().enumerate() {{ d[base + i].2.push((<{c.name} as Tg>::T, c.v(), c.w())); }}\n"
        s += "    }\n"
    return s + "    d\n}\n"
