//! Monitored histories over a world with the maximum number of archetypes.
#![allow(unused_variables, dead_code, unused_macros)]
use gecs::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Tag(pub u64);
#[derive(Clone)]
pub struct X(pub u64);
#[derive(Clone)]
pub struct Y(pub u64);
#[derive(Clone)]
pub struct Solo(pub u64);

pub struct Ops {
    pub id: u8,
    pub create: fn(&mut Huge, u64) -> EntityAny,
    pub len: fn(&Huge) -> usize,
    pub entities: fn(&Huge) -> Vec<EntityAny>,
    pub has: fn(&str) -> bool,
    #[cfg(feature = "events")]
    pub events: fn(&Huge) -> (Vec<EntityAny>, Vec<EntityAny>),
    #[cfg(feature = "events")]
    pub clear: fn(&mut Huge),
}

macro_rules! table {
    ($($i:literal $id:literal $A:ident $f:ident $Comps:ident [$($C:ident $c:ident),*])*) => {
        pub static TABLE: &[Ops] = &[$(Ops {
            id: $id,
            create: |w, t| w.create::<$A>($Comps { $($c: $C(t)),* }).into_any(),
            len: |w| w.archetype::<$A>().len(),
            entities: |w| w.archetype::<$A>().entities().iter().map(|e| e.into_any()).collect(),
            has: |c| [$(stringify!($C)),*].contains(&c),
            #[cfg(feature = "events")]
            events: |w| (w.archetype::<$A>().iter_created().map(|e| e.into_any()).collect(), w.archetype::<$A>().iter_destroyed().map(|e| e.into_any()).collect()),
            #[cfg(feature = "events")]
            clear: |w| w.archetype_mut::<$A>().clear_events(),
        }),*];
    };
}

mod world;
pub use world::*;

fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

struct Ctx {
    s: u64,
    viols: Vec<(&'static str, String)>,
    evals: u64,
    seen: HashSet<u64>,
    stats: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}
impl Ctx {
    fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.s)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn check(&mut self, ok: bool, props: &'static str, msg: impl FnOnce() -> String) {
        self.evals += 1;
        if !ok && self.viols.len() < 20 {
            self.viols.push((props, msg()));
        }
    }
    fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
}

fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

#[derive(Clone, Default)]
struct Model {
    live: BTreeMap<(u32, u32), (EntityAny, usize, u64)>,
    created: Vec<Vec<EntityAny>>,
    destroyed: Vec<Vec<EntityAny>>,
    dead: Vec<EntityAny>,
}

fn raws(v: &[EntityAny]) -> Vec<(u32, u32)> {
    let mut r: Vec<_> = v.iter().map(|e| e.raw()).collect();
    r.sort();
    r
}

#[cfg(feature = "events")]
fn check_events(ctx: &mut Ctx, w: &Huge, m: &Model) {
    let (mut wc, mut wd) = (vec![], vec![]);
    for (a, o) in TABLE.iter().enumerate() {
        let (c, d) = (o.events)(w);
        ctx.check(raws(&c) == raws(&m.created[a]) && raws(&d) == raws(&m.destroyed[a]), "C17", || format!("event logs of archetype {}: {} created, {} destroyed, expected {} and {}", o.id, c.len(), d.len(), m.created[a].len(), m.destroyed[a].len()));
        wc.extend(c);
        wd.extend(d);
    }
    fn one<'a, I: Iterator<Item = &'a EntityAny>>(ctx: &mut Ctx, name: &str, mk: impl Fn() -> I, want: &[EntityAny]) {
        let mut it = mk();
        let mut got = Vec::new();
        let mut hints = vec![it.size_hint()];
        while let Some(e) = it.next() {
            got.push(*e);
            hints.push(it.size_hint());
            if got.len() > want.len() + 2 {
                break;
            }
        }
        ctx.check(raws(&got) == raws(want), "C17", || format!("world {name} lists {} of {} events", got.len(), want.len()));
        for (i, h) in hints.iter().enumerate() {
            let left = got.len() - i;
            ctx.check(*h == (left, Some(left)), "C17", || format!("world {name}: size_hint {h:?} with {left} items left"));
        }
        ctx.check(it.next().is_none(), "C17", || format!("world {name}: item after the end"));
        ctx.check(mk().count() == got.len() && mk().last() == got.last(), "C17", || format!("world {name}: count() or last() differ from next()"));
        for k in [0, 1, got.len() / 2, got.len().saturating_sub(1), got.len()] {
            let mut it = mk();
            ctx.check(it.nth(k) == got.get(k), "C17", || format!("world {name}: nth({k}) of {} differs from next()", got.len()));
            let rest: Vec<EntityAny> = it.copied().collect();
            ctx.check(rest[..] == got[got.len().min(k + 1)..], "C17", || format!("world {name}: the rest after nth({k}) of {} differs", got.len()));
        }
    }
    if let Err(p) = guard(|| one(ctx, "iter_created", || w.iter_created(), &wc)) {
        ctx.check(false, "C17,C10", || format!("iter_created panicked: {p}"));
    }
    if let Err(p) = guard(|| one(ctx, "iter_destroyed", || w.iter_destroyed(), &wd)) {
        ctx.check(false, "C17,C10", || format!("iter_destroyed panicked: {p}"));
    }
    ctx.stat("events_seen", (wc.len() + wd.len()) as u64);
}
#[cfg(not(feature = "events"))]
fn check_events(_: &mut Ctx, _: &Huge, _: &Model) {}

type Obs = (u8, EntityAny, EntityDirectAny, u64);

macro_rules! query {
    ($name:ident, $c:literal, $($v:ident : $C:ident)?) => {
        fn $name(w: &mut Huge, path: usize, brk: usize, f: &mut dyn FnMut(Obs) -> (bool, bool)) {
            // `f` returns (destroy, break)
            macro_rules! obs { ($e:ident, $d:ident, $t:expr) => { (MatchedArchetype::ARCHETYPE_ID, *$e, *$d, $t) } }
            match path {
                0 => ecs_iter!(w, |e: &EntityAny, d: &EntityDirectAny $(, $v: &mut $C)?| {
                    let t: u64 = 0 $(+ $v.0)?;
                    if f(obs!(e, d, t)).1 { EcsStep::Break } else { EcsStep::Continue }
                }),
                1 => ecs_iter_borrow!(w, |e: &EntityAny, d: &EntityDirectAny $(, $v: &$C)?| {
                    let t: u64 = 0 $(+ $v.0)?;
                    if f(obs!(e, d, t)).1 { EcsStep::Break } else { EcsStep::Continue }
                }),
                _ => ecs_iter_destroy!(w, |e: &EntityAny, d: &EntityDirectAny $(, $v: &$C)?| {
                    let t: u64 = 0 $(+ $v.0)?;
                    match f(obs!(e, d, t)) {
                        (false, false) => EcsStepDestroy::Continue,
                        (false, true) => EcsStepDestroy::Break,
                        (true, false) => EcsStepDestroy::ContinueDestroy,
                        (true, true) => EcsStepDestroy::BreakDestroy,
                    }
                }),
            }
        }
    };
}
query!(q_any, "", );
query!(q_tag, "Tag", v: Tag);
query!(q_x, "X", v: X);
query!(q_y, "Y", v: Y);
query!(q_solo, "Solo", v: Solo);

const QUERIES: [(&str, fn(&mut Huge, usize, usize, &mut dyn FnMut(Obs) -> (bool, bool))); 5] =
    [("", q_any), ("Tag", q_tag), ("X", q_x), ("Y", q_y), ("Solo", q_solo)];

fn find(w: &mut Huge, e: EntityAny, d: Option<EntityDirectAny>, path: usize) -> Option<Obs> {
    match (path, d) {
        (0, _) => ecs_find!(w, e, |e: &EntityAny, d: &EntityDirectAny, v: &mut Tag| (MatchedArchetype::ARCHETYPE_ID, *e, *d, v.0)),
        (1, _) | (_, None) => ecs_find_borrow!(w, e, |e: &EntityAny, d: &EntityDirectAny, v: &Tag| (MatchedArchetype::ARCHETYPE_ID, *e, *d, v.0)),
        (_, Some(d)) => ecs_find!(w, d, |e: &EntityAny, d: &EntityDirectAny, v: &Tag| (MatchedArchetype::ARCHETYPE_ID, *e, *d, v.0)),
    }
}

fn run_query(ctx: &mut Ctx, w: &mut Huge, m: &mut Model, qi: usize, path: usize, kill: u64, brk: usize) {
    let (c, q) = QUERIES[qi];
    let want: HashSet<(u32, u32)> = m.live.iter().filter(|(_, (_, a, _))| c.is_empty() || (TABLE[*a].has)(c)).map(|(r, _)| *r).collect();
    let src = if path == 2 { "C07" } else { "C06" };
    let src5 = if path == 2 { "C05,C07" } else { "C05,C06" };
    let mut obs: Vec<(Obs, bool)> = Vec::new();
    let r = guard(|| {
        q(w, path, brk, &mut |o| {
            let destroy = path == 2 && kill != 0 && mix(o.1.raw().0 as u64 ^ kill) % 3 == 0;
            obs.push((o, destroy));
            (destroy, obs.len() == brk)
        })
    });
    if let Err(p) = r {
        return ctx.check(false, "C05,C06,C07,C10", || format!("query over {c:?} (path {path}) panicked: {p}"));
    }
    let mut seen = HashSet::new();
    for (o, d) in &obs {
        let raw = o.1.raw();
        ctx.check(want.contains(&raw) && seen.insert(raw), src5, || format!("query over {c:?} (path {path}) presented {:?}: dead, unmatched or seen before", o.1));
        if let Some((e, a, t)) = m.live.get(&raw).cloned() {
            ctx.check(TABLE[a].id == o.0 && e.archetype_id() == o.0, "C05", || format!("{e:?} visited under archetype {}", o.0));
            ctx.check(c.is_empty() || o.3 == t, "C02,C05", || format!("{e:?} shows {} instead of {t}", o.3));
        }
        if *d {
            if let Some((e, a, _)) = m.live.remove(&raw) {
                m.destroyed[a].push(e);
                m.dead.push(e);
            }
        }
    }
    let n = if brk == 0 { want.len() } else { brk.min(want.len()) };
    ctx.check(obs.len() == n, src5, || format!("query over {c:?} (path {path}) made {} calls, {n} expected of {} matching entities", obs.len(), want.len()));
    ctx.stat("queries", 1);
}

fn lens(ctx: &mut Ctx, w: &Huge, m: &Model) {
    let mut n = vec![0usize; TABLE.len()];
    for (_, (_, a, _)) in m.live.iter() {
        n[*a] += 1;
    }
    for (a, o) in TABLE.iter().enumerate() {
        let l = (o.len)(w);
        ctx.check(l == n[a], "C12,C07", || format!("len of archetype {} is {l}, {} alive", o.id, n[a]));
    }
}

fn item(ctx: &mut Ctx, i: usize) {
    let mut w = Huge::new();
    let mut m = Model { created: vec![vec![]; 256], destroyed: vec![vec![]; 256], ..Model::default() };
    let rounds = 1 + ctx.below(3);
    for round in 0..rounds {
        // which archetypes take part
        let dens = [0usize, 1, 3, 40, 128, 256][(i + round) % 6];
        let mut set: Vec<usize> = (0..dens).map(|k| if dens == 256 { k } else { ctx.below(256) }).collect();
        for a in [0, 63, 64, 127, 128, 254, 255] {
            if ctx.below(3) == 0 {
                set.push(a);
            }
        }
        set.push(i % 256);
        for a in set.iter().copied() {
            for _ in 0..1 + ctx.below(3) {
                let t = ctx.next() >> 1;
                match guard(|| (TABLE[a].create)(&mut w, t)) {
                    Ok(e) => {
                        ctx.check(e.archetype_id() == TABLE[a].id, "C15,C14", || format!("{e:?} created in archetype {}", TABLE[a].id));
                        ctx.check(m.live.insert(e.raw(), (e, a, t)).is_none(), "C08", || format!("{e:?} issued twice"));
                        m.created[a].push(e);
                    }
                    Err(p) => ctx.check(false, "C12,C10", || format!("create panicked: {p}")),
                }
            }
        }
        lens(ctx, &w, &m);
        check_events(ctx, &w, &m);
        let occ = m.created.iter().enumerate().fold(0u64, |h, (a, v)| mix(h ^ ((a as u64) << 8) ^ v.len().min(3) as u64));
        ctx.seen.insert(occ);
        for qi in 0..QUERIES.len() {
            for path in 0..3 {
                run_query(ctx, &mut w, &mut m, qi, path, 0, 0);
                let n = m.live.len();
                let k = 1 + ctx.below(n);
                run_query(ctx, &mut w, &mut m, qi, path, 0, k);
            }
        }
        // finds
        let all: Vec<_> = m.live.values().cloned().collect();
        for _ in 0..40 {
            if all.is_empty() {
                break;
            }
            let (e, a, t) = all[ctx.below(all.len())].clone();
            let d = guard(|| w.to_direct(e)).ok().flatten();
            ctx.check(d.is_some(), "C01,C09", || format!("to_direct refused live {e:?}"));
            for path in 0..3 {
                let d2: Option<EntityDirectAny> = d.map(|d| d.into());
                let r = guard(|| find(&mut w, e, d2, path));
                let ok = matches!(&r, Ok(Some(o)) if o.0 == TABLE[a].id && o.1 == e && o.3 == t);
                ctx.check(ok, if path == 2 { "C09,C05" } else { "C01,C05" }, || format!("find (path {path}) of {e:?} with value {t} gave {r:?}"));
            }
        }
        for k in 0..m.dead.len().min(60) {
            let h = m.dead[ctx.below(m.dead.len())];
            let r = guard(|| w.contains(h) || find(&mut w, h, None, k % 2).is_some() || w.destroy(h).is_some());
            ctx.check(r == Ok(false), "C01", || format!("dead {h:?} accepted: {r:?}"));
        }
        // destroy some by handle, some in a loop
        for (e, a, t) in all {
            if ctx.below(4) == 0 {
                let r = guard(|| w.destroy(e).is_some());
                ctx.check(r == Ok(true), "C01", || format!("destroy of live {e:?} gave {r:?}"));
                if m.live.remove(&e.raw()).is_some() {
                    m.destroyed[a].push(e);
                    m.dead.push(e);
                }
            }
        }
        check_events(ctx, &w, &m);
        let (qi, kill) = (ctx.below(QUERIES.len()), 1 | ctx.next());
        let brk = if ctx.below(2) == 0 { 0 } else { 1 + ctx.below(m.live.len()) };
        run_query(ctx, &mut w, &mut m, qi, 2, kill, brk);
        lens(ctx, &w, &m);
        check_events(ctx, &w, &m);
        if ctx.below(3) == 0 {
            match guard(|| w.clone()) {
                Ok(w2) => {
                    for o in TABLE {
                        ctx.check((o.entities)(&w) == (o.entities)(&w2), "C13", || format!("the clone lists other entities in archetype {}", o.id));
                    }
                    if ctx.below(2) == 0 {
                        w = w2;
                    }
                    check_events(ctx, &w, &m);
                }
                Err(p) => ctx.check(false, "C13,C10", || format!("clone panicked: {p}")),
            }
        }
        #[cfg(feature = "events")]
        {
            if ctx.below(2) == 0 {
                w.clear_events();
                m.created.iter_mut().for_each(|v| v.clear());
                m.destroyed.iter_mut().for_each(|v| v.clear());
            } else {
                for a in 0..256 {
                    if ctx.below(2) == 0 {
                        (TABLE[a].clear)(&mut w);
                        m.created[a].clear();
                        m.destroyed[a].clear();
                    }
                }
            }
            check_events(ctx, &w, &m);
        }
        if !ctx.viols.is_empty() {
            std::mem::forget(w);
            return;
        }
    }
    ctx.stat("histories", 1);
    if ctx.samples.len() < 3 {
        let s = format!("{} entities left in 256 archetypes after {rounds} rounds, {} destroyed", m.live.len(), m.dead.len());
        ctx.samples.push(s);
    }
}

fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str, d: &str| v.iter().position(|x| x == k).and_then(|i| v.get(i + 1).cloned()).unwrap_or(d.to_string());
    let prop = get("--prop", "ALL");
    let (n, skip, stride): (usize, usize, usize) = (get("--n", "10").parse().unwrap(), get("--skip", "0").parse().unwrap(), get("--stride", "1").parse().unwrap());
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--max-secs", "60").parse().unwrap();
    if !v.iter().any(|x| x == "--trace") {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let t0 = std::time::Instant::now();
    let mut ctx = Ctx { s: 0, viols: vec![], evals: 0, seen: HashSet::new(), stats: BTreeMap::new(), samples: vec![] };
    let (mut done, mut tainted, mut code) = (0, 0, 0);
    for i in (0..n).map(|k| skip + k * stride) {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        ctx.s = mix(seed ^ (i as u64) << 20);
        if let Err(p) = guard(|| item(&mut ctx, i)) {
            ctx.viols.push(("*", format!("a panic escaped: {p}")));
        }
        done += 1;
        if !ctx.viols.is_empty() {
            let hit = ctx.viols.iter().any(|x| prop == "ALL" || x.0.split(',').any(|p| p == prop || p == "*"));
            for x in ctx.viols.iter() {
                println!("{} props={} item={i} msg={}", if hit { "VIOL" } else { "TAINT" }, x.0, x.1.replace('\n', " "));
            }
            if hit {
                code = 1;
                break;
            }
            tainted += 1;
            ctx.viols.clear();
        }
    }
    for (k, v) in &ctx.stats {
        println!("STAT {k} {v}");
    }
    for s in &ctx.samples {
        println!("SAMPLE {s}");
    }
    println!("STAT items {done}\nSTAT tainted {tainted}\nSTAT evaluations {}\nSTAT distinct {}", ctx.evals, ctx.seen.len());
    let path = get("--distinct", "");
    if !path.is_empty() {
        let b: Vec<u8> = ctx.seen.iter().flat_map(|h| h.to_ne_bytes()).collect();
        let _ = std::fs::write(path, b);
    }
    println!("END code={code}");
    std::process::exit(code);
}
