//! C14: handle conversions, on arbitrary bit patterns and on handles of live entities.
use crate::comps::*;
use crate::ctx::{guard, Ctx};
use crate::world::*;
use gecs::error::EcsError;
use gecs::prelude::*;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

/// Records exactly what a value feeds to its hasher.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xfe);
    }
}
fn fed<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

const P: &[&str] = &["C14"];

macro_rules! archs {
    ($m:ident) => {
        $m!(ArchOne);
        $m!(ArchZed);
        $m!(ArchTri);
        $m!(ArchMix);
        $m!(ArchPod);
        $m!(ArchTwin);
        $m!(ArchWide);
        $m!(ArchLast);
        #[cfg(feature = "32_components")]
        $m!(ArchMax);
        #[cfg(feature = "32_components")]
        $m!(ArchSev);
    };
}

/// Everything that can be said about one EntityAny, whatever its bits.
fn any_rules(ctx: &mut Ctx, e: EntityAny, full: bool) {
    let raw = e.raw();
    let id = raw.0 as u8;
    ctx.check(e.archetype_id() == id, P, || format!("archetype_id of {raw:x?} is {}", e.archetype_id()));
    ctx.check(e.into_any() == e && e.into_any().raw() == raw, P, || format!("into_any changed {raw:x?}"));
    let back = EntityAny::from_raw(raw);
    ctx.check(back == Ok(e) && back.as_ref().map(|b| b.raw()) == Ok(raw), P, || format!("from_raw(raw()) of {raw:x?} is {back:?}"));
    ctx.check(fed(&e) == fed(&back.unwrap_or(e)), P, || format!("equal handles hash differently: {raw:x?}"));
    ctx.check(EntityAny::from_raw((raw.0, 0)) == Err(EcsError::InvalidRawEntity), P, || format!("from_raw accepted a zero generation with key {:x}", raw.0));
    let sa = SelectArchetype::try_from(e);
    let sb = SelectArchetype::try_from(id);
    let se = SelectEntity::try_from(e);
    let mut known = false;
    macro_rules! one {
        ($A:ident) => {{
            let is = <$A as Archetype>::ARCHETYPE_ID == id;
            known |= is;
            let t = Entity::<$A>::try_from(e);
            ctx.check(t.is_ok() == is && t.as_ref().err().map_or(true, |x| *x == EcsError::InvalidEntityType), P, || format!("Entity::<{}>::try_from({raw:x?}) is {t:?}", stringify!($A)));
            let ti: Result<Entity<$A>, _> = e.try_into();
            ctx.check(ti.is_ok() == is, P, || format!("try_into Entity<{}> of {raw:x?} is {ti:?}", stringify!($A)));
            if is || full {
                let f = guard(|| Entity::<$A>::from_any(e));
                match &f {
                    Ok(f) => ctx.check(is && f.into_any().raw() == raw, P, || format!("Entity::<{}>::from_any({raw:x?}) gave {f:?}", stringify!($A))),
                    Err(m) => ctx.check(!is && m.starts_with("invalid entity conversion"), P, || format!("Entity::<{}>::from_any({raw:x?}) panicked: {m}", stringify!($A))),
                };
            }
            if let Ok(mut t) = t {
                let u = Entity::<$A>::from_any_unchecked(e);
                ctx.check(t.into_any().raw() == raw && u == t && u.into_any().raw() == raw, P, || format!("typed form of {raw:x?} is {:x?} / {:x?}", t.into_any().raw(), u.into_any().raw()));
                ctx.check(t.archetype_id() == id, P, || format!("typed archetype_id of {raw:x?} is {}", t.archetype_id()));
                let a: EntityAny = t.into();
                let r: &EntityAny = (&t).into();
                ctx.check(a == e && *r == e && r.raw() == raw, P, || format!("EntityAny::from of typed {raw:x?} is {a:?} / {r:?}"));
                let m: &mut EntityAny = (&mut t).into();
                ctx.check(m.raw() == raw && *m == e, P, || format!("&mut EntityAny of typed {raw:x?} is {m:?}"));
                let h1 = fed(&t);
                let t2 = t.clone();
                ctx.check(t2 == t && fed(&t2) == h1 && fed(&u) == h1, P, || format!("equal typed handles hash differently: {raw:x?}"));
                ctx.check(matches!(se, Ok(SelectEntity::$A(x)) if x == t && x.into_any().raw() == raw), P, || format!("SelectEntity::try_from({raw:x?}) chose another variant"));
                ctx.check(matches!(SelectEntity::from(t), SelectEntity::$A(x) if x == t), P, || format!("SelectEntity::from typed {raw:x?}"));
                ctx.check(matches!(SelectEntity::from(&t), SelectEntity::$A(x) if x.into_any().raw() == raw), P, || format!("SelectEntity::from &typed {raw:x?}"));
                ctx.check(matches!(SelectArchetype::from(t), SelectArchetype::$A), P, || format!("SelectArchetype::from typed {raw:x?}"));
                ctx.check(matches!(sa, Ok(SelectArchetype::$A)), P, || format!("SelectArchetype::try_from({raw:x?}) chose another variant"));
                ctx.check(matches!(sb, Ok(SelectArchetype::$A)), P, || format!("SelectArchetype::try_from({id}) chose another variant"));
                ctx.check(SelectArchetype::$A.archetype_id() == id, P, || format!("SelectArchetype::{}.archetype_id() is not {id}", stringify!($A)));
            }
        }};
    }
    archs!(one);
    let ok = (sa.is_ok(), sb.is_ok(), se.is_ok());
    ctx.check(ok == (known, known, known), P, || format!("Select* of id {id}: {ok:?}, declared: {known}"));
    let errs = [sa.err(), sb.err(), se.err()];
    ctx.check(errs.iter().flatten().all(|x| *x == EcsError::InvalidEntityType), P, || format!("Select* of id {id} fail with {errs:?}"));
    ctx.seen("id-known", (id as u64) << 8 | (raw.0 >> 28) as u64);
}

fn direct_rules(ctx: &mut Ctx, d: EntityDirectAny, id: u8) {
    ctx.check(d.archetype_id() == id, P, || format!("archetype_id of {d:?} is {}, want {id}", d.archetype_id()));
    ctx.check(d.into_any() == d, P, || format!("into_any changed {d:?}"));
    let sd = SelectEntityDirect::try_from(d);
    let mut known = false;
    macro_rules! one {
        ($A:ident) => {{
            let is = <$A as Archetype>::ARCHETYPE_ID == id;
            known |= is;
            let t = EntityDirect::<$A>::try_from(d);
            ctx.check(t.is_ok() == is && t.as_ref().err().map_or(true, |x| *x == EcsError::InvalidEntityType), P, || format!("EntityDirect::<{}>::try_from({d:?}) is {t:?}", stringify!($A)));
            let f = guard(|| EntityDirect::<$A>::from_any(d));
            match &f {
                Ok(f) => ctx.check(is && f.into_any() == d, P, || format!("EntityDirect::<{}>::from_any({d:?}) gave {f:?}", stringify!($A))),
                Err(m) => ctx.check(!is && m.starts_with("invalid entity conversion"), P, || format!("EntityDirect::<{}>::from_any({d:?}) panicked: {m}", stringify!($A))),
            };
            if let Ok(mut t) = t {
                let u = EntityDirect::<$A>::from_any_unchecked(d);
                ctx.check(t.into_any() == d && u == t && u.into_any() == d, P, || format!("typed form of {d:?} is {t:?} / {u:?}"));
                ctx.check(t.archetype_id() == id, P, || format!("typed archetype_id of {d:?}"));
                let a: EntityDirectAny = t.into();
                let r: &EntityDirectAny = (&t).into();
                ctx.check(a == d && *r == d, P, || format!("EntityDirectAny::from of typed {d:?} is {a:?} / {r:?}"));
                let m: &mut EntityDirectAny = (&mut t).into();
                ctx.check(*m == d, P, || format!("&mut EntityDirectAny of typed {d:?} is {m:?}"));
                ctx.check(fed(&t) == fed(&u) && fed(&a) == fed(&d), P, || format!("equal direct handles hash differently: {d:?}"));
                ctx.check(matches!(sd, Ok(SelectEntityDirect::$A(x)) if x == t && x.into_any() == d), P, || format!("SelectEntityDirect::try_from({d:?}) chose another variant"));
                ctx.check(matches!(SelectEntityDirect::from(t), SelectEntityDirect::$A(x) if x.into_any() == d), P, || format!("SelectEntityDirect::from typed {d:?}"));
                ctx.check(matches!(SelectEntityDirect::from(&t), SelectEntityDirect::$A(x) if x == t), P, || format!("SelectEntityDirect::from &typed {d:?}"));
                ctx.check(matches!(SelectArchetype::from(t), SelectArchetype::$A), P, || format!("SelectArchetype::from typed {d:?}"));
            }
        }};
    }
    archs!(one);
    ctx.check(sd.is_ok() == known && sd.err().map_or(true, |x| x == EcsError::InvalidEntityType), P, || format!("SelectEntityDirect of id {id}"));
}

/// Every form a key can be passed to a find in must reach the same entity.
fn find_forms(ctx: &mut Ctx, w: &mut W, e: EntityAny) {
    let want = Some((e, SelectArchetype::try_from(e).unwrap().archetype_id()));
    macro_rules! see {
        ($k:expr, $name:expr) => {{
            let got = guard(|| ecs_find!(w, $k, |h: &EntityAny| (*h, MatchedArchetype::ARCHETYPE_ID)));
            let got2 = guard(|| ecs_find_borrow!(w, $k, |h: &EntityAny| (*h, MatchedArchetype::ARCHETYPE_ID)));
            ctx.check(got.as_ref().ok() == Some(&want) && got2.as_ref().ok() == Some(&want), &["C14", "C01"], || format!("find by {} of {e:?}: {got:?} / {got2:?}", $name));
        }};
    }
    macro_rules! one {
        ($A:ident) => {
            if let Ok(t) = Entity::<$A>::try_from(e) {
                let t = t;
                let mut a = e;
                let mut td = w.to_direct(t).expect("live");
                let mut ad = w.to_direct(e).expect("live");
                ctx.check(td.into_any() == ad, &["C14", "C09"], || format!("to_direct of typed and untyped {e:?} differ: {td:?} {ad:?}"));
                see!(t, "Entity");
                see!(a, "EntityAny");
                see!(&a, "&EntityAny");
                see!(&mut a, "&mut EntityAny");
                see!(td, "EntityDirect");
                see!(ad, "EntityDirectAny");
                see!(&ad, "&EntityDirectAny");
                see!(&mut ad, "&mut EntityDirectAny");
                direct_rules(ctx, ad, <$A as Archetype>::ARCHETYPE_ID);
            }
        };
    }
    archs!(one);
}

fn patterns(ctx: &mut Ctx, n: usize) {
    let vers = [1u32, 2, 3, 0xff, 0x100, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX - 1, u32::MAX];
    // every archetype id with a few positions, then random bits
    for id in 0..=255u32 {
        if ctx.mini && id % 16 != 8 && !matches!(id, 0 | 1 | 7 | 127 | 128 | 254 | 255) {
            continue;
        }
        for slot in [0u32, 1, (1 << 23), (1 << 24) - 1, ctx.rng.next() as u32 & 0xff_ffff] {
            let v = *ctx.rng.pick(&vers);
            let raw = (slot << 8 | id, v);
            match EntityAny::from_raw(raw) {
                Ok(e) => {
                    ctx.check(e.raw() == raw, P, || format!("from_raw({raw:x?}).raw() is {:x?}", e.raw()));
                    let full = slot <= 1 && (!ctx.mini || id < 9);
                    any_rules(ctx, e, full);
                }
                Err(x) => {
                    ctx.viol(P, format!("from_raw({raw:x?}) failed: {x:?}"));
                }
            }
            if ctx.mini && slot > 0 {
                break;
            }
        }
    }
    let mut prev: Option<EntityAny> = None;
    for _ in 0..n {
        let bit = 1u32 << ctx.rng.below(32);
        let raw = match prev {
            // one bit away from the last one: must be another handle
            Some(p) if ctx.rng.chance(1, 2) => {
                let r = p.raw();
                if ctx.rng.chance(1, 2) { (r.0 ^ bit, r.1) } else { (r.0, r.1 ^ bit) }
            }
            _ => (ctx.rng.next() as u32, ctx.rng.next() as u32),
        };
        if raw.1 == 0 {
            continue;
        }
        let e = match EntityAny::from_raw(raw) {
            Ok(e) => e,
            Err(x) => {
                ctx.viol(P, format!("from_raw({raw:x?}) failed: {x:?}"));
                return;
            }
        };
        if let Some(p) = prev {
            ctx.check((p == e) == (p.raw() == raw), P, || format!("{:x?} == {raw:x?} is {}", p.raw(), p == e));
        }
        any_rules(ctx, e, false);
        prev = Some(e);
        if !ctx.viols.is_empty() {
            return;
        }
    }
    ctx.stat("patterns", n as u64);
}

/// All 2^24 keys that share their top byte.
fn sweep(ctx: &mut Ctx, block: u32) {
    let v = [1u32, u32::MAX, 0x8000_0000, 7][(block & 3) as usize];
    let mut bad: Option<(u32, &'static str)> = None;
    let mut ok_ids = [0u32; 256];
    for lo in 0..1u32 << 24 {
        let key = block << 24 | lo;
        let e = match EntityAny::from_raw((key, v)) {
            Ok(e) => e,
            Err(_) => {
                bad = Some((key, "from_raw failed"));
                break;
            }
        };
        if e.raw() != (key, v) {
            bad = Some((key, "raw() differs"));
            break;
        }
        if e.archetype_id() != key as u8 {
            bad = Some((key, "archetype_id differs"));
            break;
        }
        macro_rules! one {
            ($A:ident) => {
                if let Ok(t) = Entity::<$A>::try_from(e) {
                    ok_ids[<$A as Archetype>::ARCHETYPE_ID as usize] += 1;
                    if t.into_any().raw() != (key, v) || key as u8 != <$A as Archetype>::ARCHETYPE_ID {
                        bad = Some((key, concat!("Entity<", stringify!($A), "> differs")));
                    }
                }
            };
        }
        archs!(one);
        if SelectEntity::try_from(e).is_ok() {
            ok_ids[key as u8 as usize] += 1;
        }
        if bad.is_some() {
            break;
        }
    }
    ctx.evals += 1 << 24;
    ctx.check(bad.is_none(), P, || format!("key {:x} generation {v:x}: {}", bad.unwrap().0, bad.unwrap().1));
    macro_rules! one {
        ($A:ident) => {{
            let id = <$A as Archetype>::ARCHETYPE_ID;
            ctx.check(bad.is_some() || ok_ids[id as usize] == 2 << 16, P, || format!("{} of 2^16 keys of {} converted", ok_ids[id as usize], stringify!($A)));
            ok_ids[id as usize] = 0;
        }};
    }
    archs!(one);
    ctx.check(bad.is_some() || ok_ids.iter().all(|n| *n == 0), P, || "a key of an undeclared archetype converted".into());
    ctx.seen("sweep", block as u64);
    ctx.stat("sweep_blocks", 1);
}

/// Handles issued by a real world: pairwise distinct, hashing consistently, surviving collections.
fn issued(ctx: &mut Ctx, n: usize) {
    let mut w = W::default();
    let mut all: Vec<EntityAny> = Vec::new();
    let mut live: Vec<EntityAny> = Vec::new();
    for i in 0..n {
        let a = ctx.rng.below(8);
        let dr = DRIVERS[a];
        let tags: Vec<u64> = (0..dr.cols().len() as u64).map(|c| i as u64 ^ c).collect();
        match guard(|| dr.create(&mut w, i % 4, &tags)) {
            Ok(Created::Ok(h, _)) => {
                ctx.check(h.archetype_id() == dr.id(), P, || format!("handle of {} has archetype id {}", dr.name(), h.archetype_id()));
                all.push(h);
                live.push(h);
            }
            Ok(_) => {}
            Err(p) => ctx.viol(&["C12"], format!("create panicked: {p}")),
        }
        if live.len() > 20 && ctx.rng.chance(1, 3) {
            let k = ctx.rng.below(live.len());
            let h = live.swap_remove(k);
            w.destroy(h);
        }
    }
    let mut set: HashSet<EntityAny> = HashSet::new();
    for h in &all {
        ctx.check(set.insert(*h), P, || format!("two entities with equal handles {h:?}"));
    }
    ctx.check(all.iter().all(|h| set.contains(&EntityAny::from_raw(h.raw()).unwrap())), P, || "a handle rebuilt from its raw parts is not found in a HashSet".into());
    let mut by: HashMap<Vec<u8>, EntityAny> = HashMap::new();
    for h in &all {
        if let Some(o) = by.insert(fed(h), *h) {
            // equal hashes are allowed; equal handles are not
            ctx.check(o != *h, P, || format!("{o:?} and {h:?} are equal"));
        }
    }
    for (i, a) in all.iter().enumerate().take(60) {
        for (j, b) in all.iter().enumerate().take(60) {
            ctx.check((a == b) == (i == j), P, || format!("{a:?} == {b:?} is {}", a == b));
        }
    }
    let mut dset: HashSet<EntityDirectAny> = HashSet::new();
    for h in &live {
        let d = w.to_direct(*h);
        match d {
            Some(d) => {
                ctx.check(dset.insert(d), P, || format!("two entities with equal direct handles {d:?}"));
                ctx.check(dset.contains(&d), P, || format!("{d:?} is lost in a HashSet"));
            }
            None => ctx.viol(&["C01", "C09"], format!("{h:?} is alive but has no direct handle")),
        }
    }
    for h in &live {
        any_rules(ctx, *h, false);
    }
    let k = if ctx.mini { 3 } else { live.len() };
    for h in live.iter().take(k) {
        find_forms(ctx, &mut w, *h);
    }
    ctx.stat("issued", all.len() as u64);
}

pub fn conv(ctx: &mut Ctx, item: usize, _scale: usize) {
    match item % 2 {
        0 => {
            let n = if ctx.mini { 40 } else { 1500 };
            patterns(ctx, n)
        }
        _ => {
            let n = if ctx.mini { 30 } else { 200 };
            issued(ctx, n)
        }
    }
}

pub fn convsweep(ctx: &mut Ctx, item: usize) {
    sweep(ctx, item as u32 & 0xff);
}
