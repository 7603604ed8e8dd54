//! The main monitored world and the per-archetype drivers through which the engine reaches every
//! public access path of gecs in a uniform, dynamically typed way.
use crate::comps::*;
use crate::ledger;
use gecs::prelude::*;
use std::cell::RefCell;

ecs_world! {
    ecs_name!(MainWorld);
    ecs_archetype!(ArchOne, Trk); // id 0
    ecs_archetype!(ArchZed, Zd); // id 1, nothing but a ZST
    #[archetype_id(7)]
    ecs_archetype!(ArchTri, Id, Trk, Byte);
    ecs_archetype!(ArchMix, Al, Id, Txt, Inl, Zd); // id 8
    #[archetype_id(127)]
    ecs_archetype!(ArchPod, Id, Byte, Half, Word, Big, Odd, Nd, Za);
    ecs_archetype!(ArchTwin, Trk, Inl); // id 128
    #[archetype_id(254)]
    ecs_archetype!(ArchWide, Id, Trk, Qa, Qb, Qc, Qd, Qe, Qf, Qg, Qh, Qi, Qj, Byte, Inl, Word, Zd);
    ecs_archetype!(ArchLast, Qb, Id); // id 255
    #[cfg(feature = "32_components")]
    #[archetype_id(60)]
    ecs_archetype!(ArchMax, Id, Trk, Byte, Tc, Word, Big, Al, Qa, Qb, Qc, Qd, Qe, Qf, Qg, Qh, Qi,
        Qj, Ra, Rb, Rc, Rd, Re, Rf, Rg, Rh, Ri, Rj, Ta, Tb, Txt, Inl, Zd);
    #[cfg(feature = "32_components")]
    ecs_archetype!(ArchSev, Qa, Qb, Qc, Qd, Qe, Qf, Qg, Qh, Qi, Qj, Ra, Rb, Rc, Rd, Re, Rf, Id);
}

pub type W = MainWorld;
pub type Caps = MainWorldCapacity;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Key {
    E(EntityAny),       // as Entity<A>
    A(EntityAny),       // as EntityAny
    D(EntityDirectAny), // as EntityDirect<A>
    X(EntityDirectAny), // as EntityDirectAny
    EU(EntityAny),       // as Entity<A> through from_any_unchecked
    DU(EntityDirectAny), // as EntityDirect<A> through from_any_unchecked
}

#[derive(Clone, Debug, Default)]
pub struct Row {
    pub h: Option<EntityAny>,
    pub d: Option<EntityDirectAny>,
    pub idx: Option<usize>,
    pub mid: Option<u8>,
    pub tags: Option<Vec<u64>>,
    pub vids: Vec<u64>,
    pub bad: Option<String>,
}

fn cells_row(cells: &[&dyn Cell]) -> Row {
    Row {
        tags: Some(cells.iter().map(|c| c.tag()).collect()),
        vids: cells.iter().map(|c| c.vid()).collect(),
        ..Row::default()
    }
}

fn full_row(hs: [EntityAny; 3], ds: [EntityDirectAny; 3], mid: u8, cells: &[&dyn Cell]) -> Row {
    let mut r = cells_row(cells);
    r.h = Some(hs[0]);
    r.d = Some(ds[0]);
    r.mid = Some(mid);
    if hs[1] != hs[0] || hs[2] != hs[0] {
        r.bad = Some(format!("handle parameters of one closure call disagree: {hs:?}"));
    }
    if ds[1] != ds[0] || ds[2] != ds[0] {
        r.bad = Some(format!("direct handle parameters of one closure call disagree: {ds:?}"));
    }
    r
}

#[derive(Debug)]
pub enum Created {
    Ok(EntityAny, Vec<u64>),
    Full(Vec<u64>, Vec<u64>, Vec<u64>), // returned tags, returned vids, given vids
}

#[derive(Debug, PartialEq)]
pub enum Destroyed {
    Absent,
    Unit,
    Comps(Vec<u64>, Vec<u64>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dec {
    Cont,
    Break,
    ContDestroy,
    BreakDestroy,
    /// the conversion of the closure's result panics
    Boom,
}
impl From<Dec> for EcsStepDestroy {
    fn from(d: Dec) -> Self {
        match d {
            Dec::Cont => EcsStepDestroy::Continue,
            Dec::Break => EcsStepDestroy::Break,
            Dec::ContDestroy => EcsStepDestroy::ContinueDestroy,
            Dec::BreakDestroy => EcsStepDestroy::BreakDestroy,
            Dec::Boom => panic!("{}", ledger::BOMB),
        }
    }
}

/// Component values that only come into being when gecs converts them.
pub struct Lazy<'a> {
    pub tags: &'a [u64],
    pub vids: &'a RefCell<Vec<u64>>,
    /// panic before the n-th component
    pub fail: Option<usize>,
}
impl Lazy<'_> {
    fn next<C: Comp>(&self, i: usize) -> C {
        if self.fail == Some(i) {
            panic!("{}", ledger::BOMB);
        }
        let c = C::make(self.tags[i]);
        self.vids.borrow_mut().push(c.vid());
        c
    }
}

pub const N_CREATE: usize = 8;
pub const N_LOOKUP: usize = 15;
pub const N_WRITE: usize = 12;
pub const N_ITER: usize = 16;
/// create paths that do not grow
pub fn create_is_bounded(path: usize) -> bool {
    matches!(path, 4 | 5 | 7)
}
pub const BOUNDED: [usize; 3] = [4, 5, 7];
pub const UNBOUNDED: [usize; 5] = [0, 1, 2, 3, 6];
pub const LOOKUP_NAMES: [&str; N_LOOKUP] = [
    "World::contains", "Archetype::contains", "resolve+get_slice", "World::to_direct",
    "Archetype::to_direct", "Archetype::view", "World::view", "Archetype::borrow", "World::borrow",
    "ecs_find!(&)", "ecs_find!(&mut)", "ecs_find_borrow!(&)", "ecs_find_borrow!(&mut)",
    "resolve+borrow_slice", "resolve+get_all_slices_mut",
];
pub const ITER_NAMES: [&str; N_ITER] = [
    "ecs_iter!(&)", "ecs_iter!(&mut)", "ecs_iter_borrow!(&)", "ecs_iter_borrow!(&mut)",
    "Archetype::iter", "Archetype::iter_mut", "entities+get_slice", "get_all_slices_mut",
    "borrow_slice", "borrow_slice_mut", "ecs_iter_destroy!(Continue)", "get_slice_mut",
    "ecs_iter_destroy!(&mut, Continue)", "iter_mut (all at once)", "iter (all at once)", "iter_mut (next, nth, fold)",
];
pub const WRITE_NAMES: [&str; N_WRITE] = [
    "view.field", "view.component_mut", "ecs_find!", "ecs_find_borrow!", "borrow.component_mut",
    "get_slice_mut", "borrow_slice_mut", "get_all_slices_mut", "iter_mut", "ecs_iter!",
    "ecs_iter_borrow!", "ecs_iter_destroy!",
];

pub trait Driver: Sync {
    fn name(&self) -> &'static str;
    fn id(&self) -> u8;
    fn cols(&self) -> Vec<ColInfo>;
    fn len(&self, w: &W) -> usize;
    fn cap(&self, w: &W) -> usize;
    fn is_empty(&self, w: &W) -> bool;
    fn entities(&self, w: &W) -> Vec<EntityAny>;
    fn create(&self, w: &mut W, path: usize, tags: &[u64]) -> Created;
    fn destroy(&self, w: &mut W, key: Key, world_level: bool) -> Destroyed;
    fn lookup(&self, w: &mut W, key: Key, path: usize) -> Option<Row>;
    /// Writes one column of one entity; returns (old vid, new vid) when the entity was found.
    fn write(&self, w: &mut W, key: Key, target: EntityAny, path: usize, col: usize, replace: bool, tag: u64) -> Option<(u64, u64)>;
    fn iterate(&self, w: &mut W, path: usize) -> Vec<Row>;
    /// Consumes iter() and iter_mut() through the other methods of Iterator.
    fn adapters(&self, w: &mut W) -> Vec<String>;
    /// A create whose conversion panics before component `k`.
    fn create_boom(&self, w: &mut W, path: usize, tags: &[u64], k: usize);
    fn iter_break(&self, w: &mut W, path: usize, k: usize) -> usize;
    fn iter_destroy(&self, w: &mut W, f: &mut dyn FnMut(Row) -> Dec);
    fn swap(&self, w: &mut W, path: usize, col: usize, i: usize, j: usize);
    /// (slice lengths seen through every slice accessor)
    fn slice_lens(&self, w: &mut W) -> Vec<usize>;
    fn clone_arch(&self, w: &W) -> usize;
    /// Runs `f` for each entity from within an iteration closure (panics propagate).
    fn each(&self, w: &mut W, path: usize, f: &mut dyn FnMut(EntityAny));
    /// Provokes a runtime borrow conflict from within a closure (panics if there is an entity).
    fn conflict(&self, w: &mut W, path: usize);
    /// Runs `f` in the closure of a find.
    fn find_do(&self, w: &mut W, key: Key, borrow: bool, f: &mut dyn FnMut(EntityAny)) -> bool;
    #[cfg(feature = "events")]
    fn events(&self, w: &W) -> (Vec<EntityAny>, Vec<EntityAny>);
    #[cfg(feature = "events")]
    fn clear_events(&self, w: &mut W);
    #[cfg(gecs_verif)]
    fn preset(&self, w: &mut W, slot: u32, arch: u32);
}

macro_rules! with_key {
    ($A:ident, $key:expr, |$k:ident| $e:expr) => {
        match $key {
            Key::E(h) => {
                let $k = Entity::<$A>::try_from(h).expect("harness: key of another archetype");
                $e
            }
            Key::A($k) => $e,
            Key::D(h) => {
                let $k = EntityDirect::<$A>::try_from(h).expect("harness: key of another archetype");
                $e
            }
            Key::X($k) => $e,
            Key::EU(h) => {
                let $k = Entity::<$A>::from_any_unchecked(h);
                $e
            }
            Key::DU(h) => {
                let $k = EntityDirect::<$A>::from_any_unchecked(h);
                $e
            }
        }
    };
}

macro_rules! with_typed_key {
    ($A:ident, $key:expr, |$k:ident| $e:expr, $other:expr) => {
        match $key {
            Key::E(h) => {
                let $k = Entity::<$A>::try_from(h).expect("harness: key of another archetype");
                $e
            }
            Key::D(h) => {
                let $k = EntityDirect::<$A>::try_from(h).expect("harness: key of another archetype");
                $e
            }
            Key::EU(h) => {
                let $k = Entity::<$A>::from_any_unchecked(h);
                $e
            }
            Key::DU(h) => {
                let $k = EntityDirect::<$A>::from_any_unchecked(h);
                $e
            }
            _ => $other,
        }
    };
}

macro_rules! adapter_checks {
    ($errs:ident, $name:literal, $mk:expr, |$x:ident| $obs:expr) => {{
        let mut v: Vec<(EntityAny, Vec<u64>)> = Vec::new();
        let mut hints = Vec::new();
        {
            let mut it = $mk;
            hints.push(it.size_hint());
            while let Some($x) = it.next() {
                v.push($obs);
                hints.push(it.size_hint());
            }
            if it.next().is_some() {
                $errs.push(format!("{} presented an item after its end", $name));
            }
        }
        let n = v.len();
        for (i, (lo, hi)) in hints.into_iter().enumerate() {
            if lo > n - i || hi.map_or(false, |h| h < n - i) {
                $errs.push(format!("{}: size_hint ({lo}, {hi:?}) with {} items left", $name, n - i));
                break;
            }
        }
        if $mk.count() != n {
            $errs.push(format!("{}: count() is {} for {n} items", $name, $mk.count()));
        }
        if $mk.last().map(|$x| $obs).as_ref() != v.last() {
            $errs.push(format!("{}: last() of {n} items is another item", $name));
        }
        for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] {
            let mut it = $mk;
            let got = it.nth(k).map(|$x| $obs);
            if got.as_ref() != v.get(k) {
                $errs.push(format!("{}: nth({k}) of {n} items is {:?} instead of {:?}", $name, got, v.get(k)));
            }
            let rest: Vec<_> = it.map(|$x| $obs).collect();
            if rest[..] != v[n.min(k + 1)..] {
                $errs.push(format!("{}: after nth({k}) of {n} items, {} other items follow", $name, rest.len()));
            }
            let rest: Vec<_> = $mk.skip(k).map(|$x| $obs).collect();
            if rest[..] != v[n.min(k)..] {
                $errs.push(format!("{}: skip({k}) of {n} items leaves {} others", $name, rest.len()));
            }
        }
        for k in 1..4usize {
            let got: Vec<_> = $mk.step_by(k).map(|$x| $obs).collect();
            let want: Vec<_> = v.iter().step_by(k).cloned().collect();
            if got != want {
                $errs.push(format!("{}: step_by({k}) over {n} items shows {} items, {} expected", $name, got.len(), want.len()));
            }
        }
        let mut got = Vec::new();
        $mk.for_each(|$x| got.push($obs));
        if got != v {
            $errs.push(format!("{}: for_each() differs from next()", $name));
        }
    }};
}

fn wr(c: &mut dyn Cell, replace: bool, tag: u64) -> (u64, u64) {
    let old = c.vid();
    if replace {
        c.replace(tag);
    } else {
        c.set(tag);
    }
    (old, c.vid())
}

fn in_range(idx: usize, len: usize) -> bool {
    if idx >= len {
        ledger::err(format!("resolve returned index {idx} with only {len} entities"));
        return false;
    }
    true
}

trait DestroyOut<C> {
    fn read(self) -> Destroyed;
}

macro_rules! driver {
    ($D:ident, $A:ident, $arch:ident, $Comps:ident; $(($i:tt, $C:ident, $f:ident)),*) => {
        pub use self::$arch::$D;
        pub mod $arch {
        use super::*;
        pub struct $D;

        impl From<Lazy<'_>> for $Comps {
            fn from(z: Lazy<'_>) -> Self {
                $Comps { $($f: z.next::<$C>($i)),* }
            }
        }

        impl DestroyOut<$A> for Option<$Comps> {
            fn read(self) -> Destroyed {
                match self {
                    None => Destroyed::Absent,
                    Some(c) => {
                        let r = cells_row(&[$(&c.$f as &dyn Cell),*]);
                        let ok = true $(&& (c.get::<$C>() as *const $C == &c.$f as *const $C))*;
                        if !ok {
                            ledger::err("Components::get returned another field".into());
                        }
                        Destroyed::Comps(r.tags.unwrap(), r.vids)
                    }
                }
            }
        }
        impl DestroyOut<$A> for Option<()> {
            fn read(self) -> Destroyed {
                match self {
                    None => Destroyed::Absent,
                    Some(()) => Destroyed::Unit,
                }
            }
        }

        impl Driver for $D {
            fn name(&self) -> &'static str { stringify!($A) }
            fn id(&self) -> u8 { <$A as Archetype>::ARCHETYPE_ID }
            fn cols(&self) -> Vec<ColInfo> { vec![$(col_info::<$C>()),*] }
            fn len(&self, w: &W) -> usize { w.$arch.len() }
            fn cap(&self, w: &W) -> usize { w.archetype::<$A>().capacity() }
            fn is_empty(&self, w: &W) -> bool { w.$arch.is_empty() }
            fn entities(&self, w: &W) -> Vec<EntityAny> {
                w.$arch.entities().iter().map(|e| e.into_any()).collect()
            }

            fn create(&self, w: &mut W, path: usize, tags: &[u64]) -> Created {
                if path >= 6 {
                    let given = RefCell::new(Vec::new());
                    let z = Lazy { tags, vids: &given, fail: None };
                    let r = if path == 6 { Ok(w.create::<$A>(z)) } else { w.$arch.create_within_capacity(z) };
                    let given = given.into_inner();
                    if given.len() != [$($i),*].len() {
                        ledger::err(format!("one create made {} components of {}", given.len(), [$($i),*].len()));
                    }
                    return match r {
                        Ok(e) => Created::Ok(e.into_any(), given),
                        Err(c) => {
                            let r = cells_row(&[$(&c.$f as &dyn Cell),*]);
                            Created::Full(r.tags.unwrap(), r.vids, given)
                        }
                    };
                }
                let c = $Comps { $($f: <$C as Comp>::make(tags[$i])),* };
                let vids = vec![$(Comp::vid(&c.$f)),*];
                let r = match path {
                    0 => { let t: ($($C,)*) = c.into_tuple(); Ok(w.create::<$A>(t)) }
                    1 => Ok(w.create::<$A>(c)),
                    2 => { let t: ($($C,)*) = c.into(); Ok(w.$arch.create(t)) }
                    3 => Ok(w.archetype_mut::<$A>().create(c)),
                    4 => w.create_within_capacity::<$A>(c),
                    _ => { let t: ($($C,)*) = c.into(); w.$arch.create_within_capacity(t) }
                };
                match r {
                    Ok(e) => Created::Ok(e.into_any(), vids),
                    Err(c) => {
                        let r = cells_row(&[$(&c.$f as &dyn Cell),*]);
                        Created::Full(r.tags.unwrap(), r.vids, vids)
                    }
                }
            }

            fn create_boom(&self, w: &mut W, path: usize, tags: &[u64], k: usize) {
                let given = RefCell::new(Vec::new());
                let z = Lazy { tags, vids: &given, fail: Some(k) };
                match path {
                    0 => { w.create::<$A>(z); }
                    1 => { w.$arch.create(z); }
                    2 => { let _ = w.create_within_capacity::<$A>(z); }
                    _ => { let _ = w.$arch.create_within_capacity(z); }
                }
            }

            fn destroy(&self, w: &mut W, key: Key, world_level: bool) -> Destroyed {
                if world_level {
                    with_key!($A, key, |k| DestroyOut::<$A>::read(w.destroy(k)))
                } else {
                    with_key!($A, key, |k| DestroyOut::<$A>::read(w.$arch.destroy(k)))
                }
            }

            fn lookup(&self, w: &mut W, key: Key, path: usize) -> Option<Row> {
                match path {
                    0 => with_key!($A, key, |k| w.contains(k)).then(Row::default),
                    1 => with_key!($A, key, |k| w.$arch.contains(k)).then(Row::default),
                    2 => {
                        let idx = with_key!($A, key, |k| w.$arch.resolve(k))?;
                        let len = w.$arch.len();
                        if !in_range(idx, len) { return Some(Row::default()); }
                        let h = w.$arch.entities()[idx].into_any();
                        let mut r = Row { idx: Some(idx), h: Some(h), tags: Some(vec![]), ..Row::default() };
                        $({
                            let c = &w.$arch.get_slice::<$C>()[idx];
                            r.tags.as_mut().unwrap().push(Comp::tag(c));
                            r.vids.push(Comp::vid(c));
                        })*
                        Some(r)
                    }
                    3 => with_key!($A, key, |k| w.to_direct(k).map(|d| Row { d: Some(d.into()), ..Row::default() })),
                    4 => with_key!($A, key, |k| w.$arch.to_direct(k).map(|d| Row { d: Some(d.into()), ..Row::default() })),
                    5 => with_key!($A, key, |k| w.$arch.view(k).map(|v| {
                        let mut r = cells_row(&[$(&*v.$f as &dyn Cell),*]);
                        r.h = Some(v.entity.into_any());
                        r.idx = Some(v.index());
                        r
                    })),
                    6 => {
                        fn rd(v: <$A as Archetype>::View<'_>) -> Row {
                            let mut r = cells_row(&[$(v.component::<$C>() as &dyn Cell),*]);
                            r.h = Some(v.entity.into_any());
                            r.idx = Some(v.index());
                            r
                        }
                        with_typed_key!($A, key, |k| w.view::<$A, _>(k).map(rd),
                            with_key!($A, key, |k| w.$arch.view(k).map(rd)))
                    }
                    7 => with_key!($A, key, |k| w.$arch.borrow(k).map(|b| {
                        let mut r = cells_row(&[$(&*b.component::<$C>() as &dyn Cell),*]);
                        r.h = Some(b.entity().into_any());
                        r.idx = Some(b.index());
                        r
                    })),
                    8 => {
                        fn rd(b: <$A as Archetype>::Borrow<'_>) -> Row {
                            let mut r = cells_row(&[$(&*b.component_mut::<$C>() as &dyn Cell),*]);
                            r.h = Some(b.entity().into_any());
                            r.idx = Some(b.index());
                            r
                        }
                        with_typed_key!($A, key, |k| w.borrow::<$A, _>(k).map(rd),
                            with_key!($A, key, |k| w.$arch.borrow(k).map(rd)))
                    }
                    9 => with_key!($A, key, |k| ecs_find!(w, k, |e: &Entity<$A>, ew: &Entity<_>, ea: &EntityAny,
                            d: &EntityDirect<$A>, dw: &EntityDirect<_>, da: &EntityDirectAny, $($f: &$C),*| {
                        full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*])
                    })),
                    10 => with_key!($A, key, |k| ecs_find!(w, k, |$($f: &mut $C,)* da: &EntityDirectAny, dw: &EntityDirect<_>,
                            d: &EntityDirect<$A>, ea: &EntityAny, ew: &Entity<_>, e: &Entity<$A>| {
                        full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*])
                    })),
                    11 => with_key!($A, key, |k| ecs_find_borrow!(w, k, |e: &Entity<$A>, ew: &Entity<_>, ea: &EntityAny,
                            d: &EntityDirect<$A>, dw: &EntityDirect<_>, da: &EntityDirectAny, $($f: &$C),*| {
                        full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*])
                    })),
                    12 => with_key!($A, key, |k| ecs_find_borrow!(w, k, |$($f: &mut $C,)* da: &EntityDirectAny, dw: &EntityDirect<_>,
                            d: &EntityDirect<$A>, ea: &EntityAny, ew: &Entity<_>, e: &Entity<$A>| {
                        full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*])
                    })),
                    13 => {
                        let idx = with_key!($A, key, |k| w.$arch.resolve(k))?;
                        if !in_range(idx, w.$arch.len()) { return Some(Row::default()); }
                        let h = w.$arch.entities()[idx].into_any();
                        let mut r = cells_row(&[$(&w.$arch.borrow_slice::<$C>()[idx] as &dyn Cell),*]);
                        r.h = Some(h);
                        r.idx = Some(idx);
                        Some(r)
                    }
                    _ => {
                        let idx = with_key!($A, key, |k| w.$arch.resolve(k))?;
                        if !in_range(idx, w.$arch.len()) { return Some(Row::default()); }
                        let s = w.$arch.get_all_slices_mut();
                        let mut r = cells_row(&[$(&s.$f[idx] as &dyn Cell),*]);
                        r.h = Some(s.entity[idx].into_any());
                        r.idx = Some(idx);
                        Some(r)
                    }
                }
            }

            fn write(&self, w: &mut W, key: Key, target: EntityAny, path: usize, col: usize, replace: bool, tag: u64) -> Option<(u64, u64)> {
                match path {
                    0 => with_key!($A, key, |k| w.$arch.view(k).map(|v| {
                        let cells: [&mut dyn Cell; [$($i),*].len()] = [$(v.$f),*];
                        let mut cells = cells;
                        wr(cells[col], replace, tag)
                    })),
                    1 => with_key!($A, key, |k| w.$arch.view(k).map(|mut v| match col {
                        $($i => wr(v.component_mut::<$C>(), replace, tag),)*
                        _ => unreachable!(),
                    })),
                    2 => with_key!($A, key, |k| ecs_find!(w, k, |_: &Entity<$A>, $($f: &mut $C),*| {
                        match col { $($i => wr($f, replace, tag),)* _ => unreachable!() }
                    })),
                    3 => with_key!($A, key, |k| ecs_find_borrow!(w, k, |_: &Entity<$A>, $($f: &mut $C),*| {
                        match col { $($i => wr($f, replace, tag),)* _ => unreachable!() }
                    })),
                    4 => with_key!($A, key, |k| w.$arch.borrow(k).map(|b| match col {
                        $($i => wr(&mut *b.component_mut::<$C>(), replace, tag),)*
                        _ => unreachable!(),
                    })),
                    5 => {
                        let idx = with_key!($A, key, |k| w.$arch.resolve(k))?;
                        if !in_range(idx, w.$arch.len()) { return None; }
                        Some(match col {
                            $($i => wr(&mut w.$arch.get_slice_mut::<$C>()[idx], replace, tag),)*
                            _ => unreachable!(),
                        })
                    }
                    6 => {
                        let idx = with_key!($A, key, |k| w.$arch.resolve(k))?;
                        if !in_range(idx, w.$arch.len()) { return None; }
                        Some(match col {
                            $($i => wr(&mut w.$arch.borrow_slice_mut::<$C>()[idx], replace, tag),)*
                            _ => unreachable!(),
                        })
                    }
                    7 => {
                        let idx = with_key!($A, key, |k| w.$arch.resolve(k))?;
                        if !in_range(idx, w.$arch.len()) { return None; }
                        let s = w.$arch.get_all_slices_mut();
                        Some(match col { $($i => wr(&mut s.$f[idx], replace, tag),)* _ => unreachable!() })
                    }
                    8 => {
                        let mut r = None;
                        for (e, $($f),*) in w.$arch.iter_mut() {
                            if e.into_any() == target {
                                r = Some(match col { $($i => wr($f, replace, tag),)* _ => unreachable!() });
                            }
                        }
                        r
                    }
                    9 => {
                        let mut r = None;
                        ecs_iter!(w, |e: &Entity<$A>, $($f: &mut $C),*| {
                            if e.into_any() == target {
                                r = Some(match col { $($i => wr($f, replace, tag),)* _ => unreachable!() });
                            }
                        });
                        r
                    }
                    10 => {
                        let mut r = None;
                        ecs_iter_borrow!(w, |e: &Entity<$A>, $($f: &mut $C),*| {
                            if e.into_any() == target {
                                r = Some(match col { $($i => wr($f, replace, tag),)* _ => unreachable!() });
                            }
                        });
                        r
                    }
                    _ => {
                        let mut r = None;
                        ecs_iter_destroy!(w, |e: &Entity<$A>, $($f: &mut $C),*| {
                            if e.into_any() == target {
                                r = Some(match col { $($i => wr($f, replace, tag),)* _ => unreachable!() });
                            }
                        });
                        r
                    }
                }
            }

            fn iterate(&self, w: &mut W, path: usize) -> Vec<Row> {
                let mut out = Vec::new();
                match path {
                    0 => ecs_iter!(w, |e: &Entity<$A>, ew: &Entity<_>, ea: &EntityAny,
                            d: &EntityDirect<$A>, dw: &EntityDirect<_>, da: &EntityDirectAny, $($f: &$C),*| {
                        out.push(full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*]));
                    }),
                    1 => ecs_iter!(w, |$($f: &mut $C,)* da: &EntityDirectAny, dw: &EntityDirect<_>,
                            d: &EntityDirect<$A>, ea: &EntityAny, ew: &Entity<_>, e: &Entity<$A>| {
                        out.push(full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*]));
                    }),
                    2 => ecs_iter_borrow!(w, |e: &Entity<$A>, ew: &Entity<_>, ea: &EntityAny,
                            d: &EntityDirect<$A>, dw: &EntityDirect<_>, da: &EntityDirectAny, $($f: &$C),*| {
                        out.push(full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*]));
                    }),
                    3 => ecs_iter_borrow!(w, |$($f: &mut $C,)* da: &EntityDirectAny, dw: &EntityDirect<_>,
                            d: &EntityDirect<$A>, ea: &EntityAny, ew: &Entity<_>, e: &Entity<$A>| {
                        out.push(full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*]));
                    }),
                    4 => for (e, $($f),*) in w.$arch.iter() {
                        let mut r = cells_row(&[$(&*$f as &dyn Cell),*]);
                        r.h = Some(e.into_any());
                        out.push(r);
                    },
                    5 => for (e, $($f),*) in w.$arch.iter_mut() {
                        let mut r = cells_row(&[$(&*$f as &dyn Cell),*]);
                        r.h = Some(e.into_any());
                        out.push(r);
                    },
                    6 | 11 => {
                        for (i, e) in w.$arch.entities().iter().enumerate() {
                            out.push(Row { h: Some(e.into_any()), idx: Some(i), tags: Some(vec![]), ..Row::default() });
                        }
                        $({
                            let s: &[$C] = if path == 6 { w.$arch.get_slice::<$C>() } else { &*w.$arch.get_slice_mut::<$C>() };
                            if s.len() != out.len() {
                                ledger::err(format!("slice of {} entities next to {} handles", s.len(), out.len()));
                            }
                            for (r, c) in out.iter_mut().zip(s) {
                                r.tags.as_mut().unwrap().push(Comp::tag(c));
                                r.vids.push(Comp::vid(c));
                            }
                        })*
                    }
                    7 => {
                        let s = w.$arch.get_all_slices_mut();
                        for i in 0..s.entity.len() {
                            let mut r = cells_row(&[$(&s.$f[i] as &dyn Cell),*]);
                            r.h = Some(s.entity[i].into_any());
                            r.idx = Some(i);
                            out.push(r);
                        }
                    }
                    8 => {
                        let e = w.$arch.entities();
                        $(let $f = w.$arch.borrow_slice::<$C>();)*
                        for i in 0..e.len() {
                            let mut r = cells_row(&[$(&$f[i] as &dyn Cell),*]);
                            r.h = Some(e[i].into_any());
                            r.idx = Some(i);
                            out.push(r);
                        }
                    }
                    9 => {
                        let e = w.$arch.entities();
                        $(let $f = w.$arch.borrow_slice_mut::<$C>();)*
                        for i in 0..e.len() {
                            let mut r = cells_row(&[$(&$f[i] as &dyn Cell),*]);
                            r.h = Some(e[i].into_any());
                            r.idx = Some(i);
                            out.push(r);
                        }
                    }
                    10 => ecs_iter_destroy!(w, |e: &Entity<$A>, ew: &Entity<_>, ea: &EntityAny,
                            d: &EntityDirect<$A>, dw: &EntityDirect<_>, da: &EntityDirectAny, $($f: &$C),*| {
                        out.push(full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*]));
                    }),
                    13 => {
                        let held: Vec<_> = w.$arch.iter_mut().collect();
                        for (e, $($f),*) in held {
                            let mut r = cells_row(&[$(&*$f as &dyn Cell),*]);
                            r.h = Some(e.into_any());
                            // write through every reference while the others are held
                            $(let t = Comp::tag(&*$f); Comp::set($f, t);)*
                            out.push(r);
                        }
                    }
                    14 => {
                        let held: Vec<_> = w.$arch.iter().collect();
                        for (e, $($f),*) in held {
                            let mut r = cells_row(&[$(&*$f as &dyn Cell),*]);
                            r.h = Some(e.into_any());
                            out.push(r);
                        }
                    }
                    15 => {
                        let mut it = w.$arch.iter_mut();
                        let mut held = Vec::new();
                        if let Some(x) = it.next() { held.push(x); }
                        if let Some(x) = it.nth(0) { held.push(x); }
                        held.extend(it.by_ref().take(2));
                        held = it.fold(held, |mut held, x| { held.push(x); held });
                        for (e, $($f),*) in held {
                            let mut r = cells_row(&[$(&*$f as &dyn Cell),*]);
                            r.h = Some(e.into_any());
                            out.push(r);
                        }
                    }
                    _ => ecs_iter_destroy!(w, |$($f: &mut $C,)* da: &EntityDirectAny, dw: &EntityDirect<_>,
                            d: &EntityDirect<$A>, ea: &EntityAny, ew: &Entity<_>, e: &Entity<$A>| {
                        out.push(full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                            MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*]));
                        EcsStep::Continue
                    }),
                }
                out
            }

            fn adapters(&self, w: &mut W) -> Vec<String> {
                let mut errs = Vec::new();
                adapter_checks!(errs, "iter()", w.$arch.iter(), |x| { let (e, $($f),*) = x; (e.into_any(), vec![$(Comp::tag(&*$f)),*]) });
                adapter_checks!(errs, "iter_mut()", w.$arch.iter_mut(), |x| { let (e, $($f),*) = x; (e.into_any(), vec![$(Comp::tag(&*$f)),*]) });
                errs
            }

            fn iter_break(&self, w: &mut W, path: usize, k: usize) -> usize {
                let mut n = 0;
                macro_rules! step {
                    () => {{
                        n += 1;
                        if n == k { EcsStep::Break } else { EcsStep::Continue }
                    }};
                }
                match path {
                    0 => ecs_iter!(w, |_: &Entity<$A>| step!()),
                    1 => ecs_iter!(w, |_: &Entity<$A>, $($f: &mut $C),*| { $(let _ = &*$f;)* step!() }),
                    2 => ecs_iter_borrow!(w, |_: &Entity<$A>| step!()),
                    3 => ecs_iter_borrow!(w, |_: &Entity<$A>, $($f: &mut $C),*| { $(let _ = &*$f;)* step!() }),
                    _ => ecs_iter_destroy!(w, |_: &Entity<$A>| step!()),
                }
                n
            }

            fn iter_destroy(&self, w: &mut W, f: &mut dyn FnMut(Row) -> Dec) {
                ecs_iter_destroy!(w, |e: &Entity<$A>, ew: &Entity<_>, ea: &EntityAny,
                        d: &EntityDirect<$A>, dw: &EntityDirect<_>, da: &EntityDirectAny, $($f: &mut $C),*| {
                    f(full_row([e.into_any(), ew.into_any(), *ea], [d.into_any(), dw.into_any(), *da],
                        MatchedArchetype::ARCHETYPE_ID, &[$(&*$f as &dyn Cell),*]))
                });
            }

            fn swap(&self, w: &mut W, path: usize, col: usize, i: usize, j: usize) {
                match col {
                    $($i => match path {
                        0 => w.$arch.get_slice_mut::<$C>().swap(i, j),
                        1 => w.$arch.borrow_slice_mut::<$C>().swap(i, j),
                        _ => w.$arch.get_all_slices_mut().$f.swap(i, j),
                    },)*
                    _ => unreachable!(),
                }
            }

            fn slice_lens(&self, w: &mut W) -> Vec<usize> {
                let mut v = vec![w.$arch.entities().len()];
                $(
                    v.push(w.$arch.get_slice::<$C>().len());
                    v.push(w.$arch.get_slice_mut::<$C>().len());
                    v.push(w.$arch.borrow_slice::<$C>().len());
                    v.push(w.$arch.borrow_slice_mut::<$C>().len());
                )*
                let s = w.$arch.get_all_slices_mut();
                v.push(s.entity.len());
                $(v.push(s.$f.len());)*
                v.push(w.$arch.iter().count());
                v.push(w.$arch.iter_mut().count());
                v
            }

            fn clone_arch(&self, w: &W) -> usize {
                let c: $A = w.$arch.clone();
                c.len()
            }

            fn each(&self, w: &mut W, path: usize, f: &mut dyn FnMut(EntityAny)) {
                match path {
                    0 => ecs_iter!(w, |e: &EntityAny, _: &Entity<$A>, $($f: &mut $C),*| { $(let _ = &*$f;)* f(*e) }),
                    1 => ecs_iter_borrow!(w, |e: &EntityAny, _: &Entity<$A>, $($f: &mut $C),*| { $(let _ = &*$f;)* f(*e) }),
                    2 => ecs_iter_borrow!(w, |e: &EntityAny, _: &Entity<$A>, $($f: &$C),*| { $(let _ = &*$f;)* f(*e) }),
                    _ => for (e, $($f),*) in w.$arch.iter_mut() { $(let _ = &*$f;)* f(e.into_any()) },
                }
            }

            fn conflict(&self, w: &mut W, path: usize) {
                let w = &*w;
                match path {
                    0 => ecs_iter_borrow!(w, |_: &Entity<$A>, $($f: &mut $C),*| {
                        $(let _ = &*$f;)*
                        ecs_iter_borrow!(w, |_: &Entity<$A>, $($f: &$C),*| { $(let _ = $f;)* })
                    }),
                    1 => ecs_iter_borrow!(w, |_: &Entity<$A>, $($f: &mut $C),*| { $(let _ = &*$f;)* let _ = w.clone(); }),
                    2 => ecs_iter_borrow!(w, |_: &Entity<$A>, $($f: &$C),*| {
                        $(let _ = $f;)*
                        $(let _ = w.$arch.borrow_slice_mut::<$C>();)*
                    }),
                    3 => ecs_iter_borrow!(w, |e: &Entity<$A>, $($f: &$C),*| {
                        $(let _ = $f;)*
                        ecs_find_borrow!(w, *e, |$($f: &mut $C),*| { $(let _ = &*$f;)* });
                    }),
                    _ => {
                        let mut held = Vec::new();
                        for e in w.$arch.entities() {
                            held.push(w.$arch.borrow(*e).unwrap());
                        }
                        let guards: Vec<_> = held.iter().map(|b| ($(b.component_mut::<$C>(),)*)).collect();
                        if guards.len() == 1 {
                            let _ = w.$arch.clone();
                        }
                    }
                }
            }

            fn find_do(&self, w: &mut W, key: Key, borrow: bool, f: &mut dyn FnMut(EntityAny)) -> bool {
                if borrow {
                    with_key!($A, key, |k| ecs_find_borrow!(w, k, |e: &EntityAny, _: &Entity<$A>, $($f: &mut $C),*| { $(let _ = &*$f;)* f(*e) }).is_some())
                } else {
                    with_key!($A, key, |k| ecs_find!(w, k, |e: &EntityAny, _: &Entity<$A>, $($f: &mut $C),*| { $(let _ = &*$f;)* f(*e) }).is_some())
                }
            }

            #[cfg(feature = "events")]
            fn events(&self, w: &W) -> (Vec<EntityAny>, Vec<EntityAny>) {
                (w.$arch.iter_created().map(|e| e.into_any()).collect(),
                 w.$arch.iter_destroyed().map(|e| e.into_any()).collect())
            }
            #[cfg(feature = "events")]
            fn clear_events(&self, w: &mut W) { w.$arch.clear_events() }

            #[cfg(gecs_verif)]
            fn preset(&self, w: &mut W, slot: u32, arch: u32) {
                w.$arch.data.verif_preset_versions(slot.try_into().unwrap(), arch.try_into().unwrap())
            }

        }
        }
    };
}

driver!(DOne, ArchOne, arch_one, ArchOneComponents; (0, Trk, trk));
driver!(DZed, ArchZed, arch_zed, ArchZedComponents; (0, Zd, zd));
driver!(DTri, ArchTri, arch_tri, ArchTriComponents; (0, Id, id), (1, Trk, trk), (2, Byte, byte));
driver!(DMix, ArchMix, arch_mix, ArchMixComponents; (0, Al, al), (1, Id, id), (2, Txt, txt), (3, Inl, inl), (4, Zd, zd));
driver!(DPod, ArchPod, arch_pod, ArchPodComponents; (0, Id, id), (1, Byte, byte), (2, Half, half), (3, Word, word), (4, Big, big),
    (5, Odd, odd), (6, Nd, nd), (7, Za, za));
driver!(DTwin, ArchTwin, arch_twin, ArchTwinComponents; (0, Trk, trk), (1, Inl, inl));
driver!(DWide, ArchWide, arch_wide, ArchWideComponents; (0, Id, id), (1, Trk, trk), (2, Qa, qa), (3, Qb, qb), (4, Qc, qc),
    (5, Qd, qd), (6, Qe, qe), (7, Qf, qf), (8, Qg, qg), (9, Qh, qh), (10, Qi, qi), (11, Qj, qj), (12, Byte, byte),
    (13, Inl, inl), (14, Word, word), (15, Zd, zd));
driver!(DLast, ArchLast, arch_last, ArchLastComponents; (0, Qb, qb), (1, Id, id));
#[cfg(feature = "32_components")]
driver!(DMax, ArchMax, arch_max, ArchMaxComponents; (0, Id, id), (1, Trk, trk), (2, Byte, byte), (3, Tc, tc), (4, Word, word),
    (5, Big, big), (6, Al, al), (7, Qa, qa), (8, Qb, qb), (9, Qc, qc), (10, Qd, qd), (11, Qe, qe), (12, Qf, qf),
    (13, Qg, qg), (14, Qh, qh), (15, Qi, qi), (16, Qj, qj), (17, Ra, ra), (18, Rb, rb), (19, Rc, rc), (20, Rd, rd),
    (21, Re, re), (22, Rf, rf), (23, Rg, rg), (24, Rh, rh), (25, Ri, ri), (26, Rj, rj), (27, Ta, ta), (28, Tb, tb),
    (29, Txt, txt), (30, Inl, inl), (31, Zd, zd));
#[cfg(feature = "32_components")]
driver!(DSev, ArchSev, arch_sev, ArchSevComponents; (0, Qa, qa), (1, Qb, qb), (2, Qc, qc), (3, Qd, qd), (4, Qe, qe),
    (5, Qf, qf), (6, Qg, qg), (7, Qh, qh), (8, Qi, qi), (9, Qj, qj), (10, Ra, ra), (11, Rb, rb), (12, Rc, rc),
    (13, Rd, rd), (14, Re, re), (15, Rf, rf), (16, Id, id));

pub static DRIVERS: &[&dyn Driver] = &[
    &DOne, &DZed, &DTri, &DMix, &DPod, &DTwin, &DWide, &DLast,
    #[cfg(feature = "32_components")]
    &DMax,
    #[cfg(feature = "32_components")]
    &DSev,
];

pub fn caps(n: &[usize]) -> Caps {
    let g = |i: usize| n.get(i).copied().unwrap_or(0);
    MainWorldCapacity {
        arch_one: g(0),
        arch_zed: g(1),
        arch_tri: g(2),
        arch_mix: g(3),
        arch_pod: g(4),
        arch_twin: g(5),
        arch_wide: g(6),
        arch_last: g(7),
        #[cfg(feature = "32_components")]
        arch_max: g(8),
        #[cfg(feature = "32_components")]
        arch_sev: g(9),
    }
}

// ---- queries over several archetypes ----------------------------------------------------------

#[derive(Clone, Debug)]
pub struct GRow {
    pub mid: u8,
    pub h: EntityAny,
    pub d: EntityDirectAny,
    pub tag: Option<u64>,
}

pub const N_GITER: usize = 5;

pub trait Global: Sync {
    fn name(&self) -> &'static str;
    /// (archetype id, column carrying the observed value or None)
    fn matched(&self) -> Vec<(u8, Option<usize>)>;
    fn iterate(&self, w: &mut W, path: usize, brk: usize) -> Vec<GRow>;
    fn iter_destroy(&self, w: &mut W, f: &mut dyn FnMut(GRow) -> Dec);
    fn each(&self, w: &mut W, path: usize, f: &mut dyn FnMut(EntityAny));
    fn find(&self, w: &mut W, key: Key, borrow: bool, calls: &mut usize) -> Option<GRow>;
}

macro_rules! any_key {
    ($key:expr, |$k:ident| $e:expr) => {
        match $key {
            Key::E($k) | Key::A($k) | Key::EU($k) => $e,
            Key::D($k) | Key::X($k) | Key::DU($k) => $e,
        }
    };
}

macro_rules! global {
    ($G:ident, $name:expr, [$($m:tt)*], |$v:ident $(: & ($($ty:tt)*))?|, $read:expr) => {
        pub struct $G;
        impl Global for $G {
            fn name(&self) -> &'static str { $name }
            fn matched(&self) -> Vec<(u8, Option<usize>)> { vec![$($m)*] }
            fn iterate(&self, w: &mut W, path: usize, brk: usize) -> Vec<GRow> {
                let mut out: Vec<GRow> = Vec::new();
                match path {
                    0 => ecs_iter!(w, |h: &EntityAny, d: &EntityDirectAny $(, $v: &$($ty)*)?| {
                        out.push(GRow { mid: MatchedArchetype::ARCHETYPE_ID, h: *h, d: *d, tag: $read });
                        if out.len() == brk { EcsStep::Break } else { EcsStep::Continue }
                    }),
                    1 => ecs_iter!(w, |h: &Entity<_>, d: &EntityDirect<_> $(, $v: &mut $($ty)*)?| {
                        out.push(GRow { mid: MatchedArchetype::ARCHETYPE_ID, h: h.into_any(), d: d.into_any(), tag: $read });
                        if out.len() == brk { EcsStep::Break } else { EcsStep::Continue }
                    }),
                    2 => ecs_iter_borrow!(w, |h: &EntityAny, d: &EntityDirectAny $(, $v: &$($ty)*)?| {
                        out.push(GRow { mid: MatchedArchetype::ARCHETYPE_ID, h: *h, d: *d, tag: $read });
                        if out.len() == brk { EcsStep::Break } else { EcsStep::Continue }
                    }),
                    3 => ecs_iter_borrow!(w, |h: &Entity<_>, d: &EntityDirect<_> $(, $v: &mut $($ty)*)?| {
                        out.push(GRow { mid: MatchedArchetype::ARCHETYPE_ID, h: h.into_any(), d: d.into_any(), tag: $read });
                        if out.len() == brk { EcsStep::Break } else { EcsStep::Continue }
                    }),
                    _ => ecs_iter_destroy!(w, |h: &EntityAny, d: &EntityDirectAny $(, $v: &$($ty)*)?| {
                        out.push(GRow { mid: MatchedArchetype::ARCHETYPE_ID, h: *h, d: *d, tag: $read });
                        if out.len() == brk { EcsStep::Break } else { EcsStep::Continue }
                    }),
                }
                out
            }
            fn iter_destroy(&self, w: &mut W, f: &mut dyn FnMut(GRow) -> Dec) {
                ecs_iter_destroy!(w, |h: &EntityAny, d: &EntityDirectAny $(, $v: &mut $($ty)*)?| {
                    f(GRow { mid: MatchedArchetype::ARCHETYPE_ID, h: *h, d: *d, tag: $read })
                });
            }
            fn each(&self, w: &mut W, path: usize, f: &mut dyn FnMut(EntityAny)) {
                match path {
                    0 => ecs_iter!(w, |h: &EntityAny $(, $v: &mut $($ty)*)?| f(*h)),
                    1 => ecs_iter_borrow!(w, |h: &EntityAny $(, $v: &mut $($ty)*)?| f(*h)),
                    _ => ecs_iter_destroy!(w, |h: &EntityAny $(, $v: &mut $($ty)*)?| f(*h)),
                }
            }
            fn find(&self, w: &mut W, key: Key, borrow: bool, calls: &mut usize) -> Option<GRow> {
                if borrow {
                    any_key!(key, |k| ecs_find_borrow!(w, k, |h: &EntityAny, d: &EntityDirectAny $(, $v: &$($ty)*)?| {
                        *calls += 1;
                        GRow { mid: MatchedArchetype::ARCHETYPE_ID, h: *h, d: *d, tag: $read }
                    }))
                } else {
                    any_key!(key, |k| ecs_find!(w, k, |h: &Entity<_>, d: &EntityDirect<_> $(, $v: &mut $($ty)*)?| -> GRow {
                        *calls += 1;
                        GRow { mid: MatchedArchetype::ARCHETYPE_ID, h: h.into_any(), d: d.into_any(), tag: $read }
                    }))
                }
            }
        }
    };
}

const fn idof<A: Archetype>() -> u8 {
    A::ARCHETYPE_ID
}

global!(GAll, "every archetype", [
    (idof::<ArchOne>(), None), (idof::<ArchZed>(), None), (idof::<ArchTri>(), None), (idof::<ArchMix>(), None),
    (idof::<ArchPod>(), None), (idof::<ArchTwin>(), None), (idof::<ArchWide>(), None), (idof::<ArchLast>(), None),
    #[cfg(feature = "32_components")] (idof::<ArchMax>(), None),
    #[cfg(feature = "32_components")] (idof::<ArchSev>(), None),
], |v|, None);
global!(GId, "Id", [
    (idof::<ArchTri>(), Some(0)), (idof::<ArchMix>(), Some(1)), (idof::<ArchPod>(), Some(0)),
    (idof::<ArchWide>(), Some(0)), (idof::<ArchLast>(), Some(1)),
    #[cfg(feature = "32_components")] (idof::<ArchMax>(), Some(0)),
    #[cfg(feature = "32_components")] (idof::<ArchSev>(), Some(16)),
], |v: &(Id)|, Some(Comp::tag(&*v)));
global!(GTrk, "Trk", [
    (idof::<ArchOne>(), Some(0)), (idof::<ArchTri>(), Some(1)), (idof::<ArchTwin>(), Some(0)), (idof::<ArchWide>(), Some(1)),
    #[cfg(feature = "32_components")] (idof::<ArchMax>(), Some(1)),
], |v: &(Trk)|, Some(Comp::tag(&*v)));
global!(GOne, "OneOf<Inl, Half>", [
    (idof::<ArchMix>(), Some(3)), (idof::<ArchPod>(), Some(2)), (idof::<ArchTwin>(), Some(1)), (idof::<ArchWide>(), Some(13)),
    #[cfg(feature = "32_components")] (idof::<ArchMax>(), Some(30)),
], |v: &(OneOf<Inl, Half>)|, Some(Comp::tag(&*v)));
global!(GZst, "Zd", [
    (idof::<ArchZed>(), Some(0)), (idof::<ArchMix>(), Some(4)), (idof::<ArchWide>(), Some(15)),
    #[cfg(feature = "32_components")] (idof::<ArchMax>(), Some(31)),
], |v: &(Zd)|, Some(Comp::tag(&*v)));

pub static GLOBALS: &[&dyn Global] = &[&GAll, &GId, &GTrk, &GOne, &GZst];

#[cfg(feature = "events")]
pub fn world_events(w: &W) -> (Vec<EntityAny>, Vec<EntityAny>, Vec<String>) {
    let mut errs = Vec::new();
    fn drain<'a>(name: &str, mut it: impl Iterator<Item = &'a EntityAny>, errs: &mut Vec<String>) -> Vec<EntityAny> {
        let mut out = Vec::new();
        let mut hints = vec![it.size_hint()];
        while let Some(e) = it.next() {
            out.push(*e);
            hints.push(it.size_hint());
        }
        for (i, h) in hints.iter().enumerate() {
            let left = out.len() - i;
            if *h != (left, Some(left)) {
                errs.push(format!("{name}: size_hint {h:?} after {i} items with {left} left"));
                break;
            }
        }
        if it.next().is_some() {
            errs.push(format!("{name}: item after the end"));
        }
        out
    }
    let c = drain("iter_created", w.iter_created(), &mut errs);
    let d = drain("iter_destroyed", w.iter_destroyed(), &mut errs);
    // the other ways of consuming the same iterators
    fn others<'a, I: Iterator<Item = &'a EntityAny>>(name: &str, mk: impl Fn() -> I, v: &[EntityAny], errs: &mut Vec<String>) {
        if mk().copied().collect::<Vec<_>>() != v {
            errs.push(format!("{name}: collect() differs from next()"));
        }
        if mk().count() != v.len() || mk().last().copied() != v.last().copied() {
            errs.push(format!("{name}: count() or last() differs from next()"));
        }
        let mut k = 0;
        mk().for_each(|e| k += (v.get(k) == Some(e)) as usize);
        if k != v.len() {
            errs.push(format!("{name}: for_each() differs from next()"));
        }
        for n in [0, 1, v.len() / 2, v.len().saturating_sub(1), v.len(), v.len() + 1] {
            let mut it = mk();
            if it.nth(n).copied() != v.get(n).copied() {
                errs.push(format!("{name}: nth({n}) of {} differs from next()", v.len()));
            }
            let left = v.len().saturating_sub(n + 1);
            if it.size_hint() != (left, Some(left)) {
                errs.push(format!("{name}: size_hint {:?} after nth({n}) of {}", it.size_hint(), v.len()));
            }
        }
    }
    others("iter_created", || w.iter_created(), &c, &mut errs);
    others("iter_destroyed", || w.iter_destroyed(), &d, &mut errs);
    (c, d, errs)
}

/// Whether ecs_iter_destroy! destroys a flagged entity before it visits the next one. The property
/// leaves that open; the direct handles of a loop that destroys later are all stale afterwards.
pub fn destroys_at_once() -> bool {
    static R: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *R.get_or_init(|| {
        let r = std::panic::catch_unwind(|| {
            let mut world = W::default();
            for _ in 0..3 {
                world.create::<ArchTwin>((Trk::make(1), Inl::make(2)));
            }
            let mut prev = None;
            let mut at_once = true;
            ecs_iter_destroy!(world, |t: &Trk| {
                at_once &= prev.map_or(true, |p| !ledger::is_alive(p));
                prev = Some(Comp::vid(t));
                EcsStepDestroy::ContinueDestroy
            });
            at_once
        });
        r.unwrap_or(true)
    })
}
