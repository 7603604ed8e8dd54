//! Scenarios on a world of tiny components: exhaustive short histories, the 2^24 limit, position
//! reuse up to the counter boundary, allocation accounting.
use crate::ctx::{guard, Ctx};
use crate::rng::{mix, Rng};
use gecs::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;

// ---- counting allocator ---------------------------------------------------------------------------

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
fn bump() {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;
fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}

// ---- the world ----------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Sb(pub u8);
#[derive(Clone, Debug, PartialEq)]
pub struct Sz;
#[derive(Clone, Debug, PartialEq)]
pub struct Sw(pub u32);

ecs_world! {
    ecs_name!(SmallWorld);
    ecs_archetype!(SmallA, Sb);
    #[archetype_id(9)]
    ecs_archetype!(SmallZ, Sz);
    #[archetype_id(255)]
    ecs_archetype!(SmallW, Sw, Sb);
}

const LIMIT: usize = 1 << 24;

// ---- exhaustive short histories ---------------------------------------------------------------------

/// One step of an exhaustively enumerated history.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Create,
    CreateWithin,
    Destroy(usize), // i-th live entity in creation order
    Loop(u8),       // ecs_iter_destroy! with a decision mask
}

struct Tiny {
    w: SmallWorld,
    live: Vec<(Entity<SmallW>, u32)>,
    dead: Vec<Entity<SmallW>>,
    issued: HashSet<(u32, u32)>,
    next: u32,
    cap: usize,
    cap0: usize,
    directs: Vec<(EntityDirect<SmallW>, Entity<SmallW>, usize, usize)>, // with removals, creations at issue
    creations: usize,
    created: Vec<Entity<SmallW>>,
}

impl Tiny {
    fn fork(&self, w: SmallWorld) -> Tiny {
        Tiny { w, live: self.live.clone(), dead: self.dead.clone(), issued: self.issued.clone(), next: self.next, cap: self.cap, cap0: 0,
            directs: self.directs.clone(), creations: self.creations, created: self.created.clone() }
    }
    fn issue(&mut self, ctx: &mut Ctx, hist: &dyn Fn() -> String) {
        for (e, _) in self.live.clone() {
            match guard(|| self.w.to_direct(e)) {
                Ok(Some(d)) => self.directs.push((d, e, self.dead.len(), self.creations)),
                _ => ctx.viol(&["C01", "C09"], format!("{}: to_direct refused live {e:?}", hist())),
            }
        }
    }
    fn new(cap: usize) -> Tiny {
        let w = SmallWorld::with_capacity(SmallWorldCapacity { small_a: 0, small_z: 0, small_w: cap });
        let c = w.small_w.capacity();
        Tiny { w, live: vec![], dead: vec![], issued: HashSet::new(), next: 1, cap: c, cap0: cap, directs: vec![], creations: 0, created: vec![] }
    }
    fn apply(&mut self, ctx: &mut Ctx, op: Op, hist: &dyn Fn() -> String) {
        match op {
            Op::Create | Op::CreateWithin => {
                let within = op == Op::CreateWithin;
                let v = self.next;
                self.next += 1;
                let (len, cap) = (self.live.len(), self.cap);
                let r = guard(|| {
                    if within {
                        self.w.create_within_capacity::<SmallW>((Sw(v), Sb(v as u8))).map_err(|c| c.sw.0)
                    } else {
                        Ok(self.w.create::<SmallW>((Sw(v), Sb(v as u8))))
                    }
                });
                match r {
                    Err(p) => ctx.viol(&["C12", "C10", "C01"], format!("{}: create panicked: {p}", hist())),
                    Ok(Ok(e)) => {
                        let raw = e.into_any().raw();
                        ctx.check(self.issued.insert(raw), &["C08"], || format!("{}: {e:?} issued twice", hist()));
                        ctx.check(!within || len < cap, &["C12"], || format!("{}: create_within_capacity succeeded at len {len} capacity {cap}", hist()));
                        let nc = self.w.small_w.capacity();
                        let room = within || len < self.cap0;
                        ctx.check(nc >= cap && nc > len && (!room || nc == cap), &["C12"], || format!("{}: capacity {cap} -> {nc} at len {len}", hist()));
                        self.cap = nc;
                        self.live.push((e, v));
                        self.created.push(e);
                        self.creations += 1;
                    }
                    Ok(Err(x)) => {
                        ctx.check(within && len >= cap, &["C12"], || format!("{}: create_within_capacity failed at len {len} capacity {cap}", hist()));
                        ctx.check(x == v, &["C12"], || format!("{}: other components returned", hist()));
                    }
                }
            }
            Op::Destroy(i) => {
                let (e, v) = self.live.remove(i);
                // the key kind rotates with the value
                let r = guard(|| match v % 4 {
                    0 => self.w.destroy(e).map(|c| c.sw.0),
                    1 => self.w.destroy(e.into_any()).map(|_| v),
                    2 => {
                        let d = self.w.to_direct(e)?;
                        self.w.destroy(d).map(|c| c.sw.0)
                    }
                    _ => {
                        let d = self.w.to_direct(e.into_any())?;
                        self.w.destroy(d).map(|_| v)
                    }
                });
                match r {
                    Err(p) => ctx.viol(&["C01", "C10"], format!("{}: destroy panicked: {p}", hist())),
                    Ok(None) => ctx.viol(&["C01", "C09"], format!("{}: destroy refused live {e:?}", hist())),
                    Ok(Some(x)) => {
                        ctx.check(x == v, &["C02"], || format!("{}: destroy of {e:?} returned {x}, stored {v}", hist()));
                    }
                }
                self.dead.push(e);
            }
            Op::Loop(mask) => {
                let mut i = 0;
                let mut gone = HashSet::new();
                let mut visits = Vec::new();
                let r = guard(|| {
                    ecs_iter_destroy!(self.w, |e: &Entity<SmallW>, c: &Sw| {
                        visits.push((*e, c.0));
                        let kill = mask >> i & 1 == 1;
                        i += 1;
                        if kill {
                            gone.insert(*e);
                            EcsStepDestroy::ContinueDestroy
                        } else {
                            EcsStepDestroy::Continue
                        }
                    })
                });
                if let Err(p) = r {
                    ctx.viol(&["C07", "C10"], format!("{}: loop panicked: {p}", hist()));
                }
                let set: HashSet<_> = visits.iter().copied().collect();
                let want: HashSet<_> = self.live.iter().copied().collect();
                ctx.check(visits.len() == self.live.len() && set == want, &["C07"], || format!("{}: loop visited {visits:?} for {:?}", hist(), want));
                let mut i = 0;
                while i < self.live.len() {
                    if gone.contains(&self.live[i].0) {
                        let (e, _) = self.live.remove(i);
                        self.dead.push(e);
                    } else {
                        i += 1;
                    }
                }
            }
        }
        let (len, cap) = (self.w.small_w.len(), self.w.small_w.capacity());
        ctx.check(len == self.live.len() && cap >= self.cap && self.w.small_w.is_empty() == (len == 0), &["C12"], || format!("{}: len {len} capacity {cap}, {} alive, capacity was {}", hist(), self.live.len(), self.cap));
    }
    fn probe(&mut self, ctx: &mut Ctx, what: &'static [&'static str], hist: &dyn Fn() -> String) {
        for (e, v) in self.live.clone() {
            ctx.check(self.w.contains(e) && self.w.contains(e.into_any()), what, || format!("{}: live {e:?} rejected", hist()));
            let r = guard(|| ecs_find_borrow!(self.w, e, |f: &Entity<SmallW>, c: &Sw, b: &Sb| (*f, c.0, b.0)));
            ctx.check(r == Ok(Some((e, v, v as u8))), &["C01", "C02"], || format!("{}: find of {e:?} gave {r:?}, stored {v}", hist()));
        }
        for e in self.dead.clone() {
            let bad = guard(|| {
                self.w.contains(e)
                    || self.w.contains(e.into_any())
                    || self.w.to_direct(e).is_some()
                    || self.w.small_w.resolve(e.into_any()).is_some()
                    || self.w.small_w.view(e).is_some()
                    || self.w.small_w.borrow(e).is_some()
                    || ecs_find!(self.w, e, |_: &Sw| ()).is_some()
                    || self.w.destroy(e.into_any()).is_some()
            });
            ctx.check(bad == Ok(false), what, || format!("{}: dead {e:?} accepted", hist()));
        }
        for (d, e, removals, creations) in self.directs.clone() {
            let stale = removals != self.dead.len();
            let r = guard(|| {
                let i = self.w.small_w.resolve(d)?;
                Some((self.w.small_w.entities()[i], self.w.contains(d)))
            });
            let any = guard(|| ecs_find!(self.w, EntityDirectAny::from(d), |e: &Entity<SmallW>| *e));
            if stale {
                ctx.check(r == Ok(None) && any == Ok(None) && guard(|| self.w.destroy(d).is_none()) == Ok(true), &["C09"], || format!("{}: {d:?} accepted after a removal: {r:?}, {any:?}", hist()));
            } else if creations == self.creations {
                ctx.check(r == Ok(Some((e, true))) && any == Ok(Some(e)), &["C09"], || format!("{}: {d:?} of {e:?} resolves to {r:?}, {any:?}", hist()));
            } else {
                ctx.check(matches!(r, Ok(None)) || r == Ok(Some((e, true))), &["C09"], || format!("{}: {d:?} of {e:?} resolves to {r:?}", hist()));
            }
        }
        #[cfg(feature = "events")]
        {
            let log = |i: &mut dyn Iterator<Item = &Entity<SmallW>>| {
                let mut v: Vec<(u32, u32)> = i.map(|e| e.into_any().raw()).collect();
                v.sort();
                v
            };
            let got = (log(&mut self.w.small_w.iter_created()), log(&mut self.w.small_w.iter_destroyed()));
            let want = (log(&mut self.created.iter()), log(&mut self.dead.iter()));
            ctx.check(got == want, &["C17"], || format!("{}: events {got:?}, {want:?} happened", hist()));
            let n = (self.w.iter_created().count(), self.w.iter_destroyed().count());
            ctx.check(n == (want.0.len(), want.1.len()), &["C17"], || format!("{}: the world lists {n:?} events", hist()));
        }
        let mut seen: Vec<(Entity<SmallW>, u32)> = self.w.small_w.iter().map(|(e, c, _)| (*e, c.0)).collect();
        let mut want = self.live.clone();
        seen.sort_by_key(|x| x.1);
        want.sort_by_key(|x| x.1);
        ctx.check(seen == want, &["C06"], || format!("{}: iteration shows {seen:?} for {want:?}", hist()));
    }
    fn refill(&mut self, ctx: &mut Ctx, hist: &dyn Fn() -> String) {
        let room = self.cap - self.live.len().min(self.cap);
        for _ in 0..room {
            self.apply(ctx, Op::CreateWithin, hist);
            if !ctx.viols.is_empty() {
                return;
            }
        }
        self.apply(ctx, Op::CreateWithin, hist);
    }
}

fn ops_for(live: usize, loops: bool) -> Vec<Op> {
    let mut v = vec![Op::Create, Op::CreateWithin];
    for i in 0..live {
        v.push(Op::Destroy(i));
    }
    if loops && live > 0 {
        for m in 1..(1u8 << live.min(3)) {
            v.push(Op::Loop(m));
        }
    }
    v
}

/// All histories of a given length, in EXH_ITEMS items: 5 initial capacities, with and without
/// destroying loops, with and without a clone at the end, in 16 blocks by the first three operations.
/// Later items run the same histories with one more operation.
pub const EXH_ITEMS: usize = 320;
pub fn exh(ctx: &mut Ctx, item: usize, scale: usize) {
    let deeper = item / EXH_ITEMS;
    let (lap, item) = (item / EXH_ITEMS, item % EXH_ITEMS);
    if lap > 4 {
        return;
    }
    let cap = item % 5;
    let depth = if ctx.mini { 2 } else { 5 + scale + deeper };
    let loops = item / 5 % 2 == 0;
    let clones = (item / 10 % 2 == 0) == (ctx.prop == "C13");
    let block = item / 20;
    let mut prefix = 0usize;
    // Enumerate op sequences by odometer over the choice at each step.
    let mut choice: Vec<usize> = vec![0; depth];
    loop {
        let mut t = Tiny::new(cap);
        let mut ops: Vec<Op> = Vec::new();
        let mut widths = vec![0usize; depth];
        let mut mine = true;
        for d in 0..depth {
            if d == 3 && prefix % 16 != block {
                mine = false;
                for c in choice[3..].iter_mut() {
                    *c = 0;
                }
                break;
            }
            let alts = ops_for(t.live.len(), loops);
            widths[d] = alts.len();
            let op = alts[choice[d]];
            ops.push(op);
            let o = &ops;
            t.apply(ctx, op, &|| format!("capacity {cap}, {o:?}"));
            t.issue(ctx, &|| format!("capacity {cap}, {o:?}"));
            if !ctx.viols.is_empty() {
                std::mem::forget(t);
                return;
            }
        }
        let o = &ops;
        let hist = || format!("capacity {cap}, {o:?}");
        if mine {
            t.probe(ctx, &["C01"], &hist);
        }
        if !mine {
        } else if clones {
            let w2 = guard(|| t.w.clone());
            match w2 {
                Err(p) => ctx.viol(&["C13", "C10"], format!("{}: clone panicked: {p}", hist())),
                Ok(w2) => {
                    let mut c = t.fork(w2);
                    let n0 = ctx.viols.len();
                    c.probe(ctx, &["C01", "C13"], &hist);
                    c.refill(ctx, &hist);
                    c.probe(ctx, &["C01", "C13"], &hist);
                    let broken = ctx.viols.len() > n0;
                    // The original, after the clone went its own way:
                    let n1 = ctx.viols.len();
                    t.probe(ctx, &["C01", "C13"], &hist);
                    t.refill(ctx, &hist);
                    let orig = ctx.viols.len() > n1;
                    if broken && !orig {
                        for v in ctx.viols[n0..n1].iter_mut() {
                            v.props.push("C13");
                        }
                    }
                    if broken {
                        std::mem::forget(c);
                    }
                    ctx.stat("clones_refilled", 1);
                }
            }
        } else {
            t.refill(ctx, &hist);
            t.probe(ctx, &["C01"], &hist);
        }
        if mine {
            ctx.stat("exhaustive_histories", 1);
        }
        ctx.seen("exh", mix((cap as u64) << 48 ^ ops.iter().fold(0u64, |a, o| mix(a ^ match o {
            Op::Create => 1,
            Op::CreateWithin => 2,
            Op::Destroy(i) => 10 + *i as u64,
            Op::Loop(m) => 100 + *m as u64,
        }))));
        if !ctx.viols.is_empty() {
            std::mem::forget(t);
            return;
        }
        // next sequence
        let mut d = depth;
        loop {
            if d == 0 {
                ctx.sample(|| format!("capacity {cap}: all sequences of {depth} operations, e.g. {ops:?}"));
                return;
            }
            d -= 1;
            if d == 2 {
                prefix += 1;
            }
            choice[d] += 1;
            if choice[d] < widths[d] {
                break;
            }
            choice[d] = 0;
        }
    }
}

// ---- with_capacity(n) without reallocation -------------------------------------------------------

pub fn alloc(ctx: &mut Ctx, item: usize) {
    let n = match item {
        0..=130 => item,
        _ => match ctx.rng.below(4) {
            0 => (1usize << (7 + ctx.rng.below(14))) + ctx.rng.below(3) - 1,
            1 => ctx.rng.below(5_000),
            2 => ctx.rng.below(70_000),
            _ => 1000 + ctx.rng.below(1000),
        },
    };
    macro_rules! go {
        ($A:ident, $f:ident, $make:expr) => {{
            let mut caps = SmallWorldCapacity { small_a: 0, small_z: 0, small_w: 0 };
            caps.$f = n;
            let mut w = match ctx.rng.below(2) {
                0 => SmallWorld::with_capacity(caps),
                _ => {
                    let mut w = SmallWorld::new();
                    w.$f = $A::with_capacity(n);
                    w
                }
            };
            let cap = w.$f.capacity();
            ctx.check(cap >= n, &["C12"], || format!("with_capacity({n}) gives capacity {cap}"));
            let p0 = w.$f.get_slice::<Sb>().as_ptr() as usize;
            let a0 = allocs();
            for i in 0..n {
                let within = i % 3 == 0;
                let ok = if within { w.create_within_capacity::<$A>($make(i)).is_ok() } else { w.create::<$A>($make(i)); true };
                if !ok {
                    ctx.viol(&["C12"], format!("create_within_capacity failed at {i} of with_capacity({n})"));
                    break;
                }
            }
            let a1 = allocs();
            let p1 = w.$f.get_slice::<Sb>().as_ptr() as usize;
            if !cfg!(feature = "events") {
                ctx.check(a1 == a0, &["C12"], || format!("{} allocations during {n} creations after with_capacity({n})", a1 - a0));
            }
            let c2 = w.$f.capacity();
            ctx.check(c2 == cap && (n == 0 || p0 == p1), &["C12"], || format!("{n} creations after with_capacity({n}) moved the storage (capacity {cap} -> {c2})"));
            let l = w.$f.len();
            ctx.check(l == n, &["C12"], || format!("len {l} after {n} creations"));
            // exactly up to capacity() and no further without growth
            let mut k = n;
            while k < cap {
                if w.create_within_capacity::<$A>($make(k)).is_err() {
                    ctx.viol(&["C12"], format!("create_within_capacity failed at {k} with capacity {cap}"));
                    break;
                }
                k += 1;
            }
            let r = w.create_within_capacity::<$A>($make(k));
            ctx.check(r.is_err(), &["C12"], || format!("create_within_capacity succeeded at len = capacity = {cap}"));
            ctx.check(w.$f.capacity() == cap, &["C12"], || "a failed create_within_capacity changed the capacity".into());
            // destroy in a random pattern and refill
            let es: Vec<Entity<$A>> = w.$f.entities().to_vec();
            let mut kills = 0;
            let modulo = 1 + ctx.rng.below(4);
            for (i, e) in es.iter().enumerate() {
                if mix(i as u64 ^ n as u64) as usize % 4 < modulo {
                    let r = w.destroy(*e);
                    ctx.check(r.is_some(), &["C01", "C12"], || "destroy refused a live entity".into());
                    kills += 1;
                }
            }
            let b0 = w.$f.capacity();
            for i in 0..kills {
                if w.create_within_capacity::<$A>($make(i)).is_err() {
                    ctx.viol(&["C12"], format!("only {i} of {kills} freed positions are reusable (capacity {cap})"));
                    break;
                }
            }
            let r = w.create_within_capacity::<$A>($make(0)).is_err();
            ctx.check(w.$f.capacity() == b0 && w.$f.len() == cap && r, &["C12"], || format!("refill: len {} capacity {}", w.$f.len(), w.$f.capacity()));
            let distinct: HashSet<_> = w.$f.entities().iter().map(|e| e.into_any().raw()).collect();
            ctx.check(distinct.len() == cap, &["C12", "C08"], || "handles not distinct after refill".into());
        }};
    }
    match item % 2 {
        0 => go!(SmallA, small_a, |i: usize| (Sb(i as u8),)),
        _ => go!(SmallW, small_w, |i: usize| (Sw(i as u32), Sb(i as u8))),
    }
    ctx.stat("capacities", 1);
    ctx.seen("capacity", n as u64);
    ctx.sample(|| format!("with_capacity({n})"));
}

// ---- the 2^24 limit -----------------------------------------------------------------------------------

pub fn limit(ctx: &mut Ctx, item: usize) {
    let start = [0usize, LIMIT, 1, LIMIT - 1, (1 << 23) + 1, 3][item % 6];
    let zst = item % 2 == 0;
    ctx.sample(|| format!("fill to the limit from with_capacity({start}), zero-sized {zst}"));
    macro_rules! go {
        ($A:ident, $f:ident, $Make:expr, $val:expr, $want:expr) => {{
            let mut caps = SmallWorldCapacity { small_a: 0, small_z: 0, small_w: 0 };
            caps.$f = start;
            let mut w = match guard(|| SmallWorld::with_capacity(caps)) {
                Ok(w) => w,
                Err(p) => return ctx.viol(&["C12"], format!("with_capacity({start}) panicked: {p}")),
            };
            let mut cap = w.$f.capacity();
            let mut growths = 0;
            let mut sample: Vec<(Entity<$A>, usize)> = Vec::new();
            for i in 0..LIMIT {
                let within = i < cap && i % 2 == 0;
                let r = guard(|| if within { w.create_within_capacity::<$A>($Make(i)).map_err(|_| ()) } else { Ok(w.$f.create($Make(i))) });
                match r {
                    Ok(Ok(e)) => {
                        if i % 4099 == 0 || i >= LIMIT - 3 || i.is_power_of_two() {
                            sample.push((e, i));
                        }
                    }
                    Ok(Err(())) => return ctx.viol(&["C12"], format!("create_within_capacity failed at len {i} with capacity {cap}")),
                    Err(p) => return ctx.viol(&["C12", "C10"], format!("create panicked at {i} entities, below the limit: {p}")),
                }
                let c = w.$f.capacity();
                if c != cap {
                    ctx.check(c > cap && !within && i >= start, &["C12"], || format!("capacity went from {cap} to {c} at len {i}"));
                    cap = c;
                    growths += 1;
                }
            }
            ctx.check(w.$f.len() == LIMIT, &["C12"], || format!("len {}", w.$f.len()));
            ctx.stat("growths", growths);
            ctx.stat("creates", LIMIT as u64);
            // at the limit
            for round in 0..3 {
                let r = guard(|| w.$f.create($Make(7)));
                ctx.check(r.is_err(), &["C12"], || "create succeeded beyond 16,777,216 entities".into());
                if r.is_err() {
                    ctx.stat("limit_panics", 1);
                }
                if cap == LIMIT {
                    let r = guard(|| w.create_within_capacity::<$A>($Make(7)).is_err());
                    ctx.check(r == Ok(true), &["C12"], || format!("create_within_capacity at the limit: {r:?}"));
                }
                let (l, c) = (w.$f.len(), w.$f.capacity());
                ctx.check(l == LIMIT && c >= cap, &["C12", "C10"], || format!("after the limit panic len {l} capacity {c}"));
                // nothing corrupted
                for (e, i) in sample.iter() {
                    let ok = guard(|| w.contains(*e) && w.$f.resolve(*e).map(|x| w.$f.entities()[x]) == Some(*e));
                    ctx.check(ok == Ok(true), &["C12", "C10", "C01"], || format!("{e:?} lost at the limit"));
                    let v = guard(|| w.$f.view(*e).map(|v| $val(&v)));
                    let want: u32 = $want(*i);
                    ctx.check(v == Ok(Some(want)), &["C12", "C10", "C02"], || format!("{e:?} shows {v:?} at the limit"));
                }
                // every freed position is reusable, up to exactly the limit again
                let k = [1usize, 1000, 70_000][round];
                let mut victims: Vec<(Entity<$A>, usize)> = Vec::new();
                let stride = LIMIT / k;
                for j in 0..k {
                    let e = w.$f.entities()[(j * stride) % w.$f.len()];
                    victims.push((e, 0));
                    let r = guard(|| w.destroy(e.into_any()));
                    ctx.check(matches!(r, Ok(Some(()))), &["C12", "C10", "C01"], || format!("destroy at the limit: {r:?}"));
                }
                let dead: HashSet<_> = victims.iter().map(|v| v.0.into_any().raw()).collect();
                sample.retain(|s| !dead.contains(&s.0.into_any().raw()));
                let mut fresh = HashSet::new();
                for j in 0..k {
                    match guard(|| w.create_within_capacity::<$A>($Make(j))) {
                        Ok(Ok(e)) => {
                            let raw = e.into_any().raw();
                            ctx.check(!dead.contains(&raw) && fresh.insert(raw), &["C08", "C12"], || format!("{e:?} issued twice at the limit"));
                            if j % 97 == 0 {
                                sample.push((e, j));
                            }
                        }
                        r => {
                            let m = match r {
                                Err(p) => p,
                                _ => "refused".into(),
                            };
                            ctx.viol(&["C12"], format!("refill at the limit stopped after {j} of {k}: {m}"));
                            break;
                        }
                    }
                }
                for (e, _) in victims.iter().take(2000) {
                    ctx.check(!w.contains(*e), &["C01", "C12"], || format!("destroyed {e:?} accepted at the limit"));
                }
                ctx.stat("limit_refills", 1);
            }
            // handles pairwise distinct over the full population
            let mut bits = vec![0u64; LIMIT / 64];
            let mut dup = 0u64;
            for e in w.$f.entities() {
                let pos = (e.into_any().raw().0 >> 8) as usize;
                if bits[pos / 64] >> (pos % 64) & 1 == 1 {
                    dup += 1;
                }
                bits[pos / 64] |= 1 << (pos % 64);
            }
            ctx.check(dup == 0, &["C08", "C12"], || format!("{dup} positions are occupied twice at the limit"));
            ctx.seen("limit", item as u64 % 6);
        }};
    }
    if zst {
        go!(SmallZ, small_z, |_: usize| (Sz,), |_v: &<SmallZ as Archetype>::View<'_>| 0u32, |_: usize| 0u32);
    } else {
        go!(SmallA, small_a, |i: usize| (Sb(i as u8),), |v: &<SmallA as Archetype>::View<'_>| v.sb.0 as u32, |i: usize| i as u8 as u32);
    }
}

/// Every access path on an archetype that holds exactly 16,777,216 entities.
pub fn full(ctx: &mut Ctx, item: usize) {
    macro_rules! go {
        ($A:ident, $f:ident, $C:ident, $make:expr, $val:expr, $bump:expr, $O:ident, $mko:expr, $g:ident, $x:ident, $pat:pat) => {{
            let val: fn(&$C) -> u32 = $val;
            let bump: fn(&mut $C) = $bump;
            let make = $make;
            let mut caps = SmallWorldCapacity { small_a: 0, small_z: 0, small_w: 0 };
            caps.$f = LIMIT;
            let mut w = SmallWorld::with_capacity(caps);
            let other = w.create::<$O>($mko);
            let mut ends: Vec<Entity<$A>> = Vec::new();
            for i in 0..LIMIT {
                match w.$f.create_within_capacity(make(i)) {
                    Ok(e) => if i < 2 || i >= LIMIT - 2 || i == LIMIT / 2 { ends.push(e); },
                    Err(_) => return ctx.viol(&["C12"], format!("create_within_capacity failed at {i} of {LIMIT}")),
                }
            }
            let idx = [0usize, 1, LIMIT / 2, LIMIT - 2, LIMIT - 1];
            ctx.stat("creates", LIMIT as u64);
            let mut step = |ctx: &mut Ctx, props: &[&'static str], what: &str, f: &mut dyn FnMut() -> Result<(), String>| {
                ctx.stat("full_paths", 1);
                match guard(|| f()) {
                    Ok(Ok(())) => { ctx.check(true, props, String::new); }
                    Ok(Err(m)) => ctx.viol(props, format!("full archetype, {what}: {m}")),
                    Err(p) => {
                        let mut ps = props.to_vec();
                        ps.push("C12");
                        ctx.viol(&ps, format!("full archetype, {what}: panicked: {p}"));
                    }
                }
            };
            fn eq<T: PartialEq + std::fmt::Debug>(a: T, b: T) -> Result<(), String> {
                if a == b { Ok(()) } else { Err(format!("{a:?}, expected {b:?}")) }
            }
            step(ctx, &["C12"], "len and capacity", &mut || eq((w.$f.len(), w.$f.capacity(), w.$f.is_empty()), (LIMIT, LIMIT, false)));
            #[cfg(feature = "events")]
            fn raws<'a>(i: impl Iterator<Item = &'a EntityAny>) -> (usize, u64) {
                i.fold((0, 0), |(n, s), e| (n + 1, s.wrapping_add(mix((e.raw().0 as u64) << 32 | e.raw().1 as u64))))
            }
            #[cfg(feature = "events")]
            step(ctx, &["C17"], "created and destroyed events", &mut || {
                let all: Vec<EntityAny> = w.$f.entities().iter().map(|e| e.into_any()).chain([other.into_any()]).collect();
                let want = raws(all.iter());
                eq((w.iter_created().size_hint(), w.iter_destroyed().size_hint()), ((LIMIT + 1, Some(LIMIT + 1)), (0, Some(0))))?;
                eq(raws(w.iter_created()), want)?;
                eq((w.$f.iter_created().count(), w.$f.iter_destroyed().count()), (LIMIT, 0))?;
                let mut k = 0;
                let mut i = w.iter_created();
                while i.next().is_some() {
                    k += 1;
                    if k % 65_521 == 0 { eq(i.size_hint(), (LIMIT + 1 - k, Some(LIMIT + 1 - k)))?; }
                }
                drop(i);
                w.clear_events();
                eq((w.iter_created().count(), w.iter_destroyed().count(), w.$f.len()), (0, 0, LIMIT))
            });
            #[cfg(feature = "events")]
            let mut history: (Vec<EntityAny>, Vec<EntityAny>) = Default::default();
            step(ctx, &["C12"], "create_within_capacity", &mut || eq(w.$f.create_within_capacity(make(3)).is_err(), true));
            step(ctx, &["C06"], "entities", &mut || { let s = w.$f.entities(); eq(s.len(), LIMIT) });
            // each end through each key kind
            for (e, i) in ends.iter().copied().zip(idx) {
                let _ = i;
                let want = val(&make(i).0);
                step(ctx, &["C01"], "contains", &mut || eq((w.contains(e), w.contains(e.into_any()), w.$f.contains(e), w.$f.resolve(e).map(|k| w.$f.entities()[k])), (true, true, true, Some(e))));
                step(ctx, &["C09"], "to_direct", &mut || {
                    let d = w.to_direct(e).ok_or("refused")?;
                    let da = w.to_direct(e.into_any()).ok_or("refused (any)")?;
                    eq((w.contains(d), w.contains(da), w.$f.resolve(d).map(|k| w.$f.entities()[k]), EntityDirectAny::from(d) == da), (true, true, Some(e), true))?;
                    eq(ecs_find!(w, d, |x: &Entity<$A>, c: &$C| (*x, val(c))), Some((e, want)))?;
                    eq(ecs_find_borrow!(w, da, |x: &EntityAny, c: &$C| (*x, val(c))), Some((e.into_any(), want)))?;
                    eq(ecs_find!(w, e, |x: &EntityDirectAny| *x), Some(da))
                });
                step(ctx, &["C02"], "find, view and borrow", &mut || {
                    eq(ecs_find!(w, e, |c: &mut $C| { bump(c); val(c) }), Some(val(&{ let mut c = make(i).0; bump(&mut c); c })))?;
                    eq(ecs_find_borrow!(w, e.into_any(), |c: &mut $C| { bump(c); bump(c); bump(c); val(c) }), Some(want))?;
                    eq(w.$f.view(e).map(|v| val(v.component::<$C>())), Some(want))?;
                    eq(w.$f.borrow(e).map(|b| { let r = val(&b.component::<$C>()); let m = val(&b.component_mut::<$C>()); (r, m) }), Some((want, want)))
                });
            }
            // each pass
            let wantsum = (0..LIMIT).fold(0u64, |s, i| s.wrapping_add(val(&make(i).0) as u64));
            step(ctx, &["C06"], "ecs_iter!", &mut || { let (mut n, mut s) = (0usize, 0u64); ecs_iter!(w, |_: &Entity<$A>, c: &$C| { n += 1; s = s.wrapping_add(val(c) as u64); }); eq((n, s), (LIMIT, wantsum)) });
            step(ctx, &["C06"], "ecs_iter_borrow!", &mut || { let (mut n, mut s) = (0usize, 0u64); ecs_iter_borrow!(w, |_: &Entity<$A>, c: &mut $C| { n += 1; s = s.wrapping_add(val(c) as u64); }); eq((n, s), (LIMIT, wantsum)) });
            step(ctx, &["C06"], "Archetype::iter", &mut || { let (mut n, mut s) = (0usize, 0u64); for $pat in w.$f.iter() { n += 1; s = s.wrapping_add(val($x) as u64); } eq((n, s), (LIMIT, wantsum)) });
            step(ctx, &["C06"], "Archetype::iter_mut", &mut || { let (mut n, mut s) = (0usize, 0u64); for $pat in w.$f.iter_mut() { n += 1; s = s.wrapping_add(val($x) as u64); } eq((n, s), (LIMIT, wantsum)) });
            step(ctx, &["C06", "C02"], "slices", &mut || {
                eq(w.$f.get_slice::<$C>().len(), LIMIT)?;
                eq(w.$f.get_slice_mut::<$C>().len(), LIMIT)?;
                eq(w.$f.borrow_slice::<$C>().len(), LIMIT)?;
                eq(w.$f.borrow_slice_mut::<$C>().len(), LIMIT)?;
                let s = w.$f.get_all_slices_mut();
                eq(s.entity.len(), LIMIT)
            });
            step(ctx, &["C11"], "borrow conflict", &mut || {
                let g = w.$f.borrow_slice_mut::<$C>();
                let r = guard(|| w.$f.borrow(ends[4]).map(|b| val(&b.component::<$C>())));
                drop(g);
                eq(r.is_err(), true)?;
                eq(w.$f.borrow(ends[4]).map(|b| val(&b.component::<$C>())), Some(val(&make(LIMIT - 1).0)))
            });
            step(ctx, &["C13"], "clone", &mut || {
                let mut c = w.clone();
                eq((c.$f.len(), c.$f.capacity(), c.contains(ends[4]), c.$f.resolve(ends[0])), (LIMIT, LIMIT, true, w.$f.resolve(ends[0])))?;
                let mut s = 0u64;
                for $pat in c.$f.iter() { s = s.wrapping_add(val($x) as u64); }
                eq(s, wantsum)?;
                eq(c.destroy(ends[4]).map(|x| val(&x.$g)), Some(val(&make(LIMIT - 1).0)))?;
                eq((c.contains(ends[4]), w.contains(ends[4]), c.$f.len(), w.$f.len()), (false, true, LIMIT - 1, LIMIT))?;
                eq(c.$f.create_within_capacity(make(1)).is_ok(), true)?;
                eq(c.$f.create_within_capacity(make(1)).is_err(), true)
            });
            // destroying passes and every key kind of destroy, each refilled to the limit
            for how in 0..6usize {
                let before = w.$f.entities()[LIMIT - 1];
                let first = w.$f.entities()[5];
                let d = w.to_direct(before);
                let mut gone: Vec<Entity<$A>> = Vec::new();
                step(ctx, &["C01", "C07", "C12"], ["destroy(Entity)", "destroy(EntityAny)", "destroy(EntityDirect)", "destroy(EntityDirectAny)", "ecs_iter_destroy! with a break", "ecs_iter_destroy!"][how], &mut || {
                    let ok = match how {
                        0 => w.destroy(first).is_some() && w.destroy(before).is_some(),
                        1 => w.destroy(first.into_any()).is_some() && w.destroy(before.into_any()).is_some(),
                        2 => w.destroy(d.unwrap()).is_some() && w.destroy(first).is_some(),
                        3 => w.destroy(d.unwrap().into_any()).is_some() && w.destroy(first).is_some(),
                        4 => {
                            let mut n = 0;
                            ecs_iter_destroy!(w, |e: &Entity<$A>, _: &mut $C| { n += 1; gone.push(*e); if n == 2 { EcsStepDestroy::BreakDestroy } else { EcsStepDestroy::ContinueDestroy } });
                            gone.len() == 2
                        }
                        _ => {
                            let mut n = 0usize;
                            ecs_iter_destroy!(w, |e: &Entity<$A>, d: &EntityDirect<$A>, _: &mut $C| { let _ = d; n += 1; if n % (LIMIT / 4) == 1 { gone.push(*e); EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::Continue } });
                            eq(n, LIMIT)?;
                            true
                        }
                    };
                    if how < 4 { gone = vec![first, before]; }
                    eq(ok, true)?;
                    eq(w.$f.len(), LIMIT - gone.len())?;
                    for g in gone.iter() {
                        eq((w.contains(*g), w.contains(g.into_any()), w.$f.resolve(*g)), (false, false, None))?;
                    }
                    eq(d.map(|d| w.contains(d)), Some(false))?;
                    let mut fresh = Vec::new();
                    for k in 0..gone.len() {
                        let e = if k % 2 == 0 { w.$f.create(make(k)) } else { w.$f.create_within_capacity(make(k)).map_err(|_| format!("refill stopped at {k}"))? };
                        eq(gone.contains(&e) || fresh.contains(&e), false)?;
                        fresh.push(e);
                    }
                    #[cfg(feature = "events")]
                    {
                        history.0.extend(fresh.iter().map(|e| e.into_any()));
                        history.1.extend(gone.iter().map(|e| e.into_any()));
                    }
                    eq((w.$f.len(), w.$f.capacity()), (LIMIT, LIMIT))?;
                    let r = guard(|| w.$f.create(make(3)));
                    eq(r.is_err(), true)?;
                    eq((w.$f.len(), w.$f.entities().len(), fresh.iter().all(|e| w.contains(*e))), (LIMIT, LIMIT, true))
                });
            }
            #[cfg(feature = "events")]
            step(ctx, &["C17"], "events of the destroying passes", &mut || eq((raws(w.iter_created()), raws(w.iter_destroyed())), (raws(history.0.iter()), raws(history.1.iter()))));
            #[cfg(feature = "events")]
            step(ctx, &["C17"], "a destroyed-event list of a full archetype", &mut || {
                w.clear_events();
                let all: Vec<EntityAny> = w.$f.entities().iter().map(|e| e.into_any()).collect();
                ecs_iter_destroy!(w, |_: &Entity<$A>| EcsStepDestroy::ContinueDestroy);
                eq((w.$f.len(), w.$f.is_empty(), raws(w.iter_destroyed()), w.iter_created().count()), (0, true, raws(all.iter()), 0))?;
                eq(w.iter_destroyed().size_hint(), (LIMIT, Some(LIMIT)))?;
                eq(w.$f.create_within_capacity(make(1)).is_ok(), true)
            });
            step(ctx, &["C01"], "the other archetype", &mut || eq(ecs_find!(w, other, |e: &Entity<$O>| *e), Some(other)));
            ctx.seen("full", item as u64 % 3);
            ctx.sample(|| format!("every path over a full {}", stringify!($A)));
        }};
    }
    match item % 3 {
        0 => go!(SmallA, small_a, Sb, |i: usize| (Sb(i as u8),), |c: &Sb| c.0 as u32, |c: &mut Sb| c.0 = c.0.wrapping_add(64), SmallW, (Sw(77), Sb(7)), sb, x, (_, x)),
        1 => go!(SmallZ, small_z, Sz, |_: usize| (Sz,), |_: &Sz| 0u32, |_: &mut Sz| (), SmallA, (Sb(7),), sz, x, (_, x)),
        _ => go!(SmallW, small_w, Sw, |i: usize| (Sw(i as u32), Sb(1)), |c: &Sw| c.0, |c: &mut Sw| c.0 = c.0.wrapping_add(1 << 30), SmallZ, (Sz,), sw, x, (_, x, _)),
    }
}

/// with_capacity beyond the limit panics; up to it, it works.
pub fn too_large(ctx: &mut Ctx) {
    for n in [LIMIT + 1, LIMIT + 2, LIMIT * 2, 1 << 32, 1 << 40, usize::MAX / 2, usize::MAX] {
        let r = guard(|| SmallZ::with_capacity(n).capacity());
        ctx.check(r.is_err(), &["C12"], || format!("with_capacity({n}) returned capacity {r:?}"));
        let r = guard(|| SmallA::with_capacity(n).capacity());
        ctx.check(r.is_err(), &["C12"], || format!("with_capacity({n}) returned capacity {r:?}"));
        let mut caps = SmallWorldCapacity { small_a: 3, small_z: 0, small_w: 0 };
        caps.small_w = n;
        let r = guard(|| SmallWorld::with_capacity(caps).small_w.capacity());
        ctx.check(r.is_err(), &["C12"], || format!("World::with_capacity({n}) returned capacity {r:?}"));
        ctx.stat("limit_panics", 3);
        ctx.seen("too-large", n as u64);
    }
    for n in [0, 1, LIMIT - 1, LIMIT] {
        let r = guard(|| SmallA::with_capacity(n).capacity());
        ctx.check(matches!(r, Ok(c) if c >= n), &["C12"], || format!("with_capacity({n}): {r:?}"));
        ctx.seen("with-capacity", n as u64);
    }
}

// ---- reuse of one position up to (and across) the counter boundary -------------------------------

/// Recycles a few positions very many times. `cycles` = 2^32 reaches the real overflow.
pub fn reuse(ctx: &mut Ctx, item: usize, cycles: u64) {
    let wrapping = cfg!(feature = "wrapping_version");
    // Pattern: how many entities stay alive next to the recycled one, and how many positions take turns.
    let (stay, turns, keyk) = [(0usize, 1usize, 0usize), (1, 1, 1), (0, 2, 0), (3, 1, 2)][item % 4];
    let mut w = SmallWorld::with_capacity(SmallWorldCapacity { small_a: stay + turns, small_z: 0, small_w: 0 });
    let stayers: Vec<Entity<SmallA>> = (0..stay).map(|i| w.create::<SmallA>((Sb(i as u8),))).collect();
    // One bit per (position, generation) ever issued.
    let mut issued: std::collections::HashMap<u32, Vec<u64>> = std::collections::HashMap::new();
    let mut last: (u32, Vec<u64>) = (u32::MAX, Vec::new());
    let mut stale: Vec<Entity<SmallA>> = Vec::new();
    let mut direct: Vec<EntityDirect<SmallA>> = Vec::new();
    let mut done = 0u64;
    let mut overflow = None;
    let mut reissued = 0u64;
    let mut live: std::collections::VecDeque<Entity<SmallA>> = Default::default();
    'outer: while done < cycles {
        // create up to `turns`
        while live.len() < turns {
            let e = match guard(|| w.small_a.create((Sb(done as u8),))) {
                Ok(e) => e,
                Err(p) => {
                    overflow = Some(format!("create: {p}"));
                    break 'outer;
                }
            };
            let (k, g) = e.into_any().raw();
            if last.0 != k {
                let mut other = issued.remove(&k).unwrap_or_default();
                std::mem::swap(&mut last.1, &mut other);
                if last.0 != u32::MAX {
                    issued.insert(last.0, other);
                }
                last.0 = k;
            }
            let word = g as usize / 64;
            if last.1.len() <= word {
                let n = (word + 1).next_power_of_two().max(1 << 10);
                last.1.resize(n, 0);
            }
            if last.1[word] >> (g % 64) & 1 == 1 {
                reissued += 1;
                if !wrapping {
                    ctx.viol(&["C08", "C01"], format!("{e:?} issued twice (cycle {done})"));
                    return;
                }
                if reissued > 1000 {
                    break 'outer;
                }
            }
            last.1[word] |= 1 << (g % 64);
            live.push_back(e);
        }
        ctx.evals += 1;
        let e = live.pop_front().unwrap();
        let probe = done.is_power_of_two() || (done + 1).is_power_of_two() || (done & 0xff_ffff) == 0x5a5a || done + 4 > cycles;
        if probe {
            if let Some(d) = w.to_direct(e) {
                direct.push(d);
            }
        }
        let ok = match guard(|| match keyk {
            0 => w.small_a.destroy(e).is_some(),
            1 => w.destroy(e.into_any()).is_some(),
            _ => w.to_direct(e).map(|d| w.destroy(d).is_some()).unwrap_or(false),
        }) {
            Ok(ok) => ok,
            Err(p) => {
                // Whatever happened, the entity is there or it isn't.
                overflow = Some(format!("destroy: {p}"));
                live.push_front(e);
                break;
            }
        };
        if !ok {
            ctx.viol(&["C01"], format!("destroy refused live {e:?} (cycle {done})"));
            return;
        }
        done += 1;
        if probe {
            stale.push(e);
        }
        if probe || done & 0xfff == 0 {
            let lo = if probe { 0 } else { stale.len().saturating_sub(4) };
            for s in stale[lo..].iter().chain(stale.first()) {
                let acc = w.contains(*s) || w.contains(s.into_any()) || w.small_a.resolve(*s).is_some();
                // After a documented wraparound an ancient handle may match again.
                ctx.check(!acc || reissued > 0, &["C01", "C08"], || format!("destroyed {s:?} accepted after {done} cycles"));
            }
            for d in direct.iter().take(64) {
                let acc = w.small_a.resolve(*d).is_some() || w.contains(d.into_any());
                ctx.check(!acc || (wrapping && done > u32::MAX as u64 - 2), &["C09"], || format!("stale {d:?} accepted after {done} removals"));
            }
            for s in stayers.iter() {
                let ok = w.contains(*s) && ecs_find!(w, *s, |e: &Entity<SmallA>| *e) == Some(*s);
                ctx.check(ok, &["C01"], || format!("live {s:?} lost after {done} cycles"));
            }
            if !ctx.viols.is_empty() {
                return;
            }
        }
    }
    ctx.stat("cycles", done);
    ctx.stat("reissued_after_wraparound", reissued);
    ctx.seen("reuse", item as u64 % 4 | done << 8);
    ctx.sample(|| format!("{stay} bystanders, {turns} positions in turn, {done} cycles, {reissued} reissued, overflow: {overflow:?}"));
    if let Some(m) = &overflow {
        ctx.stat("overflow_panics", 1);
        ctx.check(!wrapping, &["C19", "C10"], || format!("panic in wrapping configuration after {done} cycles: {m}"));
        // The default configuration may panic only when a 32-bit counter is used up.
        ctx.check(done >= u32::MAX as u64 - 4 || wrapping, &["C10", "C01", "C12"], || format!("panicked after only {done} cycles: {m}"));
    }
    // Consistency afterwards: everything alive is reachable, the world can be used, cloned and dropped.
    for round in 0..2 {
        let r = guard(|| {
            let mut bad = Vec::new();
            let alive: Vec<Entity<SmallA>> = stayers.iter().chain(live.iter()).copied().filter(|e| w.contains(*e)).collect();
            if stayers.iter().any(|e| !alive.contains(e)) {
                bad.push("a bystander vanished".to_string());
            }
            if w.small_a.len() != alive.len() {
                bad.push(format!("len {} with {} alive", w.small_a.len(), alive.len()));
            }
            let seen: HashSet<_> = w.small_a.iter().map(|(e, _)| *e).collect();
            if seen != alive.iter().copied().collect::<HashSet<_>>() {
                bad.push("iteration disagrees".into());
            }
            let c = w.clone();
            if c.small_a.len() != w.small_a.len() {
                bad.push("clone disagrees".into());
            }
            let room = w.small_a.capacity() - w.small_a.len();
            for _ in 0..room {
                match w.small_a.create_within_capacity((Sb(1),)) {
                    Ok(e) => live.push_back(e),
                    Err(_) => bad.push("free position lost".into()),
                }
            }
            bad
        });
        match r {
            Ok(bad) => {
                for b in bad {
                    ctx.viol(&["C10", "C01", "C12"], format!("after {done} cycles ({overflow:?}), round {round}: {b}"));
                }
            }
            Err(p) => ctx.viol(&["C10"], format!("after {done} cycles ({overflow:?}): panicked: {p}")),
        }
        if overflow.is_none() || round == 1 {
            continue;
        }
        // try again: it must stay consistent
        for e in live.clone() {
            let r = guard(|| w.destroy(e));
            if let Ok(Some(_)) = r {
                live.retain(|x| *x != e);
            }
        }
    }
    let _ = Rng::new(1);
}
