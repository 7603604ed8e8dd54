//! Random histories executed on gecs and on an independent model, with monitors.
use crate::ctx::{guard, Ctx};
use crate::ledger;
use crate::world::*;
use gecs::prelude::*;
use std::collections::{HashMap, HashSet};

pub type Raw = (u32, u32);

#[derive(Clone)]
pub struct Ent {
    pub a: usize,
    pub h: EntityAny,
    pub tags: Vec<u64>,
    pub vids: Vec<u64>,
}

#[derive(Clone, Default)]
pub struct MArch {
    pub live: Vec<Raw>,
    pub pos: HashMap<Raw, usize>,
    pub cap: usize,
    /// capacity requested at construction: that many creations must not reallocate
    pub promised: usize,
    pub removals: u64,
    pub creations: u64,
    pub created: Vec<EntityAny>,
    pub destroyed: Vec<EntityAny>,
    pub dead: Vec<EntityAny>,
}

#[derive(Clone)]
pub struct Direct {
    pub a: usize,
    pub d: EntityDirectAny,
    pub target: Raw,
    pub removals: u64,
    pub creations: u64,
}

#[derive(Clone, Default)]
pub struct Model {
    pub ents: HashMap<Raw, Ent>,
    pub arch: Vec<MArch>,
    pub issued: HashSet<Raw>,
    pub directs: Vec<Direct>,
}

/// A world paired with its model.
pub struct WM {
    pub w: W,
    pub m: Model,
}

pub const MEM: &[&str] = &["C02", "C03", "C04", "C10"];

impl Model {
    pub fn new(narch: usize) -> Self {
        Model { arch: vec![MArch::default(); narch], ..Model::default() }
    }
    pub fn add(&mut self, e: Ent) {
        let raw = e.h.raw();
        let a = &mut self.arch[e.a];
        a.pos.insert(raw, a.live.len());
        a.live.push(raw);
        a.creations += 1;
        a.created.push(e.h);
        self.issued.insert(raw);
        self.ents.insert(raw, e);
    }
    pub fn remove(&mut self, raw: Raw) -> Ent {
        let e = self.ents.remove(&raw).unwrap();
        let a = &mut self.arch[e.a];
        let p = a.pos.remove(&raw).unwrap();
        a.live.swap_remove(p);
        if p < a.live.len() {
            let moved = a.live[p];
            a.pos.insert(moved, p);
        }
        a.removals += 1;
        a.destroyed.push(e.h);
        a.dead.push(e.h);
        e
    }
    pub fn tracked(&self) -> usize {
        self.ents.values().map(|e| e.vids.iter().filter(|v| **v != 0).count()).sum()
    }
    pub fn zst(&self) -> i64 {
        self.ents.values().map(|e| zst_cols(e.a) as i64).sum()
    }
    pub fn issue_direct(&mut self, a: usize, d: EntityDirectAny, target: Raw) {
        let (removals, creations) = (self.arch[a].removals, self.arch[a].creations);
        self.directs.push(Direct { a, d, target, removals, creations });
    }
}

fn zst_cols(a: usize) -> usize {
    COLS.with(|c| c[a].2)
}

thread_local! {
    /// per driver: (ncols, norm fns, number of Zd columns)
    pub static COLS: Vec<(usize, Vec<fn(u64) -> u64>, usize)> = DRIVERS.iter().map(|d| {
        let c = d.cols();
        (c.len(), c.iter().map(|c| c.norm).collect(), c.iter().filter(|c| c.zst.is_some()).count())
    }).collect();
}

pub fn ncols(a: usize) -> usize {
    COLS.with(|c| c[a].0)
}
pub fn norm(a: usize, col: usize, tag: u64) -> u64 {
    COLS.with(|c| (c[a].1[col])(tag))
}
pub fn by_id(id: u8) -> Option<usize> {
    DRIVERS.iter().position(|d| d.id() == id)
}

pub fn rand_tags(ctx: &mut Ctx, a: usize) -> Vec<u64> {
    (0..ncols(a)).map(|_| ctx.rng.next()).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Src {
    Lookup,
    DirectLookup,
    Iter,
    DestroyLoop,
}

/// Checks one observed row against the entity it must show.
pub fn check_row(ctx: &mut Ctx, wm: &mut WM, raw: Raw, row: &Row, src: Src, what: &str, key: &str) {
    let e = match wm.m.ents.get(&raw) {
        Some(e) => e.clone(),
        None => return,
    };
    let dr = DRIVERS[e.a];
    let id_props: &[&str] = match src {
        Src::Lookup => &["C01", "C02", "C03"],
        Src::DirectLookup => &["C09", "C03"],
        Src::Iter => &["C06"],
        Src::DestroyLoop => &["C07"],
    };
    if let Some(bad) = &row.bad {
        ctx.viol(&["C05", "C06", "C07", "C09"], format!("{what}({key}) on {}: {bad}", dr.name()));
    }
    if let Some(h) = row.h {
        ctx.check(h == e.h, id_props, || format!("{what}({key}) on {} for {:?} reached {:?}", dr.name(), e.h, h));
        ctx.dig_hash(&h.raw());
    }
    if let Some(mid) = row.mid {
        ctx.check(mid == dr.id(), &["C05"], || format!("{what}: MatchedArchetype is {mid} for {}", dr.name()));
    }
    if let Some(idx) = row.idx {
        let ok = guard(|| dr.entities(&wm.w)).map(|es| es.get(idx) == Some(&e.h)).unwrap_or(false);
        ctx.check(ok, id_props, || format!("{what}({key}) on {}: index {idx} is not where {:?} is stored", dr.name(), e.h));
        ctx.dig(idx as u64);
    }
    if let Some(tags) = &row.tags {
        if tags.len() == e.tags.len() {
            if *tags != e.tags {
                let mut props: Vec<&'static str> = vec!["C02"];
                let other = wm.m.ents.values().any(|o| o.a == e.a && o.h != e.h && o.tags == *tags);
                if other {
                    props.extend(id_props);
                }
                match src {
                    Src::Iter => props.push("C06"),
                    Src::DestroyLoop => props.push("C07"),
                    _ => {}
                }
                ctx.evals += 1;
                ctx.viol(&props, format!("{what}({key}) on {} for {:?} shows {:x?}, last written {:x?}{}", dr.name(), e.h,
                    tags, e.tags, if other { " (values of another entity)" } else { "" }));
            } else {
                ctx.evals += 1;
            }
        }
        for t in tags {
            ctx.dig(*t);
        }
        if row.vids.len() == e.vids.len() && row.vids != e.vids {
            ctx.viol(&["C02", "C04"], format!("{what}({key}) on {} for {:?}: component objects {:?} instead of {:?}", dr.name(), e.h, row.vids, e.vids));
        }
    }
    if let Some(d) = row.d {
        ctx.dig_hash(&d);
        wm.m.issue_direct(e.a, d, raw);
        // Direct handles are probed at random times; sometimes right at issue.
        if src != Src::DestroyLoop && ctx.rng.chance(1, 4) {
            let i = wm.m.directs.len() - 1;
            probe_direct(ctx, wm, i, false);
        }
    }
}

pub fn key_kind(k: &Key) -> &'static str {
    match k {
        Key::E(_) => "Entity",
        Key::A(_) => "EntityAny",
        Key::D(_) => "EntityDirect",
        Key::X(_) => "EntityDirectAny",
        Key::EU(_) => "Entity(unchecked)",
        Key::DU(_) => "EntityDirect(unchecked)",
    }
}
pub fn is_direct(k: &Key) -> bool {
    matches!(k, Key::D(_) | Key::X(_) | Key::DU(_))
}

/// A random key for a live entity.
pub fn live_key(ctx: &mut Ctx, wm: &mut WM, raw: Raw) -> Key {
    let h = wm.m.ents[&raw].h;
    match ctx.rng.below(5) {
        0 | 1 => Key::E(h),
        2 => Key::A(h),
        n => {
            let a = wm.m.ents[&raw].a;
            let k = if ctx.rng.chance(1, 2) { Key::E(h) } else { Key::A(h) };
            match guard(|| DRIVERS[a].lookup(&mut wm.w, k, 3 + (n & 1))) {
                Ok(Some(Row { d: Some(d), .. })) => {
                    wm.m.issue_direct(a, d, raw);
                    if n == 3 { Key::D(d) } else { Key::X(d) }
                }
                _ => Key::E(h),
            }
        }
    }
}

pub fn op_create(ctx: &mut Ctx, wm: &mut WM, a: usize, path: usize) -> Option<Raw> {
    let dr = DRIVERS[a];
    let tags = rand_tags(ctx, a);
    let len = dr.len(&wm.w);
    let cap = dr.cap(&wm.w);
    ctx.log(|| format!("create {} path {path} len {len} cap {cap}", dr.name()));
    let r = guard(|| dr.create(&mut wm.w, path, &tags));
    let bounded = create_is_bounded(path);
    let tags: Vec<u64> = tags.iter().enumerate().map(|(i, t)| norm(a, i, *t)).collect();
    match r {
        Err(p) => {
            ctx.viol(&["C12", "C10"], format!("create in {} (len {len}, capacity {cap}) panicked: {p}", dr.name()));
            None
        }
        Ok(Created::Ok(h, vids)) => {
            ctx.dig_hash(&h.raw());
            let raw = h.raw();
            let was_dead = wm.m.issued.contains(&raw);
            ctx.check(!was_dead, &["C08"], || format!("create in {} returned {:?}, which was already issued", dr.name(), h));
            ctx.check(h.archetype_id() == dr.id(), &["C14", "C15"], || format!("handle {:?} created in archetype {}", h, dr.id()));
            ctx.check(!bounded || len < cap, &["C12"], || format!("create_within_capacity succeeded in {} with len {len} capacity {cap}", dr.name()));
            let ncap = dr.cap(&wm.w);
            let room = wm.m.arch[a].promised > len || bounded;
            ctx.check(ncap >= cap && ncap > len && !(room && ncap != cap), &["C12"], || format!("capacity of {} went from {cap} to {ncap} in a create at len {len}", dr.name()));
            ctx.dig(ncap as u64);
            if wm.m.ents.contains_key(&raw) {
                ctx.viol(&["C08", "C01"], format!("create in {} returned the handle {:?} of a live entity", dr.name(), h));
                return None;
            }
            // A reissued handle is dead and alive at once; the model can't go on from here.
            wm.m.add(Ent { a, h, tags, vids });
            wm.m.arch[a].cap = ncap;
            ctx.stat("creates", 1);
            if len >= cap {
                ctx.stat("growths", 1);
            }
            if h.raw().1 > 1 {
                ctx.stat("slot_reuses", 1);
            }
            Some(raw)
        }
        Ok(Created::Full(rt, rv, gv)) => {
            ctx.dig(77);
            ctx.check(bounded && len >= cap, &["C12"], || format!("create_within_capacity failed in {} with len {len} capacity {cap}", dr.name()));
            ctx.check(rt == tags && rv == gv, &["C12", "C04", "C02"], || format!("create_within_capacity in {} returned other components", dr.name()));
            for v in rv.iter().filter(|v| **v != 0) {
                ctx.check(!ledger::is_alive(*v), &["C04"], || "returned component not dropped by its new owner".into());
            }
            let ncap = dr.cap(&wm.w);
            ctx.check(ncap == cap, &["C12"], || format!("failed create_within_capacity changed capacity of {}", dr.name()));
            ctx.stat("create_refused", 1);
            None
        }
    }
}

/// Destroys a live entity; checks the returned values.
pub fn op_destroy(ctx: &mut Ctx, wm: &mut WM, raw: Raw, key: Key, world_level: bool) {
    let e = wm.m.ents[&raw].clone();
    let dr = DRIVERS[e.a];
    ctx.log(|| format!("destroy {} {:?} by {} world {world_level}", dr.name(), e.h, key_kind(&key)));
    let r = guard(|| dr.destroy(&mut wm.w, key, world_level));
    let kp: &[&str] = if is_direct(&key) { &["C09", "C01"] } else { &["C01"] };
    match r {
        Err(p) => ctx.viol(&["C01", "C10"], format!("destroy({}) of live {:?} panicked: {p}", key_kind(&key), e.h)),
        Ok(Destroyed::Absent) => {
            ctx.evals += 1;
            ctx.viol(kp, format!("destroy({}) refused live {:?} of {}", key_kind(&key), e.h, dr.name()));
        }
        Ok(out) => {
            ctx.evals += 1;
            ctx.dig(2);
            wm.m.remove(raw);
            if let Destroyed::Comps(tags, vids) = out {
                ctx.check(tags == e.tags, &["C02"], || format!("destroy({}) of {:?} returned {:x?}, last written {:x?}", key_kind(&key), e.h, tags, e.tags));
                ctx.check(vids == e.vids, &["C04", "C02"], || format!("destroy({}) of {:?} returned other objects", key_kind(&key), e.h));
                for t in tags {
                    ctx.dig(t);
                }
            }
            // Whether handed back (and dropped by the harness) or dropped by gecs: gone now.
            for v in e.vids.iter().filter(|v| **v != 0) {
                ctx.check(!ledger::is_alive(*v), &["C04"], || format!("component {v} of destroyed {:?} is still alive", e.h));
            }
            ctx.stat("destroys", 1);
        }
    }
}

/// Looks up a live entity and checks what is found.
pub fn op_lookup(ctx: &mut Ctx, wm: &mut WM, raw: Raw, key: Key, path: usize) {
    let e_a = wm.m.ents[&raw].a;
    let h = wm.m.ents[&raw].h;
    let dr = DRIVERS[e_a];
    let (what, kk) = (LOOKUP_NAMES[path], key_kind(&key));
    let src = if is_direct(&key) { Src::DirectLookup } else { Src::Lookup };
    ctx.stat("lookups_live", 1);
    match guard(|| dr.lookup(&mut wm.w, key, path)) {
        Err(p) => ctx.viol(&["C01", "C10"], format!("{what}({kk}) on live {:?} of {} panicked: {p}", h, dr.name())),
        Ok(None) => {
            ctx.evals += 1;
            ctx.viol(if is_direct(&key) { &["C09"] } else { &["C01"] }, format!("{what}({kk}) rejected live {:?} of {}", h, dr.name()));
        }
        Ok(Some(row)) => {
            ctx.evals += 1;
            check_row(ctx, wm, raw, &row, src, what, kk)
        }
    }
}

/// Probes a destroyed handle: every path must reject it.
pub fn op_lookup_dead(ctx: &mut Ctx, wm: &mut WM, a: usize, h: EntityAny, path: usize, any: bool) {
    let dr = DRIVERS[a];
    let key = if any { Key::A(h) } else { Key::E(h) };
    let (what, kk) = (LOOKUP_NAMES[path], key_kind(&key));
    ctx.stat("lookups_dead", 1);
    match guard(|| dr.lookup(&mut wm.w, key, path)) {
        Err(p) => ctx.viol(&["C01", "C10"], format!("{what}({kk}) on destroyed {:?} of {} panicked: {p}", h, dr.name())),
        Ok(Some(row)) => {
            ctx.evals += 1;
            ctx.viol(&["C01"], format!("{what}({kk}) accepted destroyed {:?} of {} (reached {:?})", h, dr.name(), row.h));
        }
        Ok(None) => ctx.evals += 1,
    }
}

pub fn op_destroy_dead(ctx: &mut Ctx, wm: &mut WM, a: usize, h: EntityAny, any: bool, world_level: bool) {
    let dr = DRIVERS[a];
    let key = if any { Key::A(h) } else { Key::E(h) };
    match guard(|| dr.destroy(&mut wm.w, key, world_level)) {
        Err(p) => ctx.viol(&["C01", "C10"], format!("destroy of destroyed {:?} panicked: {p}", h)),
        Ok(Destroyed::Absent) => ctx.evals += 1,
        Ok(_) => {
            ctx.evals += 1;
            ctx.viol(&["C01"], format!("destroy accepted destroyed {:?} of {}", h, dr.name()));
        }
    }
}

/// Probes a recorded direct handle on one random path (or all).
pub fn probe_direct(ctx: &mut Ctx, wm: &mut WM, i: usize, all: bool) {
    let d = wm.m.directs[i].clone();
    let dr = DRIVERS[d.a];
    let ar = &wm.m.arch[d.a];
    let removed = ar.removals - d.removals;
    let created = ar.creations - d.creations;
    let n = if all { N_LOOKUP * 2 } else { 1 };
    for j in 0..n {
        let (path, any) = if all { (j / 2, j % 2 == 0) } else { (ctx.rng.below(N_LOOKUP), ctx.rng.chance(1, 2)) };
        let key = if any { Key::X(d.d) } else { Key::D(d.d) };
        let (what, kk) = (LOOKUP_NAMES[path], key_kind(&key));
        ctx.stat(if removed > 0 { "directs_stale_probed" } else { "directs_valid_probed" }, 1);
        match guard(|| dr.lookup(&mut wm.w, key, path)) {
            Err(p) => ctx.viol(&["C09", "C10"], format!("{what}({kk}) on direct handle {:?} panicked: {p}", d.d)),
            Ok(None) => {
                ctx.evals += 1;
                if removed == 0 && created == 0 {
                    ctx.viol(&["C09"], format!("{what}({kk}) rejected {:?} of {} with no structural change since it was issued for {:?}", d.d, dr.name(), d.target));
                }
            }
            Ok(Some(row)) => {
                ctx.evals += 1;
                if removed > 0 {
                    ctx.viol(&["C09"], format!("{what}({kk}) accepted {:?} of {} after {removed} removal(s) since it was issued (reached {:?})", d.d, dr.name(), row.h));
                } else {
                    if let Some(h) = row.h {
                        ctx.check(h.raw() == d.target, &["C09"], || format!("{what}({kk}): {:?} issued for {:?} reached {:?}", d.d, d.target, h));
                    }
                    if let Some(t) = row.tags.as_ref() {
                        let e = &wm.m.ents[&d.target];
                        let ok = *t == e.tags;
                        let other = !ok && wm.m.ents.values().any(|o| o.a == d.a && o.tags == *t && o.h.raw() != d.target);
                        ctx.check(ok, if other { &["C09", "C02"] } else { &["C02"] }, || format!("{what}({kk}): {:?} issued for {:?} shows other values", d.d, d.target));
                    }
                }
            }
        }
    }
}

pub fn op_write(ctx: &mut Ctx, wm: &mut WM, raw: Raw) {
    let a = wm.m.ents[&raw].a;
    let h = wm.m.ents[&raw].h;
    let key = live_key(ctx, wm, raw);
    let path = ctx.rng.below(N_WRITE);
    let col = ctx.rng.below(ncols(a));
    let replace = ctx.rng.chance(1, 2);
    let tag = ctx.rng.next();
    let dr = DRIVERS[a];
    ctx.log(|| format!("write {} {:?} col {col} by {} {}", dr.name(), h, WRITE_NAMES[path], key_kind(&key)));
    match guard(|| dr.write(&mut wm.w, key, h, path, col, replace, tag)) {
        Err(p) => ctx.viol(&["C02", "C10"], format!("write through {} panicked: {p}", WRITE_NAMES[path])),
        Ok(None) => {
            ctx.evals += 1;
            ctx.viol(&["C01", "C02", "C06"], format!("write through {} ({}) did not find live {:?}", WRITE_NAMES[path], key_kind(&key), h))
        }
        Ok(Some((old, new))) => {
            let e = wm.m.ents.get_mut(&raw).unwrap();
            let expected = e.vids[col];
            e.tags[col] = norm(a, col, tag);
            e.vids[col] = new;
            ctx.check(old == expected, &["C02", "C04"], || format!("write through {} reached the component of another entity", WRITE_NAMES[path]));
            ctx.stat("writes", 1);
        }
    }
}

/// Compares a complete pass with the set of live entities.
pub fn check_pass(ctx: &mut Ctx, wm: &mut WM, a: usize, rows: &[Row], what: &str, src: Src) {
    let dr = DRIVERS[a];
    let props: &[&str] = if src == Src::DestroyLoop { &["C07"] } else { &["C06"] };
    let mut seen = HashSet::new();
    for r in rows {
        let h = match r.h {
            Some(h) => h,
            None => continue,
        };
        ctx.evals += 1;
        if !seen.insert(h.raw()) {
            ctx.viol(props, format!("{what} on {} visited {:?} twice", dr.name(), h));
        }
        match wm.m.ents.get(&h.raw()) {
            Some(e) if e.a == a => {}
            _ => ctx.viol(props, format!("{what} on {} presented {:?}, which is not alive there", dr.name(), h)),
        }
    }
    let live = wm.m.arch[a].live.len();
    if seen.len() != live || rows.len() != live {
        ctx.viol(props, format!("{what} on {} presented {} items ({} distinct) for {live} entities", dr.name(), rows.len(), seen.len()));
    }
    let big = rows.len() > 300;
    for (i, r) in rows.iter().enumerate() {
        if big && i % 37 != 0 && i + 3 < rows.len() {
            // still compare the values, just not the direct handles
            if let (Some(h), Some(t)) = (r.h, r.tags.as_ref()) {
                if let Some(e) = wm.m.ents.get(&h.raw()) {
                    ctx.evals += 1;
                    if e.tags != *t {
                        let m = format!("{what} on {} shows wrong values for {:?}", dr.name(), h);
                        ctx.viol(&["C02", props[0]], m);
                    }
                }
            }
            continue;
        }
        if let Some(h) = r.h {
            if wm.m.ents.get(&h.raw()).map(|e| e.a == a).unwrap_or(false) {
                check_row(ctx, wm, h.raw(), r, src, what, "");
            }
        }
    }
}

pub fn op_iterate(ctx: &mut Ctx, wm: &mut WM, a: usize, path: usize) {
    let dr = DRIVERS[a];
    ctx.stat("passes", 1);
    let src = if path == 10 || path == 12 { Src::DestroyLoop } else { Src::Iter };
    match guard(|| dr.iterate(&mut wm.w, path)) {
        Err(p) => ctx.viol(&["C06", "C07", "C10"], format!("{} on {} panicked: {p}", ITER_NAMES[path], dr.name())),
        Ok(rows) => check_pass(ctx, wm, a, &rows, ITER_NAMES[path], src),
    }
}

pub fn op_global(ctx: &mut Ctx, wm: &mut WM, gi: usize, path: usize) {
    let g = GLOBALS[gi];
    let matched = g.matched();
    ctx.stat("global_passes", 1);
    let src = if path == 4 { "C07" } else { "C06" };
    let rows = match guard(|| g.iterate(&mut wm.w, path, 0)) {
        Err(p) => return ctx.viol(&["C05", "C06", "C10"], format!("query over {} panicked: {p}", g.name())),
        Ok(r) => r,
    };
    let mut seen = HashSet::new();
    for r in &rows {
        ctx.dig_hash(&r.h.raw());
        ctx.evals += 1;
        let col = match matched.iter().find(|(id, _)| *id == r.mid) {
            Some((_, c)) => *c,
            None => {
                ctx.viol(&["C05"], format!("query over {} ran on archetype {}", g.name(), r.mid));
                continue;
            }
        };
        if !seen.insert(r.h.raw()) {
            ctx.viol(&[src], format!("query over {} visited {:?} twice", g.name(), r.h));
        }
        match wm.m.ents.get(&r.h.raw()) {
            Some(e) => {
                if DRIVERS[e.a].id() != r.mid {
                    ctx.viol(&["C05", src], format!("query over {}: {:?} visited under archetype {}", g.name(), r.h, r.mid));
                }
                if let (Some(c), Some(t)) = (col, r.tag) {
                    if e.tags[c] != t {
                        ctx.viol(&["C02", "C05", src], format!("query over {}: {:?} shows {:x}, last written {:x}", g.name(), r.h, t, e.tags[c]));
                    }
                    ctx.dig(t);
                }
                let a = e.a;
                if ctx.rng.chance(1, 8) {
                    wm.m.issue_direct(a, r.d, r.h.raw());
                    let i = wm.m.directs.len() - 1;
                    probe_direct(ctx, wm, i, false);
                }
            }
            None => ctx.viol(&[src], format!("query over {} presented {:?}, which is not alive", g.name(), r.h)),
        }
    }
    let expect: usize = matched.iter().map(|(id, _)| by_id(*id).map(|a| if a < wm.m.arch.len() { wm.m.arch[a].live.len() } else { 0 }).unwrap_or(0)).sum();
    ctx.check(rows.len() == expect, &["C05", src], || format!("query over {} presented {} items for {expect} matching entities", g.name(), rows.len()));
    // Break ends the query across archetypes
    if expect > 0 {
        let k = 1 + ctx.rng.below(expect);
        match guard(|| g.iterate(&mut wm.w, path, k)) {
            Err(p) => ctx.viol(&["C06", "C10"], format!("query over {} panicked: {p}", g.name())),
            Ok(r) => {
                ctx.check(r.len() == k, &[src], || format!("query over {} made {} calls although call {k} returned Break", g.name(), r.len()));
            }
        }
    }
}

pub fn op_global_find(ctx: &mut Ctx, wm: &mut WM, gi: usize, raw: Raw) {
    let g = GLOBALS[gi];
    let e = wm.m.ents[&raw].clone();
    let key = live_key(ctx, wm, raw);
    // multi-archetype finds take dynamically typed keys
    let key = match key {
        Key::E(h) => Key::A(h),
        Key::D(d) => Key::X(d),
        k => k,
    };
    let borrow = ctx.rng.chance(1, 2);
    let mut calls = 0;
    let id = DRIVERS[e.a].id();
    let col = g.matched().iter().find(|(i, _)| *i == id).map(|(_, c)| *c);
    match guard(|| g.find(&mut wm.w, key, borrow, &mut calls)) {
        Err(p) => ctx.viol(&["C05", "C10"], format!("find over {} panicked: {p}", g.name())),
        Ok(None) => {
            ctx.check(col.is_none(), &["C05", "C01"], || format!("find over {} missed live {:?} of {}", g.name(), e.h, DRIVERS[e.a].name()));
            ctx.check(calls == 0, &["C05"], || "find returned None but ran the closure".into());
        }
        Ok(Some(r)) => {
            ctx.check(calls == 1, &["C05"], || format!("find ran the closure {calls} times"));
            match col {
                None => ctx.viol(&["C05"], format!("find over {} acted on archetype {}", g.name(), DRIVERS[e.a].name())),
                Some(c) => {
                    ctx.check(r.h == e.h && r.mid == id, &["C01", "C05"], || format!("find over {} reached {:?} instead of {:?}", g.name(), r.h, e.h));
                    if let (Some(c), Some(t)) = (c, r.tag) {
                        ctx.check(t == e.tags[c], &["C02", "C05"], || format!("find over {}: {:?} shows {:x}, last written {:x}", g.name(), e.h, t, e.tags[c]));
                    }
                    wm.m.issue_direct(e.a, r.d, raw);
                }
            }
        }
    }
}

/// ecs_iter_destroy! with decisions drawn by `decide`.
pub fn op_iter_destroy(ctx: &mut Ctx, wm: &mut WM, a: usize, decisions: &[Dec]) {
    let dr = DRIVERS[a];
    ctx.log(|| format!("iter_destroy {} {:?}", dr.name(), decisions));
    ctx.stat("destroy_loops", 1);
    let before: HashSet<Raw> = wm.m.arch[a].live.iter().copied().collect();
    let mut visits: Vec<(Row, Dec)> = Vec::new();
    let r = guard(|| {
        dr.iter_destroy(&mut wm.w, &mut |row| {
            let d = decisions.get(visits.len()).copied().unwrap_or(Dec::Cont);
            visits.push((row, d));
            d
        })
    });
    if let Err(p) = r {
        ctx.viol(&["C07", "C10"], format!("ecs_iter_destroy! on {} panicked: {p}", dr.name()));
        return;
    }
    let first_direct = wm.m.directs.len();
    let mut seen = HashSet::new();
    let mut stop_at = None;
    let mut flagged = Vec::new();
    for (i, (row, d)) in visits.iter().enumerate() {
        if let Some(s) = stop_at {
            ctx.viol(&["C07"], format!("ecs_iter_destroy! on {} called the closure again after {:?} at visit {s}", dr.name(), d));
            break;
        }
        let h = row.h.unwrap();
        ctx.evals += 1;
        if !before.contains(&h.raw()) {
            ctx.viol(&["C07"], format!("ecs_iter_destroy! visited {:?}, which was not alive when the loop started", h));
            continue;
        }
        if !seen.insert(h.raw()) {
            ctx.viol(&["C07"], format!("ecs_iter_destroy! visited {:?} twice", h));
        }
        if wm.m.ents.contains_key(&h.raw()) {
            check_row(ctx, wm, h.raw(), row, Src::DestroyLoop, "ecs_iter_destroy!", "");
        }
        match d {
            Dec::Cont | Dec::Boom => {}
            Dec::Break => stop_at = Some(i),
            Dec::ContDestroy => flagged.push(h),
            Dec::BreakDestroy => {
                flagged.push(h);
                stop_at = Some(i)
            }
        }
        if matches!(d, Dec::ContDestroy | Dec::BreakDestroy) && wm.m.ents.contains_key(&h.raw()) {
            let e = wm.m.remove(h.raw());
            for v in e.vids.iter().filter(|v| **v != 0) {
                ctx.check(!ledger::is_alive(*v), &["C04", "C07"], || format!("component {v} of flagged {:?} is still alive", h));
            }
        }
    }
    if stop_at.is_none() {
        ctx.check(seen.len() == before.len(), &["C07"], || format!("ecs_iter_destroy! on {} visited {} of {} entities", dr.name(), seen.len(), before.len()));
    }
    // Direct handles handed out by the loop: those issued after its last removal are valid now, the
    // others are stale.
    forget_undecided(wm, first_direct, !flagged.is_empty());
    let last = wm.m.directs.len();
    for i in first_direct..last {
        probe_direct(ctx, wm, i, ctx.prop == "C09" && last - first_direct < 12);
    }
    for h in &flagged {
        let path = ctx.rng.below(N_LOOKUP);
        let any = ctx.rng.chance(1, 2);
        match guard(|| dr.lookup(&mut wm.w, if any { Key::A(*h) } else { Key::E(*h) }, path)) {
            Ok(None) => ctx.evals += 1,
            Ok(Some(_)) => ctx.viol(&["C07", "C01"], format!("{:?} flagged for destruction is still reachable", h)),
            Err(p) => ctx.viol(&["C07", "C10"], format!("lookup of flagged {:?} panicked: {p}", h)),
        }
    }
    for raw in before.iter() {
        if let Some(e) = wm.m.ents.get(raw).cloned() {
            let path = [2, 5, 7, 9, 12][ctx.rng.below(5)];
            match guard(|| dr.lookup(&mut wm.w, Key::E(e.h), path)) {
                Ok(Some(r)) => {
                    ctx.check(r.h == Some(e.h) && r.tags.as_ref() == Some(&e.tags), &["C07", "C02"], || format!("survivor {:?} of ecs_iter_destroy! changed", e.h));
                }
                Ok(None) => {
                    ctx.viol(&["C07", "C01"], format!("survivor {:?} of ecs_iter_destroy! is unreachable", e.h));
                }
                Err(p) => ctx.viol(&["C07", "C10"], format!("lookup of survivor {:?} panicked: {p}", e.h)),
            }
        }
    }
    let len = dr.len(&wm.w);
    ctx.check(len == wm.m.arch[a].live.len(), &["C07", "C12"], || format!("len {len} after ecs_iter_destroy! with {} survivors", wm.m.arch[a].live.len()));
}

/// When the loop destroys only after it has handed out its handles, they may all be stale.
fn forget_undecided(wm: &mut WM, first: usize, removed: bool) {
    if removed && !destroys_at_once() {
        let m = &mut wm.m;
        let arch = &m.arch;
        let tail: Vec<Direct> = m.directs.drain(first..).filter(|d| d.removals < arch[d.a].removals).collect();
        m.directs.extend(tail);
    }
}

pub fn op_global_iter_destroy(ctx: &mut Ctx, wm: &mut WM, gi: usize, decisions: &[Dec]) {
    let g = GLOBALS[gi];
    ctx.log(|| format!("global iter_destroy {} {:?}", g.name(), decisions));
    ctx.stat("destroy_loops", 1);
    let matched = g.matched();
    let mut before = HashSet::new();
    for (id, _) in &matched {
        let a = by_id(*id).unwrap();
        if a < wm.m.arch.len() {
            before.extend(wm.m.arch[a].live.iter().copied());
        }
    }
    let mut visits: Vec<(GRow, Dec)> = Vec::new();
    let r = guard(|| {
        g.iter_destroy(&mut wm.w, &mut |row| {
            let d = decisions.get(visits.len()).copied().unwrap_or(Dec::Cont);
            visits.push((row, d));
            d
        })
    });
    if let Err(p) = r {
        return ctx.viol(&["C07", "C10"], format!("ecs_iter_destroy! over {} panicked: {p}", g.name()));
    }
    let first_direct = wm.m.directs.len();
    let mut seen = HashSet::new();
    let mut stopped = false;
    let mut removed = false;
    for (row, d) in &visits {
        ctx.evals += 1;
        if stopped {
            ctx.viol(&["C07"], format!("ecs_iter_destroy! over {} went on after a break", g.name()));
            break;
        }
        let raw = row.h.raw();
        if !before.contains(&raw) || !seen.insert(raw) {
            ctx.viol(&["C07"], format!("ecs_iter_destroy! over {} visited {:?} wrongly", g.name(), row.h));
            continue;
        }
        let e = wm.m.ents[&raw].clone();
        let col = matched.iter().find(|(id, _)| *id == row.mid).and_then(|m| m.1);
        if let (Some(c), Some(t)) = (col, row.tag) {
            ctx.check(e.tags[c] == t, &["C02", "C07"], || format!("ecs_iter_destroy! over {}: {:?} shows {:x}, last written {:x}", g.name(), row.h, t, e.tags[c]));
        }
        wm.m.issue_direct(e.a, row.d, raw);
        stopped = matches!(d, Dec::Break | Dec::BreakDestroy);
        if matches!(d, Dec::ContDestroy | Dec::BreakDestroy) {
            wm.m.remove(raw);
            removed = true;
        }
    }
    forget_undecided(wm, first_direct, removed);
    if !stopped {
        ctx.check(seen.len() == before.len(), &["C07"], || format!("ecs_iter_destroy! over {} visited {} of {} entities", g.name(), seen.len(), before.len()));
    }
    let last = wm.m.directs.len();
    for i in first_direct..last {
        probe_direct(ctx, wm, i, false);
    }
    for a in 0..wm.m.arch.len() {
        let len = DRIVERS[a].len(&wm.w);
        let want = wm.m.arch[a].live.len();
        ctx.check(len == want, &["C07", "C12"], || format!("len of {} is {len} after ecs_iter_destroy! with {want} survivors", DRIVERS[a].name()));
    }
}

pub fn rand_decisions(ctx: &mut Ctx, n: usize) -> Vec<Dec> {
    let brk = ctx.rng.chance(1, 3);
    let density = ctx.rng.below(5) as u32;
    (0..n)
        .map(|_| {
            let destroy = ctx.rng.chance(density, 4);
            let b = brk && ctx.rng.chance(1, (n as u32).max(2));
            match (destroy, b) {
                (false, false) => Dec::Cont,
                (true, false) => Dec::ContDestroy,
                (false, true) => Dec::Break,
                (true, true) => Dec::BreakDestroy,
            }
        })
        .collect()
}

/// Cheap invariants checked after every operation.
pub fn after_op(ctx: &mut Ctx, wms: &mut [WM]) {
    for e in ledger::take_errors() {
        ctx.viol(MEM, e);
    }
    let (live, zd) = (ledger::with(|l| l.live), ledger::zst_live("Zd"));
    let want: usize = wms.iter().map(|w| w.m.tracked()).sum();
    let zwant: i64 = wms.iter().map(|w| w.m.zst()).sum();
    ctx.check(live == want, &["C04"], || format!("{live} tracked component values alive, {want} expected"));
    ctx.check(zd == zwant, &["C04"], || format!("{zd} zero-sized component values alive, {zwant} expected"));
    for wm in wms.iter_mut() {
        for a in 0..wm.m.arch.len() {
            let dr = DRIVERS[a];
            let (len, cap, emp) = (dr.len(&wm.w), dr.cap(&wm.w), dr.is_empty(&wm.w));
            let ma = &mut wm.m.arch[a];
            let (mlen, mcap) = (ma.live.len(), ma.cap);
            ma.cap = mcap.max(cap);
            ctx.check(len == mlen && emp == (len == 0), &["C12"], || format!("len {len} (is_empty {emp}) of {} with {mlen} live entities", dr.name()));
            ctx.check(cap >= mcap && cap >= len, &["C12"], || format!("capacity of {} is {cap}, was {mcap}, len {len}", dr.name()));
        }
    }
}

#[cfg(feature = "events")]
pub fn check_events(ctx: &mut Ctx, wm: &mut WM) {
    fn bag(v: &[EntityAny]) -> HashMap<Raw, usize> {
        let mut m = HashMap::new();
        for e in v {
            *m.entry(e.raw()).or_insert(0) += 1;
        }
        m
    }
    let (mut wc, mut wd) = (Vec::new(), Vec::new());
    for a in 0..DRIVERS.len() {
        let dr = DRIVERS[a];
        let (c, d) = dr.events(&wm.w);
        if a < wm.m.arch.len() {
            let ma = &wm.m.arch[a];
            let (ok_c, ok_d) = (bag(&c) == bag(&ma.created), bag(&d) == bag(&ma.destroyed));
            let (lc, ld) = (ma.created.len(), ma.destroyed.len());
            ctx.check(ok_c, &["C17"], || format!("created events of {}: {} logged, {lc} happened: {:?}", dr.name(), c.len(), c.iter().take(6).collect::<Vec<_>>()));
            ctx.check(ok_d, &["C17"], || format!("destroyed events of {}: {} logged, {ld} happened: {:?}", dr.name(), d.len(), d.iter().take(6).collect::<Vec<_>>()));
            ctx.stat("events_seen", (c.len() + d.len()) as u64);
        }
        wc.extend(c);
        wd.extend(d);
    }
    match guard(|| world_events(&wm.w)) {
        Ok((c, d, errs)) => {
            for e in errs {
                ctx.viol(&["C17"], e);
            }
            ctx.check(bag(&c) == bag(&wc), &["C17"], || "world iter_created differs from the archetypes' logs".into());
            ctx.check(bag(&d) == bag(&wd), &["C17"], || "world iter_destroyed differs from the archetypes' logs".into());
        }
        Err(p) => ctx.viol(&["C17"], format!("event iteration panicked: {p}")),
    }
}

pub fn clear_events(ctx: &mut Ctx, wm: &mut WM, a: Option<usize>) {
    let _ = &ctx;
    match a {
        None => {
            #[cfg(feature = "events")]
            wm.w.clear_events();
            for ma in wm.m.arch.iter_mut() {
                ma.created.clear();
                ma.destroyed.clear();
            }
        }
        Some(a) => {
            #[cfg(feature = "events")]
            DRIVERS[a].clear_events(&mut wm.w);
            wm.m.arch[a].created.clear();
            wm.m.arch[a].destroyed.clear();
        }
    }
}

/// Audits one archetype: every iteration path, break counts, lookups of live and dead handles.
pub fn audit_arch(ctx: &mut Ctx, wm: &mut WM, a: usize, depth: usize) {
    let thin = ctx.mini;
    let n = wm.m.arch[a].live.len();
    if thin && n == 0 && wm.m.arch[a].dead.is_empty() && ctx.rng.chance(7, 8) {
        return;
    }
    let dr = DRIVERS[a];
    ctx.seen("audit-shape", ((a as u64) << 40) | ((n.min(1000) as u64) << 16) | (wm.m.arch[a].dead.len().min(60000) as u64));
    // iteration paths
    if n <= 2000 {
        for p in 0..N_ITER {
            if (n > 64 || thin) && !ctx.rng.chance(1, 3) {
                continue;
            }
            op_iterate(ctx, wm, a, p);
        }
    } else {
        let p = ctx.rng.below(N_ITER);
        op_iterate(ctx, wm, a, p);
    }
    if n <= 400 && (!thin || ctx.rng.chance(1, 8)) {
        ctx.stat("adapter_checks", 1);
        match guard(|| dr.adapters(&mut wm.w)) {
            Ok(v) => {
                ctx.evals += 1;
                for e in v {
                    ctx.viol(&["C06"], format!("{} on {}", e, dr.name()));
                }
            }
            Err(p) => ctx.viol(&["C06", "C10"], format!("consuming iter() or iter_mut() on {} panicked: {p}", dr.name())),
        }
    }
    match guard(|| dr.slice_lens(&mut wm.w)) {
        Ok(v) => {
            let ok = v.iter().all(|l| *l == n);
            ctx.check(ok, &["C06", "C12"], || format!("slice lengths {:?} of {} with {n} entities", v, dr.name()));
        }
        Err(p) => ctx.viol(&["C06", "C10"], format!("slice access on {} panicked: {p}", dr.name())),
    }
    for _ in 0..2 {
        if n > 0 {
            let k = 1 + ctx.rng.below(n);
            let p = ctx.rng.below(5);
            match guard(|| dr.iter_break(&mut wm.w, p, k)) {
                Ok(calls) => {
                    ctx.check(calls == k, &[if p == 4 { "C07" } else { "C06" }], || format!("{calls} calls on {} although call {k} returned Break", dr.name()));
                }
                Err(p) => ctx.viol(&["C06", "C10"], format!("iteration with break panicked: {p}")),
            }
        }
    }
    // live handles
    let step = (n / depth).max(1);
    let start = if step > 1 { ctx.rng.below(step) } else { 0 };
    for i in (start..n).step_by(step) {
        let raw = wm.m.arch[a].live[i];
        let h = wm.m.ents[&raw].h;
        for p in 0..N_LOOKUP {
            if thin && !ctx.rng.chance(1, 5) {
                continue;
            }
            let key = if (p + i) % 2 == 0 { Key::E(h) } else { Key::A(h) };
            op_lookup(ctx, wm, raw, key, p);
        }
        let key = live_key(ctx, wm, raw);
        for _ in 0..3 {
            let p = ctx.rng.below(N_LOOKUP);
            op_lookup(ctx, wm, raw, key, p);
        }
    }
    // dead handles
    let n = wm.m.arch[a].dead.len();
    let step = (n / (2 * depth)).max(1);
    let start = if step > 1 { ctx.rng.below(step) } else { 0 };
    for i in (start..n).step_by(step) {
        let h = wm.m.arch[a].dead[i];
        for p in 0..N_LOOKUP {
            if thin && !ctx.rng.chance(1, 5) {
                continue;
            }
            op_lookup_dead(ctx, wm, a, h, p, (p + i) % 2 == 0);
        }
        op_destroy_dead(ctx, wm, a, h, i % 2 == 0, i % 4 < 2);
    }
}

/// Full audit of one world: every iteration path, every lookup path over a sample of live and dead
/// handles, direct handles, events, slices.
pub fn audit(ctx: &mut Ctx, wm: &mut WM, depth: usize) {
    ctx.stat("audits", 1);
    for a in 0..wm.m.arch.len() {
        audit_arch(ctx, wm, a, depth);
    }
    // direct handles
    let n = wm.m.directs.len();
    for _ in 0..(4 * depth).min(n) {
        let i = if ctx.rng.chance(1, 2) { ctx.rng.below(n) } else { n - 1 - ctx.rng.below(n.min(64)) };
        probe_direct(ctx, wm, i, false);
    }
    #[cfg(feature = "events")]
    check_events(ctx, wm);
    for e in ledger::take_errors() {
        ctx.viol(MEM, e);
    }
}

/// world.clone() with clone accounting; returns the clone.
pub fn op_clone(ctx: &mut Ctx, wm: &mut WM) -> Option<WM> {
    ctx.log(|| "clone".into());
    ctx.stat("world_clones", 1);
    let zd_before = ledger::zst_live("Zd");
    ledger::with(|l| {
        l.clone_log = Some(Vec::new());
        l.plain_clones = 0;
    });
    let r = guard(|| wm.w.clone());
    let log = ledger::with(|l| l.clone_log.take()).unwrap_or_default();
    let w2 = match r {
        Ok(w) => w,
        Err(p) => {
            ctx.viol(&["C13", "C10"], format!("clone panicked: {p}"));
            return None;
        }
    };
    let mut map: HashMap<u64, u64> = HashMap::new();
    for (s, d) in &log {
        if map.insert(*s, *d).is_some() {
            ctx.viol(&["C04", "C13"], format!("component {s} cloned more than once by world.clone()"));
        }
    }
    let want: HashSet<u64> = wm.m.ents.values().flat_map(|e| e.vids.iter().copied()).filter(|v| *v != 0).collect();
    ctx.check(map.len() == want.len() && map.keys().all(|k| want.contains(k)), &["C04", "C13"], || format!("world.clone() cloned {} components, {} are alive", map.len(), want.len()));
    let nd = ledger::with(|l| l.plain_clones);
    let pods = wm.m.ents.values().filter(|e| e.h.archetype_id() == ArchPod::ARCHETYPE_ID).count() as u64;
    ctx.check(nd == pods, &["C04", "C13"], || format!("world.clone() called Clone {nd} times on a component of which {pods} are alive"));
    let zd = ledger::zst_live("Zd") - zd_before;
    let zw = wm.m.zst();
    ctx.check(zd == zw, &["C04", "C13"], || format!("world.clone() cloned {zd} zero-sized components, {zw} are alive"));
    let mut m2 = wm.m.clone();
    for e in m2.ents.values_mut() {
        for v in e.vids.iter_mut() {
            if *v != 0 {
                *v = map.get(v).copied().unwrap_or(u64::MAX);
            }
        }
    }
    for a in 0..m2.arch.len() {
        let dr = DRIVERS[a];
        let (l1, c1, l2, c2) = (dr.len(&wm.w), dr.cap(&wm.w), dr.len(&w2), dr.cap(&w2));
        ctx.check(l1 == l2 && c1 == c2, &["C13", "C12"], || format!("clone of {}: len {l1} -> {l2}, capacity {c1} -> {c2}", dr.name()));
        let (e1, e2) = (dr.entities(&wm.w), dr.entities(&w2));
        ctx.check(e1 == e2, &["C13"], || format!("clone of {} lists other entities", dr.name()));
    }
    let n0 = ctx.viols.len();
    let mut c = WM { w: w2, m: m2 };
    audit(ctx, &mut c, 6);
    // Direct handles valid in the original must be valid in the clone.
    let valid: Vec<usize> = (0..c.m.directs.len())
        .rev()
        .filter(|i| {
            let d = &c.m.directs[*i];
            c.m.arch[d.a].removals == d.removals && c.m.arch[d.a].creations == d.creations
        })
        .take(40)
        .collect();
    for i in valid {
        probe_direct(ctx, &mut c, i, false);
    }
    // any divergence seen through the fresh clone is (also) a clone divergence
    for v in ctx.viols[n0..].iter_mut() {
        v.props.push("C13");
    }
    Some(c)
}

/// Drops a world and checks that exactly its components go away.
pub fn op_drop(ctx: &mut Ctx, wm: WM) {
    ctx.log(|| "drop world".into());
    let WM { w, m } = wm;
    ledger::with(|l| l.drop_log = Some(Vec::new()));
    let r = guard(move || drop(w));
    let log = ledger::with(|l| l.drop_log.take()).unwrap_or_default();
    if let Err(p) = r {
        ctx.viol(&["C04", "C10"], format!("dropping the world panicked: {p}"));
        return;
    }
    let want: HashSet<u64> = m.ents.values().flat_map(|e| e.vids.iter().copied()).filter(|v| *v != 0).collect();
    let got: HashSet<u64> = log.iter().copied().collect();
    ctx.check(log.len() == got.len() && got == want, &["C04"], || {
        format!("dropping the world dropped {} components, {} were alive in it", log.len(), want.len())
    });
    ctx.stat("world_drops", 1);
}

pub struct Profile {
    pub max_live: usize,
    pub ops: usize,
    pub audit_every: usize,
    pub depth: usize,
    pub clones: bool,
    pub weights: [u32; 16],
}

pub const W_CREATE: usize = 0;
pub const W_DESTROY: usize = 1;
pub const W_LOOKUP: usize = 2;
pub const W_DEAD: usize = 3;
pub const W_WRITE: usize = 4;
pub const W_SWAP: usize = 5;
pub const W_ITER: usize = 6;
pub const W_GLOBAL: usize = 7;
pub const W_ITERDESTROY: usize = 8;
pub const W_GITERDESTROY: usize = 9;
pub const W_DIRECT: usize = 10;
pub const W_PROBE: usize = 11;
pub const W_EVENTS: usize = 12;
pub const W_CLONE: usize = 13;
pub const W_BURST: usize = 14;
pub const W_REFILL: usize = 15;

pub fn profile(prop: &str, scale: usize) -> Profile {
    //               cr  de  lo  dead wr  sw  it  gl  id  gid di  pr  ev  cl  bu  re
    let mut w = [30, 22, 10, 6, 14, 3, 6, 4, 3, 2, 8, 8, 2, 1, 2, 2];
    let mut p = Profile { max_live: 24, ops: 260 * scale, audit_every: 60, depth: 8, clones: false, weights: w };
    match prop {
        "C01" => {
            w[W_DEAD] = 20;
        }
        "C02" => {
            w[W_WRITE] = 34;
            w[W_SWAP] = 8;
            w[W_CLONE] = 2;
            p.clones = true;
        }
        "C04" => {
            w[W_CLONE] = 4;
            p.clones = true;
        }
        "C05" | "C06" => {
            w[W_ITER] = 20;
            w[W_GLOBAL] = 20;
        }
        "C07" => {
            w[W_ITERDESTROY] = 16;
            w[W_GITERDESTROY] = 16;
            w[W_CREATE] = 50;
            p.audit_every = 90;
        }
        "C08" => {
            w[W_DESTROY] = 40;
            w[W_CREATE] = 44;
        }
        "C09" => {
            w[W_DIRECT] = 24;
            w[W_PROBE] = 40;
        }
        "C12" => {
            w[W_REFILL] = 8;
            w[W_BURST] = 8;
        }
        "C13" => {
            w[W_CLONE] = 6;
            w[W_REFILL] = 4;
            p.clones = true;
        }
        "C17" => {
            w[W_EVENTS] = 10;
            w[W_ITERDESTROY] = 8;
            w[W_GITERDESTROY] = 8;
            w[W_CLONE] = 2;
            p.clones = true;
        }
        _ => {
            w[W_CLONE] = 2;
            p.clones = true;
        }
    }
    p.weights = w;
    if scale == 0 {
        // For the interpreter.
        p.ops = 30;
        p.max_live = 5;
        p.depth = 1;
        p.audit_every = 30;
    }
    p
}

/// One random operation on world `wi`.
pub fn step(ctx: &mut Ctx, p: &Profile, wms: &mut Vec<WM>, wi: usize, focus: &[usize], max_live: usize) {
    let total: u32 = p.weights.iter().sum();
    let mut op = 0;
    let mut r = ctx.rng.below(total as usize) as u32;
    while r >= p.weights[op] {
        r -= p.weights[op];
        op += 1;
    }
    let a = *ctx.rng.pick(focus);
    let n = wms[wi].m.arch[a].live.len();
    let live = |ctx: &mut Ctx, wms: &[WM]| -> Option<Raw> {
        if n == 0 {
            None
        } else {
            let i = match ctx.rng.below(6) {
                0 => 0,
                1 => n - 1,
                _ => ctx.rng.below(n),
            };
            Some(wms[wi].m.arch[a].live[i])
        }
    };
    let wm = &mut wms[wi];
    ctx.stat("ops", 1);
    match op {
        W_CREATE => {
            if n < max_live {
                let path = ctx.rng.below(N_CREATE);
                op_create(ctx, wm, a, path);
            } else {
                let path = *ctx.rng.pick(&BOUNDED);
                op_create(ctx, wm, a, path);
            }
        }
        W_DESTROY => {
            if let Some(raw) = live(ctx, wms) {
                let wm = &mut wms[wi];
                let key = live_key(ctx, wm, raw);
                let wl = ctx.rng.chance(1, 2);
                op_destroy(ctx, wm, raw, key, wl);
            }
        }
        W_LOOKUP => {
            if let Some(raw) = live(ctx, wms) {
                let wm = &mut wms[wi];
                let key = live_key(ctx, wm, raw);
                let path = ctx.rng.below(N_LOOKUP);
                op_lookup(ctx, wm, raw, key, path);
            }
        }
        W_DEAD => {
            let d = wm.m.arch[a].dead.len();
            if d > 0 {
                let i = if ctx.rng.chance(1, 2) { d - 1 - ctx.rng.below(d.min(4)) } else { ctx.rng.below(d) };
                let h = wm.m.arch[a].dead[i];
                let path = ctx.rng.below(N_LOOKUP);
                let any = ctx.rng.chance(1, 2);
                op_lookup_dead(ctx, wm, a, h, path, any);
                let wl = ctx.rng.chance(1, 2);
                op_destroy_dead(ctx, wm, a, h, any, wl);
            }
        }
        W_WRITE => {
            if let Some(raw) = live(ctx, wms) {
                op_write(ctx, &mut wms[wi], raw);
            }
        }
        W_SWAP => {
            if n >= 2 {
                let (i, j) = (ctx.rng.below(n), ctx.rng.below(n));
                let col = ctx.rng.below(ncols(a));
                let path = ctx.rng.below(3);
                let es = DRIVERS[a].entities(&wm.w);
                if es.len() == n && wm.m.ents.contains_key(&es[i].raw()) && wm.m.ents.contains_key(&es[j].raw()) {
                    match guard(|| DRIVERS[a].swap(&mut wm.w, path, col, i, j)) {
                        Ok(()) => {
                            let (ri, rj) = (es[i].raw(), es[j].raw());
                            let (ti, vi) = (wm.m.ents[&ri].tags[col], wm.m.ents[&ri].vids[col]);
                            let (tj, vj) = (wm.m.ents[&rj].tags[col], wm.m.ents[&rj].vids[col]);
                            let e = wm.m.ents.get_mut(&ri).unwrap();
                            e.tags[col] = tj;
                            e.vids[col] = vj;
                            let e = wm.m.ents.get_mut(&rj).unwrap();
                            e.tags[col] = ti;
                            e.vids[col] = vi;
                        }
                        Err(p) => ctx.viol(&["C02", "C10"], format!("slice swap panicked: {p}")),
                    }
                }
            }
        }
        W_ITER => {
            let p = ctx.rng.below(N_ITER);
            op_iterate(ctx, wm, a, p);
        }
        W_GLOBAL => {
            let g = ctx.rng.below(GLOBALS.len());
            let path = ctx.rng.below(N_GITER);
            op_global(ctx, wm, g, path);
            if let Some(raw) = live(ctx, wms) {
                op_global_find(ctx, &mut wms[wi], g, raw);
            }
        }
        W_ITERDESTROY => {
            let d = rand_decisions(ctx, n);
            op_iter_destroy(ctx, wm, a, &d);
        }
        W_GITERDESTROY => {
            let g = ctx.rng.below(GLOBALS.len());
            let n: usize = wm.m.arch.iter().map(|a| a.live.len()).sum();
            let mut d = rand_decisions(ctx, n);
            if n > 12 && ctx.rng.chance(2, 3) {
                // keep populations alive
                for x in d.iter_mut() {
                    if *x == Dec::ContDestroy && ctx.rng.chance(2, 3) {
                        *x = Dec::Cont;
                    }
                }
            }
            op_global_iter_destroy(ctx, wm, g, &d);
        }
        W_DIRECT => {
            if let Some(raw) = live(ctx, wms) {
                let wm = &mut wms[wi];
                let h = wm.m.ents[&raw].h;
                let p = [3, 4, 9, 10, 11, 12][ctx.rng.below(6)];
                let key = if ctx.rng.chance(1, 2) { Key::E(h) } else { Key::A(h) };
                op_lookup(ctx, wm, raw, key, p);
                if !wm.m.directs.is_empty() {
                    let i = wm.m.directs.len() - 1;
                    probe_direct(ctx, wm, i, ctx.prop == "C09");
                }
            }
        }
        W_PROBE => {
            let d = wm.m.directs.len();
            if d > 0 {
                let i = if ctx.rng.chance(1, 2) { d - 1 - ctx.rng.below(d.min(12)) } else { ctx.rng.below(d) };
                let all = ctx.rng.chance(1, 8);
                probe_direct(ctx, wm, i, all);
                // Stale direct handles must not destroy anything either.
                let dd = wm.m.directs[i].clone();
                let stale = wm.m.arch[dd.a].removals != dd.removals;
                if stale {
                    let key = if ctx.rng.chance(1, 2) { Key::D(dd.d) } else { Key::X(dd.d) };
                    let wl = ctx.rng.chance(1, 2);
                    match guard(|| DRIVERS[dd.a].destroy(&mut wm.w, key, wl)) {
                        Ok(Destroyed::Absent) => ctx.evals += 1,
                        Ok(_) => ctx.viol(&["C09"], format!("destroy accepted stale direct handle {:?}", dd.d)),
                        Err(p) => ctx.viol(&["C09", "C10"], format!("destroy of a stale direct handle panicked: {p}")),
                    }
                }
            }
        }
        W_EVENTS => {
            #[cfg(feature = "events")]
            check_events(ctx, wm);
            if ctx.rng.chance(1, 3) {
                let which = if ctx.rng.chance(1, 2) { Some(a) } else { None };
                clear_events(ctx, wm, which);
            }
            #[cfg(feature = "events")]
            check_events(ctx, wm);
        }
        W_CLONE => {
            if p.clones && wms.len() < 3 {
                if let Some(c) = op_clone(ctx, &mut wms[wi]) {
                    wms.push(c);
                }
            } else if wms.len() > 1 {
                let c = wms.swap_remove(wi);
                op_drop(ctx, c);
            }
        }
        W_BURST => {
            let k = 1 + ctx.rng.below(12);
            if n < max_live * 2 {
                for _ in 0..k {
                    let path = ctx.rng.below(4);
                    op_create(ctx, wm, a, path);
                }
            }
            if ctx.rng.chance(1, 2) {
                let all: Vec<Raw> = wms[wi].m.arch[a].live.clone();
                let keep = ctx.rng.below(all.len().max(1));
                for raw in all.into_iter().skip(keep) {
                    let wm = &mut wms[wi];
                    let h = wm.m.ents[&raw].h;
                    op_destroy(ctx, wm, raw, Key::E(h), true);
                    if !ctx.viols.is_empty() {
                        break;
                    }
                }
            }
        }
        _ => {
            // Refill to capacity without growing: every freed position must be reusable.
            let cap = wm.m.arch[a].cap;
            if cap - n.min(cap) <= 80 {
                let mut k = n;
                while k < cap && ctx.viols.is_empty() {
                    let path = 4 + (k & 1);
                    if op_create(ctx, wm, a, path).is_none() {
                        break;
                    }
                    k += 1;
                }
                ctx.stat("refills", 1);
                op_create(ctx, wm, a, 4);
                if ctx.rng.chance(1, 4) && cap < 300 && n < max_live * 2 {
                    op_create(ctx, wm, a, 0);
                }
            }
        }
    }
}

/// A new world with random initial capacities, the archetypes to work on and a population bound.
pub fn fresh(ctx: &mut Ctx, p: &Profile) -> Option<(WM, Vec<usize>, usize)> {
    ledger::reset();
    let narch = ctx.narch;
    // Half of the histories concentrate on few archetypes so that they see deep reuse.
    let focus: Vec<usize> = if ctx.rng.chance(1, 2) {
        (0..1 + ctx.rng.below(2)).map(|_| ctx.rng.below(narch)).collect()
    } else {
        (0..narch).collect()
    };
    let max_live = match ctx.rng.below(6) {
        0 => 2,
        1 => 4,
        2 => p.max_live * 4,
        _ => p.max_live,
    };
    let mut capv = vec![0; DRIVERS.len()];
    if ctx.rng.chance(1, 2) {
        for c in capv.iter_mut().take(narch) {
            *c = [0, 1, 2, 3, 5, 8, 17, 64][ctx.rng.below(8)];
        }
    }
    let w = match guard(|| if capv.iter().all(|c| *c == 0) { W::new() } else { W::with_capacity(caps(&capv)) }) {
        Ok(w) => w,
        Err(p) => {
            ctx.viol(&["C12", "C10"], format!("world construction panicked: {p}"));
            return None;
        }
    };
    let mut m = Model::new(narch);
    for a in 0..narch {
        m.arch[a].cap = DRIVERS[a].cap(&w);
        m.arch[a].promised = capv[a];
        let (c, want) = (m.arch[a].cap, capv[a]);
        ctx.check(c >= want, &["C12"], || format!("with_capacity({want}) gave capacity {c}"));
        ctx.check(DRIVERS[a].len(&w) == 0, &["C12"], || "new world is not empty".into());
    }
    Some((WM { w, m }, focus, max_live))
}

/// Runs one random history. Returns false if it was abandoned.
pub fn history(ctx: &mut Ctx, p: &Profile) -> bool {
    let (wm, focus, max_live) = match fresh(ctx, p) {
        Some(x) => x,
        None => return false,
    };
    let mut wms = vec![wm];
    for step_no in 0..p.ops {
        let wi = ctx.rng.below(wms.len());
        step(ctx, p, &mut wms, wi, &focus, max_live);
        if ctx.viols.is_empty() {
            after_op(ctx, &mut wms);
        }
        if ctx.viols.is_empty() && (step_no + 1) % p.audit_every == 0 {
            let i = ctx.rng.below(wms.len());
            audit(ctx, &mut wms[i], p.depth);
        }
        if !ctx.viols.is_empty() {
            // finish the picture for attribution, then stop
            for wm in wms.iter_mut() {
                let _ = guard(|| audit(ctx, wm, 12));
            }
            std::mem::forget(wms);
            return false;
        }
        if wms.iter().any(|w| w.m.directs.len() > 4000) {
            for wm in wms.iter_mut() {
                let d = wm.m.directs.len();
                if d > 4000 {
                    wm.m.directs.drain(0..d - 2000);
                }
            }
        }
    }
    finish(ctx, wms, p.depth)
}

/// Final audit, drop of every world and leak check.
pub fn finish(ctx: &mut Ctx, mut wms: Vec<WM>, depth: usize) -> bool {
    for wm in wms.iter_mut() {
        audit(ctx, wm, depth);
    }
    if !ctx.viols.is_empty() {
        std::mem::forget(wms);
        return false;
    }
    for wm in wms {
        op_drop(ctx, wm);
    }
    for e in ledger::take_errors() {
        ctx.viol(MEM, e);
    }
    let left = ledger::with(|l| l.live);
    ctx.check(left == 0, &["C04"], || format!("{left} component values leaked"));
    let z = ledger::zst_live("Zd");
    ctx.check(z == 0, &["C04"], || format!("{z} zero-sized component values leaked"));
    let d = ctx.digest;
    ctx.seen("history", d);
    ctx.viols.is_empty()
}
