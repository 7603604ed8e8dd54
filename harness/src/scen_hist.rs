//! Scenarios on the main world: breaks, decision tables, clone divergence, injected faults, counter
//! boundaries, forged handles, large populations.
use crate::ctx::{guard, Ctx};
use crate::engine::*;
use crate::ledger;
use crate::rng::{mix, Rng};
use crate::world::*;
use gecs::prelude::*;
use std::collections::{HashMap, HashSet};

/// A world after a short random history, audited. None if something diverged already.
fn start(ctx: &mut Ctx, p: &Profile, ops: usize) -> Option<(Vec<WM>, Vec<usize>, usize)> {
    let (wm, focus, max_live) = fresh(ctx, p)?;
    let mut wms = vec![wm];
    for _ in 0..ops {
        step(ctx, p, &mut wms, 0, &focus, max_live);
        if ctx.viols.is_empty() {
            after_op(ctx, &mut wms);
        }
        if !ctx.viols.is_empty() {
            std::mem::forget(wms);
            return None;
        }
    }
    Some((wms, focus, max_live))
}

fn no_clones(prop: &str, scale: usize) -> Profile {
    let mut p = profile(prop, scale);
    p.clones = false;
    p
}

fn abandon(ctx: &Ctx, wms: Vec<WM>) -> bool {
    if !ctx.viols.is_empty() {
        std::mem::forget(wms);
        return true;
    }
    drop(wms);
    false
}

// ---- C17: every pattern of empty and non-empty logs ---------------------------------------------------

/// Item i: the created log is non-empty exactly in the archetypes of the bits of i, the destroyed log in
/// those of a second mask.
#[cfg(feature = "events")]
pub fn evt(ctx: &mut Ctx, item: usize, scale: usize) {
    let p = no_clones("C17", scale);
    let (mut wms, _, _) = match start(ctx, &p, 0) {
        Some(x) => x,
        None => return,
    };
    let n_arch = wms[0].m.arch.len();
    let cmask = item & ((1 << n_arch) - 1);
    let dmask = (item.wrapping_mul(37) ^ (item >> n_arch)) & ((1 << n_arch) - 1);
    let wm = &mut wms[0];
    clear_events(ctx, wm, None);
    // residents whose creation is not pending, to be destroyed later
    for a in 0..n_arch {
        if dmask >> a & 1 == 1 {
            for k in 0..1 + ctx.rng.below(4) {
                op_create(ctx, wm, a, k & 3);
            }
        }
    }
    check_events(ctx, wm);
    clear_events(ctx, wm, None);
    check_events(ctx, wm);
    for a in 0..n_arch {
        if dmask >> a & 1 == 1 {
            let live = wm.m.arch[a].live.clone();
            match ctx.rng.below(3) {
                0 => {
                    for r in live {
                        if !wm.m.ents.contains_key(&r) {
                            continue;
                        }
                        let k = live_key(ctx, wm, r);
                        let wl = ctx.rng.chance(1, 2);
                        op_destroy(ctx, wm, r, k, wl);
                        if ctx.rng.chance(1, 2) {
                            break;
                        }
                    }
                }
                1 => {
                    let decs: Vec<Dec> = (0..live.len()).map(|_| *ctx.rng.pick(&[Dec::Cont, Dec::ContDestroy, Dec::ContDestroy, Dec::BreakDestroy])).collect();
                    op_iter_destroy(ctx, wm, a, &decs);
                }
                _ => {
                    let decs = vec![Dec::ContDestroy; live.len()];
                    op_iter_destroy(ctx, wm, a, &decs);
                }
            }
        }
        if ctx.viols.is_empty() {
            check_events(ctx, wm);
        }
    }
    for a in 0..n_arch {
        if cmask >> a & 1 == 1 && ctx.viols.is_empty() {
            for _ in 0..1 + ctx.rng.below(3) {
                let path = ctx.rng.below(N_CREATE);
                op_create(ctx, wm, a, path);
            }
            // creations that are refused and destroys that miss leave no trace
            while ctx.viols.is_empty() && !ctx.mini && wm.m.arch[a].live.len() < 40 && op_create(ctx, wm, a, 4).is_some() {}
            op_create(ctx, wm, a, 5);
            if let Some(h) = wm.m.arch[a].dead.last().copied() {
                op_destroy_dead(ctx, wm, a, h, true, true);
                op_destroy_dead(ctx, wm, a, h, false, false);
            }
            check_events(ctx, wm);
        }
    }
    if !ctx.viols.is_empty() {
        abandon(ctx, wms);
        return;
    }
    let (mut c, mut d) = (0u64, 0u64);
    for a in 0..n_arch {
        c |= (!wm.m.arch[a].created.is_empty() as u64) << a;
        d |= (!wm.m.arch[a].destroyed.is_empty() as u64) << a;
    }
    ctx.seen("log-pattern", c << 32 | d);
    ctx.sample(|| format!("pending created events in archetypes {c:#b}, destroyed in {d:#b}"));
    // reading does not consume
    check_events(ctx, wm);
    // clear archetype by archetype, in a random order, then the rest at once
    let mut order: Vec<usize> = (0..n_arch).collect();
    for i in (1..order.len()).rev() {
        let j = ctx.rng.below(i + 1);
        order.swap(i, j);
    }
    let k = ctx.rng.below(n_arch + 1);
    for a in order.into_iter().take(k) {
        clear_events(ctx, wm, Some(a));
        check_events(ctx, wm);
    }
    clear_events(ctx, wm, None);
    check_events(ctx, wm);
    ctx.stat("log_patterns", 1);
    finish(ctx, wms, 4);
}

// ---- C06: Break at every step -------------------------------------------------------------------

pub fn brk(ctx: &mut Ctx, scale: usize) {
    let mut p = no_clones("C06", scale);
    p.weights[W_CREATE] = 60;
    let n = if ctx.mini { 12 } else { 30 + ctx.rng.below(80) };
    let (mut wms, _, _) = match start(ctx, &p, n) {
        Some(x) => x,
        None => return,
    };
    let wm = &mut wms[0];
    for a in 0..wm.m.arch.len() {
        let n = wm.m.arch[a].live.len();
        ctx.seen("brk-pop", ((a as u64) << 32) | n as u64);
        for path in 0..5 {
            for k in 1..=n + 1 {
                if ctx.mini && ctx.rng.chance(2, 3) {
                    continue;
                }
                match guard(|| DRIVERS[a].iter_break(&mut wm.w, path, k)) {
                    Ok(calls) => {
                        ctx.stat("breaks", 1);
                        ctx.check(calls == k.min(n), &[if path == 4 { "C07" } else { "C06" }], || {
                            format!("{calls} closure calls on {} with {n} entities although call {k} returned Break (path {path})", DRIVERS[a].name())
                        });
                    }
                    Err(p) => ctx.viol(&["C06", "C10"], format!("iteration with break panicked: {p}")),
                }
            }
        }
    }
    for (gi, g) in GLOBALS.iter().enumerate() {
        let ids: Vec<u8> = g.matched().iter().map(|m| m.0).collect();
        let total: usize = (0..wm.m.arch.len()).filter(|a| ids.contains(&DRIVERS[*a].id())).map(|a| wm.m.arch[a].live.len()).sum();
        ctx.seen("brk-global", ((gi as u64) << 32) | total as u64);
        for path in 0..N_GITER {
            for k in 1..=total + 1 {
                if (ctx.mini && ctx.rng.chance(4, 5)) || (total > 150 && ctx.rng.chance(3, 4)) {
                    continue;
                }
                let src = if path == 4 { "C07" } else { "C06" };
                match guard(|| g.iterate(&mut wm.w, path, k)) {
                    Ok(rows) => {
                        ctx.stat("breaks", 1);
                        let distinct: HashSet<Raw> = rows.iter().map(|r| r.h.raw()).collect();
                        ctx.check(rows.len() == k.min(total) && distinct.len() == rows.len(), &[src], || {
                            format!("query over {} made {} calls ({} distinct) although call {k} of {total} returned Break", g.name(), rows.len(), distinct.len())
                        });
                        for r in &rows {
                            ctx.check(wm.m.ents.contains_key(&r.h.raw()), &[src], || format!("query over {} presented dead {:?}", g.name(), r.h));
                        }
                    }
                    Err(p) => ctx.viol(&["C06", "C10"], format!("query over {} panicked: {p}", g.name())),
                }
            }
        }
    }
    if ctx.viols.is_empty() {
        after_op(ctx, &mut wms);
    }
    if ctx.viols.is_empty() {
        finish(ctx, wms, 2);
    } else {
        std::mem::forget(wms);
    }
}

// ---- C07: decision tables -------------------------------------------------------------------------

const DECS: [Dec; 4] = [Dec::Cont, Dec::Break, Dec::ContDestroy, Dec::BreakDestroy];

/// All 4^n decision vectors for n entities of one archetype (or of one multi-archetype query).
pub fn dec(ctx: &mut Ctx, item: usize, scale: usize) {
    let global = item % 3 == 2;
    let nmax = if ctx.mini { 2 } else { 3 + scale.min(3) };
    let n = 1 + ctx.rng.below(nmax);
    let a = (item / 3) % ctx.narch;
    let gi = (item / 3) % GLOBALS.len();
    let seed = ctx.rng.next();
    let total = 4usize.pow(n as u32);
    let stride = if ctx.mini { (total / 6).max(1) } else { 1 };
    for code in (0..total).step_by(stride) {
        ledger::reset();
        ctx.rng = Rng::new(seed);
        let mut c = code;
        let decs: Vec<Dec> = (0..n)
            .map(|_| {
                let d = DECS[c & 3];
                c >>= 2;
                d
            })
            .collect();
        let archs: Vec<usize> = if global {
            GLOBALS[gi].matched().iter().filter_map(|m| by_id(m.0)).filter(|a| *a < ctx.narch).collect()
        } else {
            vec![a]
        };
        let w = W::new();
        let mut m = Model::new(ctx.narch);
        for x in 0..ctx.narch {
            m.arch[x].cap = DRIVERS[x].cap(&w);
        }
        let mut wm = WM { w, m };
        // churn: more than n, then down to n
        let extra = ctx.rng.below(4);
        let mut made: Vec<Raw> = Vec::new();
        for i in 0..n + extra {
            let x = archs[if i < archs.len() { i } else { ctx.rng.below(archs.len()) } % archs.len()];
            if let Some(r) = op_create(ctx, &mut wm, x, 0) {
                made.push(r);
            }
        }
        for _ in 0..extra {
            let i = ctx.rng.below(made.len());
            let r = made.swap_remove(i);
            let h = wm.m.ents[&r].h;
            op_destroy(ctx, &mut wm, r, Key::E(h), true);
        }
        if ctx.viols.is_empty() {
            if global {
                op_global_iter_destroy(ctx, &mut wm, gi, &decs);
            } else {
                op_iter_destroy(ctx, &mut wm, a, &decs);
            }
            ctx.stat("decision_vectors", 1);
            ctx.seen("decisions", mix(code as u64 | (n as u64) << 32 | (if global { 100 + gi } else { a } as u64) << 40 | (extra as u64) << 52));
            // use the world a little more: refill, iterate, loop again
            for x in archs.iter() {
                let k = 1 + ctx.rng.below(2);
                for _ in 0..k {
                    op_create(ctx, &mut wm, *x, 0);
                }
                if !ctx.mini || ctx.rng.chance(1, 4) {
                    audit_arch(ctx, &mut wm, *x, 2);
                }
            }
            let n = ctx.rng.below(4);
            let d2 = rand_decisions(ctx, n);
            op_iter_destroy(ctx, &mut wm, archs[0], &d2);
        }
        let mut wms = vec![wm];
        if ctx.viols.is_empty() {
            after_op(ctx, &mut wms);
        }
        if abandon(ctx, wms) {
            ctx.sample(|| format!("decisions {decs:?} global {global} arch {a} query {gi} extra {extra}"));
            return;
        }
    }
}

// ---- C13: diverging after a clone ------------------------------------------------------------------

/// Everything observable about a world, order independent where gecs promises no order.
fn snapshot(wm: &mut WM) -> Vec<u64> {
    let mut out = Vec::new();
    for a in 0..wm.m.arch.len() {
        let dr = DRIVERS[a];
        out.push(dr.len(&wm.w) as u64);
        out.push(dr.cap(&wm.w) as u64);
        out.push(dr.is_empty(&wm.w) as u64);
        let mut sum = 0u64;
        for r in dr.iterate(&mut wm.w, 4) {
            let h = r.h.map(|h| h.raw()).unwrap_or((0, 0));
            let mut x = mix((h.0 as u64) << 32 | h.1 as u64);
            for t in r.tags.unwrap_or_default() {
                x = mix(x ^ t);
            }
            sum = sum.wrapping_add(x);
        }
        out.push(sum);
        for h in dr.entities(&wm.w) {
            let h = h.raw();
            out.push((h.0 as u64) << 32 | h.1 as u64);
        }
        #[cfg(feature = "events")]
        {
            let (c, d) = dr.events(&wm.w);
            for l in [c, d] {
                out.push(l.len() as u64);
                let mut s = 0u64;
                for h in l {
                    let h = h.raw();
                    s = s.wrapping_add(mix((h.0 as u64) << 32 | h.1 as u64));
                }
                out.push(s);
            }
        }
        for h in wm.m.arch[a].dead.iter().rev().take(64).copied().collect::<Vec<_>>() {
            out.push(dr.lookup(&mut wm.w, Key::A(h), 0).is_some() as u64);
        }
        for h in wm.m.arch[a].live.iter().map(|r| wm.m.ents[r].h).collect::<Vec<_>>() {
            out.push(dr.lookup(&mut wm.w, Key::E(h), 0).is_some() as u64);
        }
    }
    let n = wm.m.directs.len();
    for i in n.saturating_sub(64)..n {
        let d = wm.m.directs[i].clone();
        let r = DRIVERS[d.a].lookup(&mut wm.w, Key::X(d.d), 2);
        out.push(r.map(|r| r.idx.unwrap_or(99999) as u64 + 1).unwrap_or(0));
    }
    out
}

fn snap(ctx: &mut Ctx, wm: &mut WM) -> Vec<u64> {
    match guard(|| snapshot(wm)) {
        Ok(v) => v,
        Err(p) => {
            ctx.viol(&["C10", "C06"], format!("observing a world panicked: {p}"));
            vec![]
        }
    }
}

fn refill(ctx: &mut Ctx, wm: &mut WM) {
    for a in 0..wm.m.arch.len() {
        let (n, cap) = (wm.m.arch[a].live.len(), DRIVERS[a].cap(&wm.w));
        if cap - n.min(cap) > 200 {
            continue;
        }
        let mut k = n;
        while k < cap && ctx.viols.is_empty() {
            if op_create(ctx, wm, a, 4 + (k & 1)).is_none() {
                break;
            }
            k += 1;
        }
        if ctx.viols.is_empty() {
            op_create(ctx, wm, a, 4);
            ctx.stat("refills", 1);
        }
    }
}

pub fn clonediv(ctx: &mut Ctx, scale: usize) {
    let seed = ctx.rng.next();
    let t0 = ctx.viols.len();
    clonediv_run(ctx, scale, seed, true);
    let extra: Vec<bool> = ctx.viols[t0..].iter().map(|v| v.props.contains(&"C13")).collect();
    if !extra.is_empty() && !extra.contains(&true) {
        // Does the same history diverge without the clone?
        let saved = std::mem::take(&mut ctx.viols);
        clonediv_run(ctx, scale, seed, false);
        let control = !ctx.viols.is_empty();
        ctx.viols = saved;
        if !control {
            for v in ctx.viols.iter_mut() {
                v.msg = format!("only with clones: {}", v.msg);
                v.props.push("C13");
            }
        }
    }
}

fn clonediv_run(ctx: &mut Ctx, scale: usize, seed: u64, cloning: bool) {
    ctx.rng = Rng::new(seed);
    let p = {
        let mut p = no_clones("C13", scale);
        p.weights[W_EVENTS] = 1;
        p.weights[W_CLONE] = 0; // also drops worlds
        p
    };
    let pre = if ctx.mini { 8 } else { ctx.rng.below(90) };
    let (mut wms, focus, max_live) = match start(ctx, &p, pre) {
        Some(x) => x,
        None => return,
    };
    // sometimes bring one archetype to exactly its capacity, or empty it
    let x = focus[0];
    match ctx.rng.below(5) {
        0 => {
            let cap = DRIVERS[x].cap(&wms[0].w);
            while wms[0].m.arch[x].live.len() < cap.min(100) && ctx.viols.is_empty() {
                op_create(ctx, &mut wms[0], x, 4);
            }
        }
        1 => {
            for r in wms[0].m.arch[x].live.clone() {
                let h = wms[0].m.ents[&r].h;
                op_destroy(ctx, &mut wms[0], r, Key::E(h), true);
            }
        }
        _ => {}
    }
    let rounds = if ctx.mini { 2 } else { 4 };
    if cloning {
        let mut before = snap(ctx, &mut wms[0]);
        match op_clone(ctx, &mut wms[0]) {
            Some(mut c) => {
                // observing both issues no structural change
                let after = snap(ctx, &mut wms[0]);
                ctx.check(before == after, &["C13"], || "world.clone() changed the original".into());
                let saved = std::mem::take(&mut c.m.directs);
                c.m.directs = wms[0].m.directs.clone();
                before = snap(ctx, &mut wms[0]);
                let cl = snap(ctx, &mut c);
                c.m.directs = saved;
                ctx.check(before == cl, &["C13"], || "the clone answers differently from the original".into());
                ctx.seen("clone-state", before.iter().fold(0, |a, b| mix(a ^ b)));
                wms.push(c);
            }
            None => return abandon_unit(ctx, wms),
        }
    }
    for round in 0..rounds {
        ctx.rng = Rng::new(mix(seed ^ (round as u64 + 1) << 8));
        let t = ctx.rng.below(2);
        let (ti, ui) = if cloning { (t, 1 - t) } else { (0, 0) };
        let base = snap(ctx, &mut wms[ui]);
        let k = if ctx.mini { 5 } else { 5 + ctx.rng.below(30) };
        for _ in 0..k {
            if !ctx.viols.is_empty() {
                break;
            }
            step(ctx, &p, &mut wms, ti, &focus, max_live);
            if ctx.viols.is_empty() {
                after_op(ctx, &mut wms);
            }
        }
        if ctx.viols.is_empty() && ctx.rng.chance(1, 2) {
            refill(ctx, &mut wms[ti]);
        }
        if cloning && ctx.viols.is_empty() {
            let now = snap(ctx, &mut wms[ui]);
            ctx.check(base == now, &["C13"], || format!("operations on the {} were observed in the {}", if ti == 0 { "original" } else { "clone" }, if ti == 0 { "clone" } else { "original" }));
            ctx.stat("independence_checks", 1);
        }
        if ctx.viols.is_empty() {
            audit(ctx, &mut wms[ti], 3);
        }
        if !ctx.viols.is_empty() {
            return abandon_unit(ctx, wms);
        }
        // drop one of the two early, sometimes
        if cloning && round + 2 == rounds && ctx.rng.chance(1, 2) {
            let i = ctx.rng.below(2);
            let w = wms.remove(i);
            op_drop(ctx, w);
            if let Some(w) = wms.get_mut(0) {
                refill(ctx, w);
            }
            break;
        }
    }
    ctx.stat("clone_histories", 1);
    finish(ctx, wms, 3);
}

fn abandon_unit(ctx: &Ctx, wms: Vec<WM>) {
    abandon(ctx, wms);
}

// ---- C10: injected faults ----------------------------------------------------------------------------

/// After a caught panic: each of `maybe` must be fully there or fully gone.
fn reconcile(ctx: &mut Ctx, wm: &mut WM, maybe: &[Raw]) {
    for raw in maybe {
        let e = match wm.m.ents.get(raw) {
            Some(e) => e.clone(),
            None => continue,
        };
        let dr = DRIVERS[e.a];
        match guard(|| dr.lookup(&mut wm.w, Key::E(e.h), 0)) {
            Err(p) => ctx.viol(&["C10"], format!("contains panicked after a caught panic: {p}")),
            Ok(Some(_)) => {
                for v in e.vids.iter().filter(|v| **v != 0) {
                    ctx.check(ledger::is_alive(*v), &["C10", "C04"], || format!("{:?} is present but its component {v} was dropped", e.h));
                }
            }
            Ok(None) => {
                wm.m.remove(*raw);
                for v in e.vids.iter().filter(|v| **v != 0) {
                    ctx.check(!ledger::is_alive(*v), &["C10", "C04"], || format!("{:?} is absent but its component {v} was leaked", e.h));
                }
            }
        }
    }
}

pub const N_FAULT: usize = 13;
pub const FAULT_NAMES: [&str; N_FAULT] = [
    "closure of an iteration", "closure of a find", "closure of ecs_iter_destroy!", "closure of a multi-archetype ecs_iter_destroy!",
    "closure of a multi-archetype query", "Clone::clone during World::clone", "Drop::drop during world drop", "Drop::drop during destroy",
    "Drop::drop during ecs_iter_destroy!", "Clone::clone during Archetype::clone", "runtime borrow conflict",
    "conversion into the components inside create", "conversion of the result of an ecs_iter_destroy! closure",
];

pub fn fault(ctx: &mut Ctx, item: usize, scale: usize) {
    let seed = ctx.rng.next();
    fault_run(ctx, item, scale, seed, true);
    let labelled = ctx.viols.iter().any(|v| v.msg.starts_with("after a fault"));
    if labelled {
        let saved = std::mem::take(&mut ctx.viols);
        fault_run(ctx, item, scale, seed, false);
        let control = !ctx.viols.is_empty();
        ctx.viols = saved;
        if !control {
            for v in ctx.viols.iter_mut() {
                v.props.push("C10");
            }
        }
    }
}

fn fault_run(ctx: &mut Ctx, item: usize, scale: usize, seed: u64, inject: bool) {
    ctx.rng = Rng::new(seed);
    let mut p = no_clones("C10", scale);
    p.weights[W_CREATE] = 44;
    p.weights[W_WRITE] = 6;
    let pre = if ctx.mini { 10 } else { 10 + ctx.rng.below(60) };
    let (mut wms, focus, max_live) = match start(ctx, &p, pre) {
        Some(x) => x,
        None => return,
    };
    audit(ctx, &mut wms[0], 2);
    if !ctx.viols.is_empty() {
        return abandon_unit(ctx, wms);
    }
    let kind = item % N_FAULT;
    let nfaults = if kind == 6 { 1 } else { 1 + ctx.rng.below(3) };
    let n0 = ctx.viols.len();
    let mut desc = String::new();
    for _ in 0..nfaults {
        if inject && ctx.viols.is_empty() {
            desc = inject_fault(ctx, &mut wms, kind, &focus);
        }
    }
    ctx.rng = Rng::new(mix(seed ^ 0xfa17));
    if ctx.viols.len() == n0 {
        after_op(ctx, &mut wms);
        audit(ctx, &mut wms[0], 4);
    }
    let post = if ctx.mini { 6 } else { 25 };
    for _ in 0..post {
        if !ctx.viols.is_empty() {
            break;
        }
        step(ctx, &p, &mut wms, 0, &focus, max_live);
        if ctx.viols.is_empty() {
            after_op(ctx, &mut wms);
        }
    }
    if ctx.viols.is_empty() {
        refill(ctx, &mut wms[0]);
    }
    if !ctx.viols.is_empty() {
        abandon_unit(ctx, wms);
    } else {
        finish(ctx, wms, 3);
    }
    if inject {
        for v in ctx.viols[n0..].iter_mut() {
            v.msg = format!("after a fault ({desc}): {}", v.msg);
        }
    }
}

fn boom() -> ! {
    panic!("{}", ledger::BOMB)
}

fn inject_fault(ctx: &mut Ctx, wms: &mut Vec<WM>, kind: usize, focus: &[usize]) -> String {
    let nonempty: Vec<usize> = (0..wms[0].m.arch.len()).filter(|a| !wms[0].m.arch[*a].live.is_empty()).collect();
    if nonempty.is_empty() {
        return String::new();
    }
    let cand: Vec<usize> = focus.iter().copied().filter(|a| nonempty.contains(a)).collect();
    let a = if cand.is_empty() { nonempty[0] } else { *ctx.rng.pick(&cand) };
    let dr = DRIVERS[a];
    let wm = &mut wms[0];
    let n = wm.m.arch[a].live.len();
    let k = match ctx.rng.below(3) {
        0 => 0,
        1 => n - 1,
        _ => ctx.rng.below(n),
    };
    let mut fired = false;
    let mut desc = format!("{} on {} at {k} of {n}", FAULT_NAMES[kind], dr.name());
    ctx.log(|| desc.clone());
    let expect_panic = |ctx: &mut Ctx, r: Result<(), String>, fired: bool| {
        if let Err(m) = &r {
            if !m.contains(ledger::BOMB) {
                ctx.viol(&["C10"], format!("unexpected panic: {m}"));
            }
        } else if fired {
            ctx.viol(&["C10"], "the panic did not propagate".into());
        }
    };
    match kind {
        0 => {
            let path = ctx.rng.below(4);
            let mut i = 0;
            let r = guard(|| {
                dr.each(&mut wm.w, path, &mut |_| {
                    if i == k {
                        fired = true;
                        boom()
                    }
                    i += 1;
                })
            });
            expect_panic(ctx, r, fired);
        }
        1 => {
            let raw = wm.m.arch[a].live[k];
            let h = wm.m.ents[&raw].h;
            let key = if ctx.rng.chance(1, 2) { Key::E(h) } else { Key::A(h) };
            let b = ctx.rng.chance(1, 2);
            let r = guard(|| {
                dr.find_do(&mut wm.w, key, b, &mut |_| {
                    fired = true;
                    boom()
                });
            });
            expect_panic(ctx, r, fired);
        }
        11 => {
            // full, so that the create has to grow; or as it is
            let cap = dr.cap(&wm.w);
            if cap <= 80 && ctx.rng.chance(1, 2) {
                while wm.m.arch[a].live.len() < cap && ctx.viols.is_empty() {
                    if op_create(ctx, wm, a, 4).is_none() {
                        break;
                    }
                }
            }
            let (path, col) = (ctx.rng.below(4), ctx.rng.below(ncols(a)));
            let tags = rand_tags(ctx, a);
            let len = wm.m.arch[a].live.len();
            desc = format!("{} of {} (path {path}, column {col}, len {len}, capacity {cap})", FAULT_NAMES[kind], dr.name());
            let r = guard(|| dr.create_boom(&mut wm.w, path, &tags, col));
            fired = r.is_err();
            ctx.check(fired, &["C10"], || "the panic did not propagate".into());
            expect_panic(ctx, r, fired);
        }
        2 | 3 | 8 | 12 => {
            let gi = ctx.rng.below(GLOBALS.len());
            let g = GLOBALS[gi];
            let global = kind == 3 || (kind == 12 && ctx.rng.chance(1, 2));
            let total: usize = match global {
                true => {
                    let ids: Vec<u8> = g.matched().iter().map(|m| m.0).collect();
                    (0..wm.m.arch.len()).filter(|a| ids.contains(&DRIVERS[*a].id())).map(|a| wm.m.arch[a].live.len()).sum()
                }
                _ => n,
            };
            if total == 0 {
                return String::new();
            }
            let k = ctx.rng.below(total);
            let mut d = rand_decisions(ctx, total);
            if kind != 8 {
                // reach the k-th call
                for x in d.iter_mut().take(k) {
                    *x = match *x {
                        Dec::Break => Dec::Cont,
                        Dec::BreakDestroy => Dec::ContDestroy,
                        x => x,
                    };
                }
            } else if d.iter().all(|d| !matches!(d, Dec::ContDestroy)) {
                d[0] = Dec::ContDestroy;
            }
            let mut maybe: Vec<Raw> = Vec::new();
            let mut i = 0;
            let mut seen: HashSet<Raw> = HashSet::new();
            let mut dup = false;
            let mut decide = |h: EntityAny| -> Dec {
                let di = d.get(i).copied().unwrap_or(Dec::Cont);
                dup |= !seen.insert(h.raw());
                if kind != 8 && i == k {
                    maybe.push(h.raw());
                    fired = true;
                    if kind == 12 {
                        return Dec::Boom;
                    }
                    boom()
                }
                if matches!(di, Dec::ContDestroy | Dec::BreakDestroy) {
                    maybe.push(h.raw());
                }
                i += 1;
                di
            };
            if kind == 8 {
                ledger::with(|l| l.drop_bomb = Some(ctx.rng.below(8) as u64));
            }
            let r = if global {
                guard(|| g.iter_destroy(&mut wm.w, &mut |row| decide(row.h)))
            } else {
                guard(|| dr.iter_destroy(&mut wm.w, &mut |row| decide(row.h.unwrap())))
            };
            ledger::with(|l| {
                if kind == 8 {
                    fired = l.bombs_fired > 0;
                    l.bombs_fired = 0;
                }
                l.drop_bomb = None
            });
            expect_panic(ctx, r, fired);
            ctx.check(!dup, &["C07", "C10"], || "an entity was visited twice".into());
            reconcile(ctx, wm, &maybe);
            desc = format!("{} {:?}", desc, d.iter().take(8).collect::<Vec<_>>());
        }
        4 => {
            let gi = ctx.rng.below(GLOBALS.len());
            let path = ctx.rng.below(3);
            let mut i = 0;
            let k = ctx.rng.below(6);
            let r = guard(|| {
                GLOBALS[gi].each(&mut wm.w, path, &mut |_| {
                    if i == k {
                        fired = true;
                        boom()
                    }
                    i += 1;
                })
            });
            expect_panic(ctx, r, fired);
        }
        5 | 9 => {
            let total = if kind == 5 {
                wm.m.tracked() as i64 + wm.m.zst()
            } else {
                wm.m.ents.values().filter(|e| e.a == a).map(|e| e.vids.iter().filter(|v| **v != 0).count() as i64).sum::<i64>()
            };
            if total == 0 {
                return String::new();
            }
            let k = match ctx.rng.below(4) {
                0 => 0,
                1 => total as u64 - 1,
                _ => ctx.rng.below(total as usize) as u64,
            };
            let before = snap(ctx, wm);
            let (l0, z0) = (ledger::with(|l| l.live), ledger::zst_live("Zd"));
            ledger::with(|l| l.clone_bomb = Some(k));
            let r = guard(|| {
                if kind == 5 {
                    let _ = wm.w.clone();
                } else {
                    dr.clone_arch(&wm.w);
                }
            });
            ledger::with(|l| {
                l.clone_bomb = None;
                fired = l.bombs_fired > 0;
                l.bombs_fired = 0;
            });
            expect_panic(ctx, r, fired);
            let (l1, z1) = (ledger::with(|l| l.live), ledger::zst_live("Zd"));
            ctx.check(l1 == l0 && z1 == z0, &["C10", "C04"], || format!("a failed clone left {} components behind", l1 as i64 - l0 as i64 + z1 - z0));
            let after = snap(ctx, wm);
            ctx.check(before == after, &["C10", "C13"], || "a failed clone changed the original".into());
            desc = format!("{} at clone {k} of {total}", FAULT_NAMES[kind]);
        }
        6 => {
            let total = wm.m.tracked() as i64 + wm.m.zst();
            if total == 0 {
                return String::new();
            }
            let c = match op_clone(ctx, wm) {
                Some(c) => c,
                None => return desc,
            };
            if !ctx.viols.is_empty() {
                std::mem::forget(c);
                return desc;
            }
            let k = match ctx.rng.below(4) {
                0 => 0,
                1 => total as u64 - 1,
                _ => ctx.rng.below(total as usize) as u64,
            };
            let WM { w, m } = c;
            ledger::with(|l| l.drop_bomb = Some(k));
            let r = guard(move || drop(w));
            ledger::with(|l| {
                l.drop_bomb = None;
                fired = l.bombs_fired > 0;
                l.bombs_fired = 0;
            });
            expect_panic(ctx, r, fired);
            let left = m.ents.values().flat_map(|e| e.vids.iter()).filter(|v| **v != 0 && ledger::is_alive(**v)).count();
            ctx.check(left == 0, &["C10", "C04"], || format!("{left} components of a world leaked when drop {k} of {total} panicked"));
            let z = ledger::zst_live("Zd");
            let zw = wm.m.zst();
            ctx.check(z == zw, &["C10", "C04"], || format!("{} zero-sized components leaked when drop {k} of {total} panicked", z - zw));
            desc = format!("{} at drop {k} of {total}", FAULT_NAMES[kind]);
        }
        7 => {
            let raw = wm.m.arch[a].live[k];
            let h = wm.m.ents[&raw].h;
            let key = live_key(ctx, wm, raw);
            let wl = ctx.rng.chance(1, 2);
            ledger::with(|l| l.drop_bomb = Some(ctx.rng.below(3) as u64));
            let r = guard(|| {
                dr.destroy(&mut wm.w, key, wl);
            });
            ledger::with(|l| {
                l.drop_bomb = None;
                fired = l.bombs_fired > 0;
                l.bombs_fired = 0;
            });
            expect_panic(ctx, r, fired);
            reconcile(ctx, wm, &[raw]);
            desc = format!("{desc} destroying {h:?}");
        }
        _ => {
            let path = ctx.rng.below(5);
            let r = guard(|| dr.conflict(&mut wm.w, path));
            fired = r.is_err();
            // which of these must panic is C11's business
        }
    }
    if fired {
        ctx.stat(&format!("fault: {}", FAULT_NAMES[kind]), 1);
        ctx.stat("faults", 1);
        ctx.seen("fault", mix((kind as u64) << 40 | (a as u64) << 32 | (k as u64) << 16 | n as u64));
        ctx.sample(|| desc.clone());
    }
    desc
}

// ---- counter boundaries ----------------------------------------------------------------------------

#[cfg(gecs_verif)]
pub fn overflow(ctx: &mut Ctx, item: usize) {
    ledger::reset();
    let wrapping = cfg!(feature = "wrapping_version");
    let a = item % ctx.narch;
    let dr = DRIVERS[a];
    let c = [1usize, 2, 3, 5, 8][ctx.rng.below(5)];
    const B: [u32; 6] = [1 << 8, 1 << 16, 1 << 24, 1 << 31, u32::MAX, u32::MAX];
    fn near(ctx: &mut Ctx) -> u32 {
        match ctx.rng.below(8) {
            0 => 1,
            1 => 1 + ctx.rng.next() as u32 / 2,
            _ => B[ctx.rng.below(6)] - ctx.rng.below(5) as u32,
        }
    }
    let (mut s, mut v) = (near(ctx), near(ctx));
    match item % 3 {
        0 => s = u32::MAX - ctx.rng.below(4) as u32,
        1 => v = u32::MAX - ctx.rng.below(12) as u32,
        _ => {}
    }
    let mut capv = vec![0; DRIVERS.len()];
    capv[a] = c;
    let mut w = W::with_capacity(caps(&capv));
    dr.preset(&mut w, s, v);
    let mut m = Model::new(ctx.narch);
    for x in 0..ctx.narch {
        m.arch[x].cap = dr_cap(&w, x);
    }
    m.arch[a].promised = c;
    let mut wm = WM { w, m };
    let mut keys: HashSet<u32> = HashSet::new();
    let grow = ctx.rng.chance(1, 4);
    let mut panics = 0u64;
    let mut crossed = 0u64;
    let cap0 = wm.m.arch[a].cap;
    // Fill once: these are all preset positions.
    for _ in 0..cap0.min(16) {
        if let Some(r) = op_create(ctx, &mut wm, a, 4) {
            keys.insert(r.0);
        }
    }
    let n = if ctx.mini { 14 } else { 70 };
    for i in 0..n {
        if !ctx.viols.is_empty() {
            break;
        }
        let live = wm.m.arch[a].live.len();
        let removed = wm.m.arch[a].removals;
        // Would any counter overflow with one more removal?
        let arch_edge = v as u64 + removed >= u32::MAX as u64;
        let edge = |raw: Raw| raw.1 == u32::MAX || arch_edge;
        match ctx.rng.below(10) {
            0..=3 => {
                if live < cap0 || grow && live < 20 {
                    let path = if live < cap0 { *ctx.rng.pick(&BOUNDED) } else { *ctx.rng.pick(&UNBOUNDED) };
                    if let Some(raw) = op_create(ctx, &mut wm, a, path) {
                        let h = raw;
                        ctx.check(wrapping || !keys.contains(&h.0) || h.1 >= s, &["C08", "C01"], || {
                            format!("handle {h:?} was issued although its generation counter had already been at {s}: an earlier handle of that position is reissued")
                        });
                        ctx.check(h.1 != 0, &["C08", "C19"], || "handle with generation 0".into());
                        if h.1 < s && keys.contains(&h.0) {
                            crossed += 1;
                        }
                    }
                }
            }
            4..=6 => {
                if live > 0 {
                    let i = ctx.rng.below(live);
                    let raw = wm.m.arch[a].live[i];
                    let key = live_key(ctx, &mut wm, raw);
                    let wl = ctx.rng.chance(1, 2);
                    let e = edge(raw);
                    if e && !wrapping {
                        match guard(|| dr.destroy(&mut wm.w, key, wl)) {
                            Ok(Destroyed::Absent) => ctx.viol(&["C01"], format!("destroy refused live {:?}", raw)),
                            Ok(_) => {
                                wm.m.remove(raw);
                            }
                            Err(_) => {
                                panics += 1;
                                reconcile(ctx, &mut wm, &[raw]);
                            }
                        }
                    } else {
                        op_destroy(ctx, &mut wm, raw, key, wl);
                        crossed += (e && wrapping) as u64;
                    }
                }
            }
            7 => {
                let d = rand_decisions(ctx, live);
                let any_edge = wm.m.arch[a].live.iter().any(|r| r.1 == u32::MAX) || v as u64 + removed + live as u64 > u32::MAX as u64;
                if any_edge && !wrapping {
                    let mut maybe = Vec::new();
                    let mut i = 0;
                    let r = guard(|| {
                        dr.iter_destroy(&mut wm.w, &mut |row| {
                            let di = d.get(i).copied().unwrap_or(Dec::Cont);
                            i += 1;
                            if matches!(di, Dec::ContDestroy | Dec::BreakDestroy) {
                                maybe.push(row.h.unwrap().raw());
                            }
                            di
                        })
                    });
                    if r.is_err() {
                        panics += 1;
                    }
                    reconcile(ctx, &mut wm, &maybe);
                    if r.is_ok() {
                        let left = maybe.iter().filter(|r| wm.m.ents.contains_key(r)).count();
                        ctx.check(left == 0, &["C07"], || format!("{left} flagged entities survived ecs_iter_destroy!"));
                    }
                } else {
                    op_iter_destroy(ctx, &mut wm, a, &d);
                }
            }
            8 => {
                if live > 0 {
                    let raw = wm.m.arch[a].live[ctx.rng.below(live)];
                    let key = live_key(ctx, &mut wm, raw);
                    let p = ctx.rng.below(N_LOOKUP);
                    op_lookup(ctx, &mut wm, raw, key, p);
                }
            }
            _ => {
                let n = wm.m.directs.len();
                if n > 0 {
                    let i = n - 1 - ctx.rng.below(n.min(20));
                    probe_direct(ctx, &mut wm, i, false);
                }
            }
        }
        let removed = wm.m.arch[a].removals;
        ctx.check(wrapping || removed <= (u32::MAX - v) as u64, &["C08", "C09"], || {
            format!("{removed} removals succeeded with the archetype version starting at {v}: versions of direct handles are reused")
        });
        if ctx.viols.is_empty() {
            let mut one = vec![wm];
            after_op(ctx, &mut one);
            wm = one.pop().unwrap();
        }
        if ctx.viols.is_empty() && (i % 20 == 19 || panics == 1) {
            audit_arch(ctx, &mut wm, a, if ctx.mini { 1 } else { 3 });
            #[cfg(feature = "events")]
            check_events(ctx, &mut wm);
        }
    }
    ctx.stat("overflow_panics", panics);
    ctx.stat("wraparounds", crossed);
    ctx.stat("boundary_histories", 1);
    ctx.seen("boundary", mix((a as u64) << 48 ^ (s as u64) << 16 ^ v as u64));
    ctx.sample(|| format!("{} capacity {c} generations from {s}, archetype version from {v}: {panics} overflow panics, {crossed} wraparounds", dr.name()));
    if panics > 0 {
        for v in ctx.viols.iter_mut() {
            v.props.push("C10");
        }
    }
    if wrapping {
        for v in ctx.viols.iter_mut() {
            v.props.push("C19");
        }
    }
    let nv = ctx.viols.len();
    if nv == 0 {
        finish(ctx, vec![wm], if ctx.mini { 1 } else { 4 });
        if panics > 0 {
            for v in ctx.viols.iter_mut() {
                v.props.push("C10");
            }
        }
    } else {
        std::mem::forget(wm);
    }
}

#[cfg(gecs_verif)]
fn dr_cap(w: &W, a: usize) -> usize {
    DRIVERS[a].cap(w)
}

// ---- C03: forged and foreign handles ---------------------------------------------------------------

/// Probes one arbitrary handle value on every path of archetype `a`'s typed API.
fn probe_forged(ctx: &mut Ctx, wm: &mut WM, h: EntityAny, a: usize, paths: &[usize]) {
    let dr = DRIVERS[a];
    let live = wm.m.ents.get(&h.raw()).map(|e| e.a);
    // via the unchecked conversion when the id is another archetype's
    let own = h.archetype_id() == dr.id();
    let mut keys = vec![Key::EU(h)];
    if own {
        keys.push(Key::E(h));
    }
    keys.push(Key::A(h));
    for key in keys {
        for &path in paths {
            ctx.stat("forged_probes", 1);
            let kk = key_kind(&key);
            match guard(|| dr.lookup(&mut wm.w, key, path)) {
                Err(p) => {
                    ctx.evals += 1;
                    ctx.stat("forged_panics", 1);
                    if own && live == Some(a) {
                        ctx.viol(&["C03", "C01"], format!("{}({kk}) on {} panicked for live {:?}: {p}", LOOKUP_NAMES[path], dr.name(), h));
                    }
                }
                Ok(None) => {
                    ctx.evals += 1;
                    if own && live == Some(a) {
                        ctx.viol(&["C03", "C01"], format!("{}({kk}) on {} rejected live {:?}", LOOKUP_NAMES[path], dr.name(), h));
                    }
                }
                Ok(Some(row)) => {
                    // Reaching anything is only right for exactly this live entity, here.
                    match live {
                        Some(l) if l == a => check_row(ctx, wm, h.raw(), &row, Src::Lookup, LOOKUP_NAMES[path], kk),
                        // World-level calls dispatch on the id inside the handle.
                        Some(l) if matches!(key, Key::A(_)) && (path == 0 || path == 3) => {
                            let _ = l;
                            ctx.evals += 1;
                        }
                        _ => {
                            ctx.evals += 1;
                            ctx.viol(&["C03"], format!("{}({kk}) on {} accepted {:?}, which is not the handle of a live entity there (reached {:?}, row {:?})", LOOKUP_NAMES[path], dr.name(), h, row.h, row.tags.as_ref().map(|t| t.len())));
                        }
                    }
                }
            }
            for e in ledger::take_errors() {
                ctx.viol(&["C03", "C04"], format!("{}({kk}) with {:?}: {e}", LOOKUP_NAMES[path], h));
            }
        }
    }
    if live.is_none() || live != Some(a) {
        for (key, wl) in [(Key::EU(h), false), (Key::EU(h), true), (Key::A(h), false)] {
            ctx.stat("forged_probes", 1);
            match guard(|| dr.destroy(&mut wm.w, key, wl)) {
                Ok(Destroyed::Absent) => ctx.evals += 1,
                Err(_) => {
                    ctx.stat("forged_panics", 1);
                    ctx.evals += 1;
                }
                Ok(_) => {
                    ctx.evals += 1;
                    ctx.viol(&["C03"], format!("destroy({}) on {} accepted forged {:?}", key_kind(&key), dr.name(), h));
                }
            }
        }
        if live.is_none() {
            match guard(|| dr.destroy(&mut wm.w, Key::A(h), true)) {
                Ok(Destroyed::Absent) | Err(_) => ctx.evals += 1,
                Ok(_) => ctx.viol(&["C03"], format!("World::destroy accepted forged {:?}", h)),
            }
        }
    }
}

fn probe_foreign_direct(ctx: &mut Ctx, wm: &mut WM, d: EntityDirectAny, a: usize, current: &HashMap<EntityDirectAny, Raw>, paths: &[usize]) {
    let dr = DRIVERS[a];
    let own = d.archetype_id() == dr.id();
    let hit = if own { current.get(&d).copied() } else { None };
    let mut keys = vec![Key::DU(d), Key::X(d)];
    if own {
        keys.push(Key::D(d));
    }
    for key in keys {
        for &path in paths {
            ctx.stat("forged_direct_probes", 1);
            let kk = key_kind(&key);
            match guard(|| dr.lookup(&mut wm.w, key, path)) {
                Err(_) => {
                    ctx.stat("forged_panics", 1);
                    ctx.evals += 1;
                }
                Ok(None) => {
                    ctx.evals += 1;
                    if hit.is_some() {
                        ctx.viol(&["C03", "C09"], format!("{}({kk}) rejected current direct handle {:?}", LOOKUP_NAMES[path], d));
                    }
                }
                Ok(Some(row)) => match hit {
                    Some(raw) => check_row(ctx, wm, raw, &row, Src::DirectLookup, LOOKUP_NAMES[path], kk),
                    None if !own && matches!(key, Key::X(_)) && (path == 0 || path == 3) => ctx.evals += 1,
                    None => {
                        ctx.evals += 1;
                        ctx.viol(&["C03"], format!("{}({kk}) on {} accepted foreign {:?} (reached {:?})", LOOKUP_NAMES[path], dr.name(), d, row.h));
                    }
                },
            }
            for e in ledger::take_errors() {
                ctx.viol(&["C03", "C04"], format!("{}({kk}) with {:?}: {e}", LOOKUP_NAMES[path], d));
            }
        }
    }
    if hit.is_none() {
        for (key, wl) in [(Key::DU(d), false), (Key::DU(d), true), (Key::X(d), false)] {
            match guard(|| dr.destroy(&mut wm.w, key, wl)) {
                Ok(Destroyed::Absent) | Err(_) => ctx.evals += 1,
                Ok(_) => ctx.viol(&["C03"], format!("destroy({}) on {} accepted foreign {:?}", key_kind(&key), dr.name(), d)),
            }
        }
    }
}

pub fn forge(ctx: &mut Ctx, scale: usize) {
    let p = no_clones("C03", scale);
    let pre = if ctx.mini { 10 } else { ctx.rng.below(120) };
    let (mut wms, focus, max_live) = match start(ctx, &p, pre) {
        Some(x) => x,
        None => return,
    };
    // A second world whose handles are foreign here.
    let p2 = no_clones("C03", scale);
    let mut other = {
        // same ledger: keep both accounted for
        let w = W::new();
        let mut m = Model::new(ctx.narch);
        for a in 0..ctx.narch {
            m.arch[a].cap = DRIVERS[a].cap(&w);
        }
        WM { w, m }
    };
    {
        let mut tmp = vec![other];
        let k = if ctx.mini { 10 } else { 40 + ctx.rng.below(120) };
        for _ in 0..k {
            step(ctx, &p2, &mut tmp, 0, &focus, max_live * 2);
        }
        other = tmp.pop().unwrap();
    }
    if !ctx.viols.is_empty() {
        std::mem::forget(wms);
        std::mem::forget(other);
        return;
    }
    wms.push(other);
    let all_paths: Vec<usize> = (0..N_LOOKUP).collect();
    let count = if ctx.mini { 5 } else { 260 };
    for i in 0..count {
        let a = if ctx.rng.chance(3, 4) { *ctx.rng.pick(&focus) } else { ctx.rng.below(ctx.narch) };
        let (wa, wb) = wms.split_at_mut(1);
        let (wm, other) = (&mut wa[0], &wb[0]);
        let cap = DRIVERS[a].cap(&wm.w) as u32;
        let len = wm.m.arch[a].live.len() as u32;
        let npaths = if ctx.mini { 2 } else { 6 };
        let paths: Vec<usize> = if i % 16 == 0 && !ctx.mini { all_paths.clone() } else { (0..npaths).map(|_| ctx.rng.below(N_LOOKUP)).collect() };
        // A valid handle's low byte is its archetype id; positions are above it. This layout is
        // only used to aim; the oracle is the set of handles issued.
        let pos = match ctx.rng.below(12) {
            0 => cap,
            1 => cap.saturating_sub(1),
            2 => cap + 1,
            3 => len,
            4 => len.saturating_sub(1),
            5 => len + 1,
            6 => (1 << 24) - 1,
            7 => ctx.rng.next() as u32 & 0xff_ffff,
            8 => 0,
            _ => ctx.rng.below(cap as usize + 2) as u32,
        };
        let id = match ctx.rng.below(10) {
            0 => ctx.rng.next() as u8,
            1 => DRIVERS[ctx.rng.below(DRIVERS.len())].id(),
            _ => DRIVERS[a].id(),
        };
        let key = pos << 8 | id as u32;
        let dead = &wm.m.arch[a].dead;
        let gens: Vec<u32> = dead.iter().filter(|h| h.raw().0 == key).map(|h| h.raw().1).chain(wm.m.ents.keys().filter(|r| r.0 == key).map(|r| r.1)).collect();
        let base = if gens.is_empty() { 1 } else { *ctx.rng.pick(&gens) };
        let gen = match ctx.rng.below(10) {
            0 => 1,
            1 => u32::MAX,
            2 => ctx.rng.next() as u32,
            3 => base.wrapping_sub(1),
            4 | 5 => base.wrapping_add(1), // what the next occupant will get
            6 => base ^ 0x8000_0000,
            7 => 1 + ctx.rng.below(6) as u32,
            _ => base,
        };
        let raw = match ctx.rng.below(8) {
            0 => (ctx.rng.next() as u32, ctx.rng.next() as u32),
            1 => {
                // the free-list encoding: top bit set plus a position
                (0x8000_0000 | key, gen)
            }
            _ => (key, gen),
        };
        match i % 4 {
            0..=2 => match EntityAny::from_raw(raw) {
                Err(_) => {
                    ctx.check(raw.1 == 0, &["C03", "C14"], || format!("from_raw rejected {raw:?}"));
                }
                Ok(h) => {
                    ctx.seen("forged", (raw.0 as u64) << 32 | raw.1 as u64);
                    probe_forged(ctx, wm, h, a, &paths);
                    let b = ctx.rng.below(ctx.narch);
                    if ctx.rng.chance(1, 3) {
                        probe_forged(ctx, wm, h, b, &paths);
                    }
                }
            },
            _ => {
                // foreign typed handles and direct handles
                let hs: Vec<EntityAny> = other.m.ents.values().map(|e| e.h).collect();
                if !hs.is_empty() {
                    let mut hs = hs;
                    hs.sort_by_key(|h| h.raw());
                    let h = *ctx.rng.pick(&hs);
                    let x = if ctx.rng.chance(3, 4) { by_id(h.archetype_id()).unwrap_or(a) } else { a };
                    probe_forged(ctx, wm, h, x, &paths);
                }
                let nd = other.m.directs.len();
                if nd > 0 {
                    let d = other.m.directs[ctx.rng.below(nd)].clone();
                    let x = if ctx.rng.chance(3, 4) { d.a } else { a };
                    let mut current = HashMap::new();
                    for raw in wm.m.arch[x].live.clone() {
                        let h = wm.m.ents[&raw].h;
                        if let Ok(Some(Row { d: Some(d), .. })) = guard(|| DRIVERS[x].lookup(&mut wm.w, Key::E(h), 4)) {
                            current.insert(d, raw);
                        }
                    }
                    ctx.seen("foreign-direct", i as u64);
                    probe_foreign_direct(ctx, wm, d.d, x, &current, &paths);
                }
            }
        }
        if !ctx.viols.is_empty() {
            break;
        }
    }
    if ctx.viols.is_empty() {
        after_op(ctx, &mut wms);
        let w0 = &mut wms[0];
        if !ctx.mini {
            audit(ctx, w0, 2);
        }
    }
    if ctx.viols.is_empty() {
        finish(ctx, wms, if ctx.mini { 1 } else { 2 });
    } else {
        std::mem::forget(wms);
    }
}

// ---- large populations --------------------------------------------------------------------------------

pub fn large(ctx: &mut Ctx, item: usize, scale: usize) {
    ledger::reset();
    let a = item % ctx.narch;
    let dr = DRIVERS[a];
    let top = if ncols(a) > 8 { 3_000 } else { 70_000 } * scale.max(1);
    let target = [300, 1_025, 5_000, top][ctx.rng.below(4)].min(top);
    let mut capv = vec![0; DRIVERS.len()];
    if ctx.rng.chance(1, 2) {
        capv[a] = ctx.rng.below(target);
    }
    let w = W::with_capacity(caps(&capv));
    let mut m = Model::new(ctx.narch);
    for x in 0..ctx.narch {
        m.arch[x].cap = DRIVERS[x].cap(&w);
    }
    m.arch[a].promised = capv[a];
    let mut wm = WM { w, m };
    let mut peak = 0;
    for phase in 0..4 {
        if !ctx.viols.is_empty() {
            break;
        }
        let goal = if phase == 0 { target } else { target / 4 + ctx.rng.below(target) };
        while wm.m.arch[a].live.len() < goal && ctx.viols.is_empty() {
            let len = wm.m.arch[a].live.len();
            let path = if len < dr.cap(&wm.w) { ctx.rng.below(N_CREATE) } else { *ctx.rng.pick(&UNBOUNDED) };
            op_create(ctx, &mut wm, a, path);
        }
        peak = peak.max(wm.m.arch[a].live.len());
        bulk_check(ctx, &mut wm, a);
        // removal patterns
        let n = wm.m.arch[a].live.len();
        let kill = [n / 2, n / 10, n - n.min(3), n][ctx.rng.below(4)];
        match ctx.rng.below(4) {
            0 => {
                // through the loop
                let mut d = vec![Dec::Cont; n];
                let every = 2 + ctx.rng.below(5);
                for (i, x) in d.iter_mut().enumerate() {
                    if i % every == 0 {
                        *x = Dec::ContDestroy;
                    }
                }
                op_iter_destroy(ctx, &mut wm, a, &d);
            }
            pat => {
                let order: Vec<EntityAny> = dr.entities(&wm.w);
                let mut idx: Vec<usize> = (0..order.len()).collect();
                match pat {
                    1 => idx.reverse(),
                    2 => {}
                    _ => {
                        for i in (1..idx.len()).rev() {
                            let j = ctx.rng.below(i + 1);
                            idx.swap(i, j);
                        }
                    }
                }
                for i in idx.into_iter().take(kill) {
                    let raw = order[i].raw();
                    if !ctx.viols.is_empty() {
                        break;
                    }
                    if wm.m.ents.contains_key(&raw) {
                        let key = live_key(ctx, &mut wm, raw);
                        op_destroy(ctx, &mut wm, raw, key, i % 2 == 0);
                        if wm.m.directs.len() > 4000 {
                            wm.m.directs.drain(0..3000);
                        }
                    }
                }
            }
        }
        if ctx.viols.is_empty() {
            bulk_check(ctx, &mut wm, a);
            let mut one = vec![wm];
            after_op(ctx, &mut one);
            wm = one.pop().unwrap();
        }
        if ctx.viols.is_empty() && ctx.rng.chance(1, 2) && dr.cap(&wm.w) < 200_000 {
            // refill to exactly the capacity
            while wm.m.arch[a].live.len() < dr.cap(&wm.w) && ctx.viols.is_empty() {
                if op_create(ctx, &mut wm, a, 4).is_none() {
                    break;
                }
            }
            op_create(ctx, &mut wm, a, 5);
            ctx.stat("refills", 1);
        }
    }
    ctx.stat("large_histories", 1);
    ctx.seen("large", mix((a as u64) << 32 | peak as u64));
    ctx.sample(|| format!("{} up to {peak} entities", dr.name()));
    if ctx.viols.is_empty() {
        finish(ctx, vec![wm], 40);
    } else {
        std::mem::forget(wm);
    }
}

fn bulk_check(ctx: &mut Ctx, wm: &mut WM, a: usize) {
    let p = ctx.rng.below(N_ITER);
    op_iterate(ctx, wm, a, p);
    let live = wm.m.arch[a].live.clone();
    for (i, raw) in live.iter().enumerate() {
        if !ctx.viols.is_empty() {
            return;
        }
        let h = wm.m.ents[raw].h;
        let path = match i % 4 {
            0 => 0,
            1 => 5,
            2 => 11,
            _ => 3,
        };
        op_lookup(ctx, wm, *raw, if i % 3 == 0 { Key::A(h) } else { Key::E(h) }, path);
        if wm.m.directs.len() > 6000 {
            wm.m.directs.drain(0..5000);
        }
    }
    let n = wm.m.arch[a].dead.len();
    let start = n.saturating_sub(20_000);
    for i in start..n {
        if !ctx.viols.is_empty() {
            return;
        }
        let h = wm.m.arch[a].dead[i];
        op_lookup_dead(ctx, wm, a, h, [0, 2, 5, 12][i % 4], i % 2 == 0);
    }
}

// ---- handles across generations that agree in many bits ---------------------------------------------

/// Issues handles and direct handles, destroys everything, moves the counters on (to values only many
/// cycles would reach), refills, and expects every old handle to stay dead and every new one to be new.
#[cfg(gecs_verif)]
pub fn alias(ctx: &mut Ctx, item: usize) {
    let a = item % ctx.narch;
    let dr = DRIVERS[a];
    let wrapping = cfg!(feature = "wrapping_version");
    let rounds: Vec<u32> = if ctx.mini { vec![ctx.rng.below(32) as u32] } else { (0..32).collect() };
    for bit in rounds {
        ledger::reset();
        let c = 1 + ctx.rng.below(4);
        let low = |ctx: &mut Ctx| -> u32 {
            // room for +n below the bit, so that exactly this bit differs
            let lim = 1u64 << bit;
            let span = lim.saturating_sub(16).max(1);
            (1 + ctx.rng.next() % span) as u32
        };
        let (s, v) = (low(ctx), low(ctx));
        let mut capv = vec![0; DRIVERS.len()];
        capv[a] = c;
        let mut w = W::with_capacity(caps(&capv));
        dr.preset(&mut w, s, v);
        let mut m = Model::new(ctx.narch);
        for x in 0..ctx.narch {
            m.arch[x].cap = dr_cap(&w, x);
        }
        m.arch[a].promised = c;
        let mut wm = WM { w, m };
        let fill = |ctx: &mut Ctx, wm: &mut WM| {
            for _ in 0..c {
                let path = *ctx.rng.pick(&BOUNDED);
                op_create(ctx, wm, a, path);
            }
            // direct handles of several issue times share a version when nothing is removed
            for r in wm.m.arch[a].live.clone() {
                let h = wm.m.ents[&r].h;
                for p in [3, 4] {
                    op_lookup(ctx, wm, r, Key::E(h), p);
                }
            }
        };
        let drain = |ctx: &mut Ctx, wm: &mut WM| {
            if ctx.rng.chance(1, 3) {
                let d = vec![Dec::ContDestroy; c];
                op_iter_destroy(ctx, wm, a, &d);
            }
            for r in wm.m.arch[a].live.clone() {
                let key = live_key(ctx, wm, r);
                let wl = ctx.rng.chance(1, 2);
                op_destroy(ctx, wm, r, key, wl);
            }
        };
        fill(ctx, &mut wm);
        // the generation of each handle and the version of its direct handles, by what was preset
        let gens: Vec<u32> = wm.m.arch[a].live.iter().map(|r| r.1).collect();
        let used = gens.iter().copied().max().unwrap_or(s);
        drain(ctx, &mut wm);
        if !ctx.viols.is_empty() {
            std::mem::forget(wm);
            return;
        }
        // targets: + one bit, + a random higher value, + one bit again on top of random high bits
        let (mut at_s, mut at_v) = (used as u64 + 1, v as u64 + wm.m.arch[a].removals);
        let hi = |x: u32, ctx: &mut Ctx| x as u64 | (ctx.rng.next() & 0xffff_ffff) >> bit << bit | 1u64 << bit;
        let mut targets = vec![(s as u64 + (1u64 << bit), v as u64 + (1u64 << bit))];
        targets.push((hi(s, ctx), hi(v, ctx)));
        targets.sort();
        for (ts, tv) in targets {
            if ts <= at_s || tv <= at_v || ts >= u32::MAX as u64 - 64 || tv >= u32::MAX as u64 - 64 {
                continue;
            }
            dr.preset(&mut wm.w, ts as u32, tv as u32);
            fill(ctx, &mut wm);
            let n = wm.m.arch[a].dead.len();
            for i in 0..n {
                let h = wm.m.arch[a].dead[i];
                for p in 0..N_LOOKUP {
                    if !ctx.mini || ctx.rng.chance(1, 4) {
                        op_lookup_dead(ctx, &mut wm, a, h, p, (p + i) % 2 == 0);
                    }
                }
                op_destroy_dead(ctx, &mut wm, a, h, i % 2 == 0, i % 4 < 2);
            }
            for i in 0..wm.m.directs.len() {
                let all = wm.m.directs[i].removals < wm.m.arch[a].removals && !ctx.mini && i < 24;
                probe_direct(ctx, &mut wm, i, all);
                if wm.m.directs[i].removals < wm.m.arch[a].removals {
                    let d = wm.m.directs[i].d;
                    let key = if i % 2 == 0 { Key::X(d) } else { Key::D(d) };
                    match guard(|| dr.destroy(&mut wm.w, key, i % 4 < 2)) {
                        Ok(Destroyed::Absent) => ctx.evals += 1,
                        Ok(_) => ctx.viol(&["C09"], format!("destroy accepted stale {:?}", d)),
                        Err(p) => ctx.viol(&["C09", "C10"], format!("destroy by stale {:?} panicked: {p}", d)),
                    }
                }
                if ctx.viols.len() > 20 {
                    break;
                }
            }
            // equal only if the same entity
            let hs: Vec<EntityAny> = wm.m.arch[a].dead.iter().copied().chain(wm.m.arch[a].live.iter().map(|r| wm.m.ents[r].h)).collect();
            for i in 0..hs.len() {
                for j in 0..i {
                    ctx.check(hs[i] != hs[j], &["C08", "C14"], || format!("handles of two entities compare equal: {:?} and {:?}", hs[i], hs[j]));
                }
            }
            ctx.seen("alias", mix((a as u64) << 56 ^ (s as u64) << 24 ^ ts.rotate_left(40) ^ tv));
            ctx.stat("alias_rounds", 1);
            at_s = ts + 1;
            drain(ctx, &mut wm);
            at_v = tv + c as u64 + 1;
            if !ctx.viols.is_empty() {
                std::mem::forget(wm);
                return;
            }
        }
        let _ = wrapping;
        ctx.sample(|| format!("{} capacity {c}: generations from {s} and archetype version from {v}, then moved on by 2^{bit}", dr.name()));
        finish(ctx, vec![wm], 1);
        if !ctx.viols.is_empty() {
            return;
        }
    }
}
