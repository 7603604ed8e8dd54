//! C11: runtime-borrowed access against a reader/writer model per (archetype, column), plus a
//! monitor over the addresses of all references that are handed out and still alive.
use crate::ctx::{guard, Ctx};
use crate::rng::mix;
use gecs::prelude::*;
use std::cell::RefCell;

macro_rules! comps {
    ($($c:ident: $t:ty),* $(,)?) => { $(#[derive(Clone, Debug)] pub struct $c(pub $t);)* };
}
comps!(P: u64, Q: Box<u32>, R: u8, D1: u64, D2: u32, D3: u16, D4: u8, D5: u64, D6: u64, D7: Box<u64>, D8: u8, D9: u64,
    D10: u32, D11: u64, D12: [u64; 3], D13: u64, D14: u8);
#[derive(Clone, Debug)]
pub struct Z;

trait Make {
    fn make(x: u64) -> Self;
}
macro_rules! make { ($($c:ident = |$x:ident| $e:expr),* $(,)?) => { $(impl Make for $c { fn make($x: u64) -> Self { $c($e) } })* }; }
make!(P = |x| x, Q = |x| Box::new(x as u32), R = |x| x as u8, D1 = |x| x, D2 = |x| x as u32, D3 = |x| x as u16, D4 = |x| x as u8,
    D5 = |x| x, D6 = |x| x, D7 = |x| Box::new(x), D8 = |x| x as u8, D9 = |x| x, D10 = |x| x as u32, D11 = |x| x,
    D12 = |x| [x; 3], D13 = |x| x, D14 = |x| x as u8);
impl Make for Z {
    fn make(_: u64) -> Self {
        Z
    }
}

ecs_world! {
    ecs_name!(BorrowWorld);
    ecs_archetype!(ArchA, P, Q, R, Z);
    ecs_archetype!(ArchB, P, Q);
    #[archetype_id(40)]
    ecs_archetype!(ArchC, Q);
    ecs_archetype!(ArchD, D1, D2, P, D3, D4, D5, D6, D7, D8, D9, D10, D11, D12, D13, D14, Z);
    ecs_archetype!(ArchE, P, Q); // kept empty
}
type BW = BorrowWorld;

/// One (archetype, column, exclusive) lock.
type Lock = (usize, usize, bool);
/// A reference handed out: address, bytes, exclusive.
type Span = (usize, usize, bool);

pub struct Ents {
    a: [Entity<ArchA>; 2],
    b: [Entity<ArchB>; 2],
    c: [Entity<ArchC>; 2],
    d: [Entity<ArchD>; 2],
    dead: EntityAny,
}

type Inner<'x> = &'x mut dyn FnMut(usize, &[Span]);

pub struct Act {
    name: String,
    /// For each archetype it visits: the locks held during the closure call / guard lifetime.
    visits: Vec<(usize, Vec<Lock>)>,
    run: fn(&BW, &Ents, Inner),
}

fn span<T: ?Sized>(r: &T, m: bool) -> Span {
    (r as *const T as *const u8 as usize, std::mem::size_of_val(r), m)
}

macro_rules! arch_acts {
    ($v:ident, $A:ident, $arch:ident, $ai:tt, $e:ident; $(($ci:tt, $C:ident)),*) => { $(
        $v.push(Act { name: format!("{}.borrow_slice::<{}>()", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, false)])],
            run: |w, _, k| { let g = w.$arch.borrow_slice::<$C>(); k($ai, &[span(&*g, false)]); } });
        $v.push(Act { name: format!("{}.borrow_slice_mut::<{}>()", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, true)])],
            run: |w, _, k| { let g = w.$arch.borrow_slice_mut::<$C>(); k($ai, &[span(&*g, true)]); } });
    )*};
}
macro_rules! ent_acts {
    ($v:ident, $A:ident, $arch:ident, $ai:tt, $e:ident; $(($ci:tt, $C:ident)),*) => { $(
        $v.push(Act { name: format!("{}.borrow(e0).component::<{}>()", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, false)])],
            run: |w, e, k| { let b = w.$arch.borrow(e.$e[0]).unwrap(); let g = b.component::<$C>(); k($ai, &[span(&*g, false)]); } });
        $v.push(Act { name: format!("World::borrow({} e1).component_mut::<{}>()", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, true)])],
            run: |w, e, k| { let b = w.borrow(e.$e[1]).unwrap(); let g = b.component_mut::<$C>(); k($ai, &[span(&*g, true)]); } });
        $v.push(Act { name: format!("ecs_find_borrow!({} e0, |&{}|)", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, false)])],
            run: |w, e, k| { let n = ecs_find_borrow!(w, e.$e[0], |c: &$C| k($ai, &[span(c, false)])); assert!(n.is_some(), "find missed a live entity"); } });
        $v.push(Act { name: format!("ecs_find_borrow!({} any e1, |&mut {}|)", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, true)])],
            run: |w, e, k| { let n = ecs_find_borrow!(w, e.$e[1].into_any(), |c: &mut $C, _: &EntityAny| k($ai, &[span(&*c, true)])); assert!(n.is_some(), "find missed a live entity"); } });
        $v.push(Act { name: format!("ecs_find_borrow!({} direct e0, |&mut {}|)", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, true)])],
            run: |w, e, k| { let d = w.to_direct(e.$e[0]).unwrap(); let n = ecs_find_borrow!(w, d, |c: &mut $C| k($ai, &[span(&*c, true)])); assert!(n.is_some(), "find missed a live entity"); } });
        $v.push(Act { name: format!("ecs_iter_borrow!(|&Entity<{}>, &{}|)", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, false)])],
            run: |w, _, k| { ecs_iter_borrow!(w, |_: &Entity<$A>, c: &$C| k($ai, &[span(c, false)])); } });
        $v.push(Act { name: format!("ecs_iter_borrow!(|&EntityDirect<{}>, &mut {}|)", stringify!($A), stringify!($C)), visits: vec![($ai, vec![($ai, $ci, true)])],
            run: |w, _, k| { ecs_iter_borrow!(w, |_: &EntityDirect<$A>, c: &mut $C| k($ai, &[span(&*c, true)])); } });
    )*
        $v.push(Act { name: format!("ecs_iter_borrow!(|&Entity<{}>|) without components", stringify!($A)), visits: vec![($ai, vec![])],
            run: |w, _, k| { ecs_iter_borrow!(w, |_: &Entity<$A>, _: &EntityAny, _: &EntityDirect<_>| k($ai, &[])); } });
        $v.push(Act { name: format!("ecs_find_borrow!({} e0) without components", stringify!($A)), visits: vec![($ai, vec![])],
            run: |w, e, k| { let n = ecs_find_borrow!(w, e.$e[0], |_: &Entity<$A>, _: &EntityDirectAny| k($ai, &[])); assert!(n.is_some(), "find missed a live entity"); } });
        $v.push(Act { name: format!("{}.clone()", stringify!($A)), visits: vec![($ai, vec![$(($ai, $ci, false)),*])],
            run: |w, _, k| { let mut c = w.$arch.clone(); $(let _ = c.borrow_slice_mut::<$C>();)* { let _ = c.get_all_slices_mut(); } k(usize::MAX, &[]); } });
        $v.push(Act { name: format!("reads of {} that touch no column", stringify!($A)), visits: vec![($ai, vec![])],
            run: |w, e, k| {
                assert!(w.contains(e.$e[0]) && w.$arch.contains(e.$e[1].into_any()) && w.$arch.resolve(e.$e[0]).is_some());
                assert!(w.to_direct(e.$e[0]).is_some() && w.$arch.entities().len() == 2 && w.$arch.len() == 2 && w.$arch.borrow(e.$e[1]).is_some());
                k($ai, &[]);
            } });
        $v.push(Act { name: format!("a Borrow of {} without component access", stringify!($A)), visits: vec![($ai, vec![])],
            run: |w, e, k| { let b = w.borrow(e.$e[0]).unwrap(); k($ai, &[]); assert!(b.index() < 2); } });
        // every column of the entity, alternating modes, in one closure
        $v.push(Act { name: format!("all columns of {} shared, one Borrow", stringify!($A)), visits: vec![($ai, vec![$(($ai, $ci, false)),*])],
            run: |w, e, k| { let b = w.$arch.borrow(e.$e[1]).unwrap(); let _all = ($(b.component::<$C>(),)*); k($ai, &[$(span(&*b.component::<$C>(), false)),*]); } });
        $v.push(Act { name: format!("all columns of {} exclusive, one Borrow", stringify!($A)), visits: vec![($ai, vec![$(($ai, $ci, true)),*])],
            run: |w, e, k| { let b = w.$arch.borrow(e.$e[1]).unwrap(); let mut all = ($(b.component_mut::<$C>(),)*); let sp = all_spans!(all; $($ci),*); k($ai, &sp); let _ = &mut all; } });
    };
}
macro_rules! all_spans {
    ($t:ident; $($ci:tt),*) => { [$(span(&*$t.$ci, true)),*] };
}

fn acts() -> Vec<Act> {
    let mut v: Vec<Act> = Vec::new();
    arch_acts!(v, ArchA, arch_a, 0, a; (0, P), (1, Q), (2, R), (3, Z));
    arch_acts!(v, ArchB, arch_b, 1, b; (0, P), (1, Q));
    arch_acts!(v, ArchC, arch_c, 2, c; (0, Q));
    arch_acts!(v, ArchD, arch_d, 3, d; (0, D1), (1, D2), (2, P), (3, D3), (4, D4), (5, D5), (6, D6), (7, D7), (8, D8), (9, D9), (10, D10), (11, D11), (12, D12), (13, D13), (14, D14), (15, Z));
    arch_acts!(v, ArchE, arch_e, 4, a; (0, P), (1, Q));
    ent_acts!(v, ArchA, arch_a, 0, a; (0, P), (1, Q), (2, R), (3, Z));
    ent_acts!(v, ArchB, arch_b, 1, b; (0, P), (1, Q));
    ent_acts!(v, ArchC, arch_c, 2, c; (0, Q));
    ent_acts!(v, ArchD, arch_d, 3, d; (0, D1), (1, D2), (2, P), (3, D3), (4, D4), (5, D5), (6, D6), (7, D7), (8, D8), (9, D9), (10, D10), (11, D11), (12, D12), (13, D13), (14, D14), (15, Z));
    // several archetypes in one query (the empty ArchE is matched too: unconstrained there)
    v.push(Act { name: "ecs_iter_borrow!(|&mut P|)".into(), visits: vec![(0, vec![(0, 0, true)]), (1, vec![(1, 0, true)]), (3, vec![(3, 2, true)])],
        run: |w, _, k| { ecs_iter_borrow!(w, |e: &EntityAny, p: &mut P| k(ai(e), &[span(&*p, true)])); } });
    v.push(Act { name: "ecs_iter_borrow!(|&P|)".into(), visits: vec![(0, vec![(0, 0, false)]), (1, vec![(1, 0, false)]), (3, vec![(3, 2, false)])],
        run: |w, _, k| { ecs_iter_borrow!(w, |e: &EntityAny, p: &P| k(ai(e), &[span(p, false)])); } });
    v.push(Act { name: "ecs_iter_borrow!(|&mut Q|)".into(), visits: vec![(0, vec![(0, 1, true)]), (1, vec![(1, 1, true)]), (2, vec![(2, 0, true)])],
        run: |w, _, k| { ecs_iter_borrow!(w, |q: &mut Q, e: &EntityAny| k(ai(e), &[span(&*q, true)])); } });
    v.push(Act { name: "ecs_iter_borrow!(|&mut P, &Q|)".into(), visits: vec![(0, vec![(0, 0, true), (0, 1, false)]), (1, vec![(1, 0, true), (1, 1, false)])],
        run: |w, _, k| { ecs_iter_borrow!(w, |p: &mut P, q: &Q, e: &EntityAny| k(ai(e), &[span(&*p, true), span(q, false)])); } });
    v.push(Act { name: "ecs_iter_borrow!(|&OneOf<R, D7>|)".into(), visits: vec![(0, vec![(0, 2, false)]), (3, vec![(3, 7, false)])],
        run: |w, _, k| { ecs_iter_borrow!(w, |e: &EntityAny, r: &OneOf<R, D7>| k(ai(e), &[span(r, false)])); } });
    v.push(Act { name: "ecs_iter_borrow!(|&mut OneOf<R, D7>, &P|)".into(), visits: vec![(0, vec![(0, 2, true), (0, 0, false)]), (3, vec![(3, 7, true), (3, 2, false)])],
        run: |w, _, k| { ecs_iter_borrow!(w, |e: &EntityAny, r: &mut OneOf<R, D7>, p: &P| k(ai(e), &[span(&*r, true), span(p, false)])); } });
    v.push(Act { name: "ecs_iter_borrow!(|&mut Z|)".into(), visits: vec![(0, vec![(0, 3, true)]), (3, vec![(3, 15, true)])],
        run: |w, _, k| { ecs_iter_borrow!(w, |e: &EntityAny, z: &mut Z| k(ai(e), &[span(&*z, true)])); } });
    v.push(Act { name: "ecs_find_borrow!(any b1, |&mut P, &mut Q|)".into(), visits: vec![(1, vec![(1, 0, true), (1, 1, true)])],
        run: |w, e, k| { let n = ecs_find_borrow!(w, e.b[1].into_any(), |p: &mut P, q: &mut Q| k(1, &[span(&*p, true), span(&*q, true)])); assert!(n.is_some(), "find missed a live entity"); } });
    v.push(Act { name: "ecs_find_borrow!(any d0, |&mut D9, &D10, &mut D13, &Z|)".into(), visits: vec![(3, vec![(3, 9, true), (3, 10, false), (3, 13, true), (3, 15, false)])],
        run: |w, e, k| { let n = ecs_find_borrow!(w, e.d[0], |a: &mut D9, b: &D10, c: &mut D13, d: &Z| k(3, &[span(&*a, true), span(b, false), span(&*c, true), span(d, false)])); assert!(n.is_some(), "find missed a live entity"); } });
    v.push(Act { name: "ecs_find_borrow! of a dead entity".into(), visits: vec![],
        run: |w, e, k| { let n = ecs_find_borrow!(w, e.dead, |_: &mut P, _: &mut Q| panic!("closure ran for a dead entity")); assert!(n.is_none()); k(usize::MAX, &[]); } });
    v.push(Act { name: "ecs_find_borrow! of an unmatched archetype".into(), visits: vec![],
        run: |w, e, k| { let n = ecs_find_borrow!(w, e.c[0].into_any(), |_: &mut P| panic!("closure ran for an unmatched entity")); assert!(n.is_none()); k(usize::MAX, &[]); } });
    v.push(Act { name: "World::clone()".into(), visits: {
            let mut l = Vec::new();
            for (a, n) in [(0, 4), (1, 2), (2, 1), (3, 16)] {
                l.extend((0..n).map(|c| (a, c, false)));
            }
            vec![(usize::MAX, l)]
        },
        run: |w, _, k| {
            let c = w.clone();
            // the clone starts with every column free, whatever is held on the original
            ecs_iter_borrow!(c, |_: &mut P| {});
            ecs_iter_borrow!(c, |_: &mut Q| {});
            ecs_iter_borrow!(c, |_: &mut R, _: &mut Z| {});
            ecs_iter_borrow!(c, |_: &mut D1, _: &mut D7, _: &mut D14| {});
            k(usize::MAX, &[]);
        } });
    v
}

fn ai(e: &EntityAny) -> usize {
    match e.archetype_id() {
        ArchA::ARCHETYPE_ID => 0,
        ArchB::ARCHETYPE_ID => 1,
        ArchC::ARCHETYPE_ID => 2,
        ArchD::ARCHETYPE_ID => 3,
        _ => 4,
    }
}

fn build() -> (BW, Ents) {
    let mut w = BW::default();
    let mut n = 0u64;
    let mut x = || {
        n += 1;
        n
    };
    macro_rules! mk { ($A:ident: $($C:ident),*) => { w.create::<$A>(($($C::make(x()),)*)) }; }
    let dead = mk!(ArchA: P, Q, R, Z);
    let a0 = mk!(ArchA: P, Q, R, Z);
    let a1 = mk!(ArchA: P, Q, R, Z);
    w.destroy(dead);
    let b0 = mk!(ArchB: P, Q);
    let b1 = mk!(ArchB: P, Q);
    let c0 = mk!(ArchC: Q);
    let c1 = mk!(ArchC: Q);
    let d0 = mk!(ArchD: D1, D2, P, D3, D4, D5, D6, D7, D8, D9, D10, D11, D12, D13, D14, Z);
    let d1 = mk!(ArchD: D1, D2, P, D3, D4, D5, D6, D7, D8, D9, D10, D11, D12, D13, D14, Z);
    (w, Ents { a: [a0, a1], b: [b0, b1], c: [c0, c1], d: [d0, d1], dead: dead.into_any() })
}

struct State {
    held: Vec<Lock>,
    spans: Vec<Span>,
    trace: Vec<String>,
}

fn conflicts(held: &[Lock], want: &[Lock]) -> bool {
    want.iter().any(|l| held.iter().any(|h| h.0 == l.0 && h.1 == l.1 && (h.2 || l.2)))
}

fn expect_panic(act: &Act, held: &[Lock]) -> bool {
    // World::clone also covers ArchE; its columns count as held like any other.
    let mut wants: Vec<Lock> = act.visits.iter().flat_map(|v| v.1.iter().copied()).collect();
    if act.visits.first().map_or(false, |v| v.0 == usize::MAX) {
        wants.push((4, 0, false));
        wants.push((4, 1, false));
    }
    conflicts(held, &wants)
}

/// A query over several archetypes says nothing about what it does in an empty one that is held.
fn unconstrained(act: &Act, held: &[Lock]) -> bool {
    act.visits.len() > 1 && held.iter().any(|h| h.0 == 4)
}

const MARK: &str = "@unwind";

type Shared<'a> = RefCell<(&'a mut Ctx, State)>;

/// Probes every column of every archetype against the model.
fn probe(sh: &Shared, w: &BW, e: &Ents, acts: &[Act], thin: bool) {
    let n_slices = 50; // the borrow_slice(_mut) actions come first: 25 columns
    let extra = sh.borrow_mut().0.rng.below(acts.len());
    let mut idx: Vec<usize> = (0..n_slices).collect();
    if thin {
        let r = sh.borrow_mut().0.rng.below(n_slices);
        idx = vec![r, (r + 7) % n_slices, (r + 23) % n_slices];
    }
    idx.push(extra);
    for i in idx {
        try_act(sh, w, e, acts, i, &mut |_| {}, "probe");
    }
}

/// Runs one action; compares grant/refusal with the model. `inner` runs while it is granted.
fn try_act(sh: &Shared, w: &BW, e: &Ents, acts: &[Act], i: usize, inner: &mut dyn FnMut(&Shared), what: &str) -> bool {
    let act = &acts[i];
    let (want_panic, free, depth, spans) = {
        let s = sh.borrow();
        (expect_panic(act, &s.1.held), unconstrained(act, &s.1.held), s.1.held.len(), s.1.spans.len())
    };
    let mut calls: Vec<usize> = Vec::new();
    let r = guard(|| {
        (act.run)(w, e, &mut |a, sp| {
            calls.push(a);
            {
                let mut s = sh.borrow_mut();
                let bad = sp.iter().find_map(|n| s.1.spans.iter().find(|o| (n.2 || o.2) && n.1 > 0 && o.1 > 0 && n.0 < o.0 + o.1 && o.0 < n.0 + n.1).map(|o| (*n, *o)));
                let tr = s.1.trace.join(" > ");
                s.0.check(bad.is_none(), &["C11"], || format!("{} handed out {bad:?} overlapping a live reference, inside {tr}", act.name));
                s.1.spans.extend_from_slice(sp);
                if a == usize::MAX {
                    // nothing is held any more
                } else if let Some(v) = act.visits.iter().find(|v| v.0 == a) {
                    s.1.held.extend_from_slice(&v.1);
                } else {
                    s.0.viol(&["C05", "C11"], format!("{} visited archetype {a}", act.name));
                }
                s.1.trace.push(act.name.clone());
            }
            inner(sh);
            let mut s = sh.borrow_mut();
            s.1.held.truncate(depth);
            s.1.spans.truncate(spans);
            s.1.trace.pop();
        });
    });
    let mut s = sh.borrow_mut();
    s.1.held.truncate(depth);
    s.1.spans.truncate(spans);
    let tr = s.1.trace.join(" > ");
    let held = s.1.held.clone();
    s.0.stat("accesses", 1);
    match r {
        Ok(()) => {
            s.0.check(!want_panic, &["C11"], || format!("{what}: {} was granted while {held:?} are held (inside {tr})", act.name));
            let want = match act.visits.first() {
                Some(v) if v.0 != usize::MAX => {
                    let per = if act.name.starts_with("ecs_iter") { 2 } else { 1 };
                    act.visits.iter().all(|v| calls.iter().filter(|c| **c == v.0).count() >= per)
                }
                _ => true,
            };
            let nm = act.name.clone();
            if !nm.ends_with("clone()") {
                s.0.check(want, &["C06", "C11"], || format!("{nm} ran its closure for {calls:?}"));
            }
            s.0.stat("granted", 1);
            true
        }
        Err(p) if p.starts_with(MARK) => {
            drop(s);
            std::panic::panic_any(MARK);
        }
        Err(p) => {
            if !free {
                s.0.check(want_panic, &["C11"], || format!("{what}: {} panicked ({p}) with {held:?} held (inside {tr})", act.name));
            }
            s.0.stat("refused", 1);
            false
        }
    }
}

fn chain(sh: &Shared, w: &BW, e: &Ents, acts: &[Act], list: &[usize], unwind: bool, thin: bool) {
    let (i, rest) = match list.split_first() {
        Some(x) => x,
        None => {
            probe(sh, w, e, acts, thin);
            if unwind {
                sh.borrow_mut().1.trace.clear();
                std::panic::panic_any(MARK);
            }
            return;
        }
    };
    let h = {
        let s = sh.borrow();
        s.1.held.iter().fold(*i as u64 + 1, |a, l| mix(a ^ (l.0 as u64) << 16 ^ (l.1 as u64) << 4 ^ l.2 as u64))
    };
    sh.borrow_mut().0.seen("borrow-state", h);
    try_act(sh, w, e, acts, *i, &mut |sh| chain(sh, w, e, acts, rest, unwind, thin), "nested");
}

fn run_chain(ctx: &mut Ctx, w: &BW, e: &Ents, acts: &[Act], list: &[usize], unwind: bool, thin: bool) {
    let names: Vec<&str> = list.iter().map(|i| acts[*i].name.as_str()).collect();
    ctx.log(|| format!("{}{}", names.join(" > "), if unwind { " > panic" } else { "" }));
    let sh: Shared = RefCell::new((ctx, State { held: vec![], spans: vec![], trace: vec![] }));
    let r = guard(|| chain(&sh, w, e, acts, list, unwind, thin));
    {
        let mut s = sh.borrow_mut();
        s.1 = State { held: vec![], spans: vec![], trace: vec![] };
        if let Err(p) = r {
            if !p.starts_with(MARK) {
                s.0.viol(&["*"], format!("panic escaped a chain: {p}"));
            } else {
                s.0.stat("unwound", 1);
            }
        }
    }
    // everything is over: every column must be free again
    probe(&sh, w, e, acts, thin);
    sh.borrow_mut().0.stat("chains", 1);
}

trait Held {}
impl<T> Held for T {}

/// Guards held across each other and released in arbitrary order.
fn held_machine(ctx: &mut Ctx, w: &BW, e: &Ents, acts: &[Act], steps: usize, thin: bool) {
    let ba = w.arch_a.borrow(e.a[0]).unwrap();
    let ba1 = w.borrow(e.a[1]).unwrap();
    let bb = w.arch_b.borrow(e.b[0].into_any()).unwrap();
    let bd = w.borrow(w.to_direct(e.d[1]).unwrap()).unwrap();
    let mut held: Vec<(Lock, Box<dyn Held + '_>)> = Vec::new();
    macro_rules! get {
        ($x:expr; $(($n:tt, $b:expr, $arch:ident, $ai:tt, $ci:tt, $C:ident)),* $(,)?) => { 'pick: {
            let total = 0 $(+ { let _ = $n; 4 })*;
            let i = $x % total;
            let mut base = 0;
            $(
                if i >= base && i < base + 4 {
                    let m = (i - base) & 1 == 1;
                    let l: Lock = ($ai, $ci, m);
                    let r: Result<Box<dyn Held + '_>, String> = guard(|| match i - base {
                        0 => Box::new($b.component::<$C>()) as Box<dyn Held + '_>,
                        1 => Box::new($b.component_mut::<$C>()) as Box<dyn Held + '_>,
                        2 => Box::new(w.$arch.borrow_slice::<$C>()) as Box<dyn Held + '_>,
                        _ => Box::new(w.$arch.borrow_slice_mut::<$C>()) as Box<dyn Held + '_>,
                    });
                    break 'pick (l, r);
                }
                base += 4;
            )*
            let _ = base;
            unreachable!()
        }};
    }
    for step in 0..steps {
        if !ctx.viols.is_empty() {
            break;
        }
        let grow = ctx.rng.chance(if held.len() < 12 { 3 } else { 1 }, 4);
        if grow || held.is_empty() {
            let x = ctx.rng.below(100_000);
            let (l, r) = {
                get!(x;
                    (0, ba, arch_a, 0, 0, P), (0, ba, arch_a, 0, 1, Q), (0, ba1, arch_a, 0, 1, Q), (0, ba1, arch_a, 0, 2, R), (0, ba, arch_a, 0, 3, Z),
                    (0, bb, arch_b, 1, 0, P), (0, bb, arch_b, 1, 1, Q),
                    (0, bd, arch_d, 3, 2, P), (0, bd, arch_d, 3, 7, D7), (0, bd, arch_d, 3, 14, D14), (0, bd, arch_d, 3, 15, Z),
                )
            };
            let now: Vec<Lock> = held.iter().map(|h| h.0).collect();
            let c = conflicts(&now, &[l]);
            ctx.log(|| format!("acquire {l:?} with {now:?} held -> {}", r.is_ok()));
            ctx.check(r.is_ok() != c, &["C11"], || format!("acquiring {l:?} with {now:?} held: {}", if c { "granted" } else { "refused" }));
            ctx.stat(if c { "held_refused" } else { "held_granted" }, 1);
            if let Ok(g) = r {
                held.push((l, g));
            }
            let h = now.iter().fold(0u64, |a, l| a ^ mix((l.0 as u64) << 16 | (l.1 as u64) << 4 | l.2 as u64));
            ctx.seen("held", h ^ mix(x as u64 % 44));
        } else {
            let i = ctx.rng.below(held.len());
            let (l, g) = held.swap_remove(i);
            ctx.log(|| format!("release {l:?}"));
            if ctx.rng.chance(1, 4) {
                // release while unwinding
                let _ = guard(move || {
                    let _g = g;
                    std::panic::panic_any(MARK);
                });
            } else {
                drop(g);
            }
        }
        if step % 16 == 15 {
            let locks = held.iter().map(|h| h.0).collect();
            let sh: Shared = RefCell::new((ctx, State { held: locks, spans: vec![], trace: vec!["held guards".into()] }));
            probe(&sh, w, e, acts, thin);
        }
    }
    drop(held);
}

pub fn borrow(ctx: &mut Ctx, item: usize, scale: usize) {
    let acts = acts();
    let (mut w, e) = build();
    let thin = ctx.mini;
    match item % 3 {
        0 => {
            // all ordered pairs with one fixed first access
            let a = (item / 3) % acts.len();
            ctx.sample(|| format!("all accesses nested inside {}", acts[a].name));
            for b in 0..acts.len() {
                if thin && ctx.rng.below(12) != 0 {
                    continue;
                }
                run_chain(ctx, &w, &e, &acts, &[a, b], false, true);
                if !ctx.viols.is_empty() {
                    return;
                }
            }
            run_chain(ctx, &w, &e, &acts, &[a], false, thin);
            run_chain(ctx, &w, &e, &acts, &[a], true, thin);
            ctx.stat("pair_rows", 1);
        }
        1 => {
            let n = if thin { 4 } else { 150 * scale.max(1) };
            for _ in 0..n {
                let k = 1 + ctx.rng.below(5);
                let mut l: Vec<usize> = (0..k).map(|_| ctx.rng.below(acts.len())).collect();
                if ctx.rng.chance(1, 2) {
                    // same few columns
                    let base = ctx.rng.below(8);
                    l.iter_mut().for_each(|x| if *x % 3 != 0 { *x = base ^ (*x & 1) });
                }
                let u = ctx.rng.chance(1, 3);
                run_chain(ctx, &w, &e, &acts, &l, u, thin);
                if !ctx.viols.is_empty() {
                    return;
                }
            }
        }
        _ => {
            let n = if thin { 24 } else { 400 * scale.max(1) };
            held_machine(ctx, &w, &e, &acts, n, thin);
            if !ctx.viols.is_empty() {
                return;
            }
        }
    }
    // the world keeps working through exclusive access
    let mut n = 0;
    ecs_iter!(w, |_: &mut P| n += 1);
    ctx.check(n == 6, &["C06", "C11"], || format!("{n} entities with P after the accesses"));
    for h in e.a {
        ctx.check(w.destroy(h).is_some(), &["C01", "C11"], || "entity lost".into());
    }
}
