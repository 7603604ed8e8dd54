//! Lifetime ledger: every value of a tracked component type registers its creation, cloning and
//! dropping here (per thread). The ledger never panics from inside gecs; it records errors which
//! the engine collects after the operation.
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Live,
    Dropped,
}

#[derive(Default)]
pub struct Ledger {
    pub state: Vec<u8>, // indexed by vid: 0 unused, 1 live, 2 dropped
    pub live: usize,
    pub total: u64,
    pub drops: u64,
    pub clones: u64,
    pub plain_clones: u64, // Clone calls of a counted type without Drop
    pub clone_log: Option<Vec<(u64, u64)>>, // (source vid, new vid)
    pub drop_log: Option<Vec<u64>>,
    pub errors: Vec<String>,
    /// Counted types without identity (zero sized): name -> (made, dropped)
    pub zst: HashMap<&'static str, (u64, u64)>,
    /// Fault injection: countdown to a panic in the n-th clone / drop of any tracked value.
    pub clone_bomb: Option<u64>,
    pub drop_bomb: Option<u64>,
    pub bombs_fired: u64,
}

thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub const BOMB: &str = "injected fault";

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    L.with(|l| f(&mut l.borrow_mut()))
}

pub fn reset() {
    with(|l| *l = Ledger::default());
}

fn new_vid_in(l: &mut Ledger) -> u64 {
    if l.state.is_empty() {
        l.state.push(0);
    }
    l.state.push(1);
    l.live += 1;
    l.total += 1;
    (l.state.len() - 1) as u64
}

pub fn on_make() -> u64 {
    with(new_vid_in)
}

fn tick(b: &mut Option<u64>) -> bool {
    match b {
        Some(0) => {
            *b = None;
            true
        }
        Some(n) => {
            *n -= 1;
            false
        }
        None => false,
    }
}

/// Registers a clone. Panics (before registering) when the clone fault is due.
pub fn on_clone(src: u64) -> u64 {
    let (r, fire) = with(|l| {
        if l.state.get(src as usize) != Some(&1) {
            l.errors.push(format!("clone of a value that is not alive (vid {src})"));
        }
        if tick(&mut l.clone_bomb) {
            l.bombs_fired += 1;
            return (0, true);
        }
        l.clones += 1;
        let v = new_vid_in(l);
        if let Some(log) = l.clone_log.as_mut() {
            log.push((src, v));
        }
        (v, false)
    });
    if fire {
        panic!("{}", BOMB);
    }
    r
}

/// Registers a drop. Panics (after registering) when the drop fault is due.
pub fn on_drop(vid: u64) {
    let fire = with(|l| {
        match l.state.get(vid as usize).copied() {
            Some(1) => {
                l.state[vid as usize] = 2;
                l.live -= 1;
                l.drops += 1;
                if let Some(log) = l.drop_log.as_mut() {
                    log.push(vid);
                }
            }
            Some(2) => l.errors.push(format!("value dropped twice (vid {vid})")),
            _ => l.errors.push(format!("drop of a value that was never created (vid {vid})")),
        }
        if tick(&mut l.drop_bomb) {
            l.bombs_fired += 1;
            true
        } else {
            false
        }
    });
    if fire && !std::thread::panicking() {
        panic!("{}", BOMB);
    }
}

pub fn check_alive(vid: u64, what: &str) -> bool {
    with(|l| {
        if l.state.get(vid as usize) != Some(&1) {
            let s = l.state.get(vid as usize).copied();
            l.errors.push(format!("{what}: value is not alive (vid {vid}, state {s:?})"));
            false
        } else {
            true
        }
    })
}

pub fn is_alive(vid: u64) -> bool {
    with(|l| l.state.get(vid as usize) == Some(&1))
}

pub fn err(msg: String) {
    with(|l| l.errors.push(msg));
}

pub fn zst_make(name: &'static str) {
    with(|l| l.zst.entry(name).or_default().0 += 1);
}
pub fn zst_clone(name: &'static str) {
    let fire = with(|l| {
        if tick(&mut l.clone_bomb) {
            l.bombs_fired += 1;
            return true;
        }
        l.zst.entry(name).or_default().0 += 1;
        l.clones += 1;
        false
    });
    if fire {
        panic!("{}", BOMB);
    }
}
pub fn zst_drop(name: &'static str) {
    let fire = with(|l| {
        l.drops += 1;
        let e = l.zst.entry(name).or_default();
        e.1 += 1;
        if e.1 > e.0 {
            let m = format!("{name} dropped more often than created");
            l.errors.push(m);
        }
        if tick(&mut l.drop_bomb) {
            l.bombs_fired += 1;
            true
        } else {
            false
        }
    });
    if fire && !std::thread::panicking() {
        panic!("{}", BOMB);
    }
}
pub fn zst_live(name: &'static str) -> i64 {
    with(|l| {
        let e = l.zst.entry(name).or_default();
        e.0 as i64 - e.1 as i64
    })
}

pub fn take_errors() -> Vec<String> {
    with(|l| std::mem::take(&mut l.errors))
}
