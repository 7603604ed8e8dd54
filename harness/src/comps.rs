//! Component types. `tag` is the observable value, `vid` the identity of the value in the ledger.
use crate::ledger;
use crate::rng::mix;

pub trait Comp: Clone + 'static {
    const TRACKED: bool = false;
    const ZST: Option<&'static str> = None;
    fn make(tag: u64) -> Self;
    fn tag(&self) -> u64;
    fn set(&mut self, tag: u64);
    fn norm(tag: u64) -> u64 {
        tag
    }
    fn vid(&self) -> u64 {
        0
    }
}

/// Object-safe access to one component of one entity.
pub trait Cell {
    fn tag(&self) -> u64;
    fn set(&mut self, tag: u64);
    fn replace(&mut self, tag: u64);
    fn vid(&self) -> u64;
}

impl<C: Comp> Cell for C {
    fn tag(&self) -> u64 {
        Comp::tag(self)
    }
    fn set(&mut self, tag: u64) {
        Comp::set(self, tag)
    }
    fn replace(&mut self, tag: u64) {
        *self = C::make(tag);
    }
    fn vid(&self) -> u64 {
        Comp::vid(self)
    }
}

pub struct ColInfo {
    pub tracked: bool,
    pub zst: Option<&'static str>,
    pub norm: fn(u64) -> u64,
}

pub fn col_info<C: Comp>() -> ColInfo {
    ColInfo { tracked: C::TRACKED, zst: C::ZST, norm: C::norm }
}

// ---- plain integers ---------------------------------------------------------------------------

macro_rules! plain {
    ($name:ident, $t:ty) => {
        #[derive(Clone, Debug)]
        pub struct $name(pub $t);
        impl Comp for $name {
            fn make(tag: u64) -> Self {
                $name(tag as $t)
            }
            fn tag(&self) -> u64 {
                self.0 as u64
            }
            fn set(&mut self, tag: u64) {
                self.0 = tag as $t
            }
            fn norm(tag: u64) -> u64 {
                tag as $t as u64
            }
        }
    };
}

plain!(Id, u64);
plain!(Byte, u8);
plain!(Half, u16);
plain!(Word, u32);
plain!(Qa, u64);
plain!(Qb, u64);
plain!(Qc, u32);
plain!(Qe, u16);
plain!(Qf, u64);
plain!(Qg, u8);
plain!(Qh, u64);
plain!(Qi, u64);
plain!(Qj, u32);
plain!(Ra, u64);
plain!(Rb, u64);
plain!(Rc, u32);
plain!(Rd, u64);
plain!(Re, u16);
plain!(Rf, u64);
plain!(Rg, u8);
plain!(Rh, u64);
plain!(Ri, u64);
plain!(Rj, u32);
plain!(Ta, u64);
plain!(Tb, u64);
plain!(Tc, u64);

// ---- large, internally redundant --------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Big(pub [u64; 9]);
impl Comp for Big {
    fn make(tag: u64) -> Self {
        let mut a = [tag; 9];
        for (i, x) in a.iter_mut().enumerate() {
            *x = mix(tag ^ i as u64);
        }
        a[0] = tag;
        Big(a)
    }
    fn tag(&self) -> u64 {
        for i in 1..9 {
            if self.0[i] != mix(self.0[0] ^ i as u64) {
                ledger::err(format!("torn value: word {i} of a Big does not belong to its tag"));
                return !self.0[0];
            }
        }
        self.0[0]
    }
    fn set(&mut self, tag: u64) {
        *self = Big::make(tag)
    }
}

// ---- over-aligned -----------------------------------------------------------------------------

/// Alignment 64, size 128: the size is not the alignment.
#[repr(align(64))]
#[derive(Clone, Debug)]
pub struct Al {
    a: u64,
    b: [u64; 9],
}
impl Comp for Al {
    fn make(tag: u64) -> Self {
        let mut b = [0; 9];
        for (i, x) in b.iter_mut().enumerate() {
            *x = mix(tag ^ (i as u64 + 77));
        }
        Al { a: tag, b }
    }
    fn tag(&self) -> u64 {
        if (self as *const Al as usize) % 64 != 0 {
            ledger::err("over-aligned component at a misaligned address".into());
        }
        for i in 0..9 {
            if self.b[i] != mix(self.a ^ (i as u64 + 77)) {
                ledger::err(format!("torn value: word {i} of an Al does not belong to its tag"));
                return !self.a;
            }
        }
        self.a
    }
    fn set(&mut self, tag: u64) {
        *self = Al::make(tag)
    }
}

/// Alignment 32, size 32.
#[repr(align(32))]
#[derive(Clone, Debug)]
pub struct Qd {
    a: u64,
    b: u8,
}
impl Comp for Qd {
    fn make(tag: u64) -> Self {
        Qd { a: tag, b: tag as u8 }
    }
    fn tag(&self) -> u64 {
        if (self as *const Qd as usize) % 32 != 0 {
            ledger::err("over-aligned component at a misaligned address".into());
        }
        if self.b != self.a as u8 {
            ledger::err("torn value: Qd".into());
        }
        self.a
    }
    fn set(&mut self, tag: u64) {
        *self = Qd::make(tag)
    }
}

/// 131 bytes, alignment 1, every byte determined by the tag.
#[derive(Clone, Debug)]
pub struct Odd(pub [u8; 131]);
impl Comp for Odd {
    fn make(tag: u64) -> Self {
        let mut a = [0u8; 131];
        for (i, c) in a.chunks_mut(8).enumerate() {
            let n = c.len();
            c.copy_from_slice(&(tag.rotate_left(i as u32 * 8)).to_le_bytes()[..n]);
        }
        Odd(a)
    }
    fn tag(&self) -> u64 {
        let tag = u64::from_le_bytes(self.0[..8].try_into().unwrap());
        if self.0[..] != Odd::make(tag).0[..] {
            ledger::err("torn value: the bytes of an Odd do not belong together".into());
            return !tag;
        }
        tag
    }
    fn set(&mut self, tag: u64) {
        *self = Odd::make(tag)
    }
}

/// Needs no drop, but its Clone does something: each clone is counted.
#[derive(Debug)]
pub struct Nd {
    tag: u64,
    check: u32,
}
impl Comp for Nd {
    fn make(tag: u64) -> Self {
        Nd { tag, check: mix(tag) as u32 }
    }
    fn tag(&self) -> u64 {
        if self.check != mix(self.tag) as u32 {
            ledger::err("torn value: Nd".into());
            return !self.tag;
        }
        self.tag
    }
    fn set(&mut self, tag: u64) {
        *self = Nd::make(tag)
    }
}
impl Clone for Nd {
    fn clone(&self) -> Self {
        ledger::with(|l| l.plain_clones += 1);
        Nd { tag: self.tag, check: self.check }
    }
}

/// Zero-sized, over-aligned, needs no drop.
#[repr(align(64))]
#[derive(Clone, Debug)]
pub struct Za([u8; 0]);
impl Comp for Za {
    fn make(_: u64) -> Self {
        Za([])
    }
    fn tag(&self) -> u64 {
        if (self as *const Za as usize) % 64 != 0 {
            ledger::err("over-aligned zero-sized component at a misaligned address".into());
        }
        0
    }
    fn set(&mut self, _: u64) {}
    fn norm(_: u64) -> u64 {
        0
    }
}

// ---- heap without ledger ------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Txt(pub String);
impl Comp for Txt {
    fn make(tag: u64) -> Self {
        Txt(format!("{tag:x}"))
    }
    fn tag(&self) -> u64 {
        u64::from_str_radix(&self.0, 16).unwrap_or_else(|_| {
            ledger::err("corrupt string component".into());
            0
        })
    }
    fn set(&mut self, tag: u64) {
        use std::fmt::Write;
        self.0.clear();
        let _ = write!(self.0, "{tag:x}");
    }
}

// ---- tracked ------------------------------------------------------------------------------------

const CANARY: u64 = 0xC0FF_EE00_DEAD_10CC;

/// Heap-owning tracked value.
pub struct Trk {
    vid: u64,
    heap: Box<(u64, u64, u64)>, // canary ^ vid, vid, tag
}
impl Comp for Trk {
    const TRACKED: bool = true;
    fn make(tag: u64) -> Self {
        let vid = ledger::on_make();
        Trk { vid, heap: Box::new((CANARY ^ vid, vid, tag)) }
    }
    fn tag(&self) -> u64 {
        if !ledger::check_alive(self.vid, "read of a component") {
            return u64::MAX; // don't touch the heap
        }
        if self.heap.0 != CANARY ^ self.vid || self.heap.1 != self.vid {
            ledger::err(format!("canary of component {} damaged", self.vid));
        }
        self.heap.2
    }
    fn set(&mut self, tag: u64) {
        if ledger::check_alive(self.vid, "write to a component") {
            self.heap.2 = tag;
        }
    }
    fn vid(&self) -> u64 {
        self.vid
    }
}
impl Clone for Trk {
    fn clone(&self) -> Self {
        let vid = ledger::on_clone(self.vid);
        Trk { vid, heap: Box::new((CANARY ^ vid, vid, self.heap.2)) }
    }
}
impl Drop for Trk {
    fn drop(&mut self) {
        ledger::on_drop(self.vid);
    }
}

/// Inline tracked value (no heap), with a niche-free layout of an odd size.
pub struct Inl {
    tag: u64,
    vid: u64,
    _pad: [u8; 3],
}
impl Comp for Inl {
    const TRACKED: bool = true;
    fn make(tag: u64) -> Self {
        Inl { tag, vid: ledger::on_make(), _pad: [7; 3] }
    }
    fn tag(&self) -> u64 {
        if !ledger::check_alive(self.vid, "read of a component") {
            return u64::MAX;
        }
        self.tag
    }
    fn set(&mut self, tag: u64) {
        if ledger::check_alive(self.vid, "write to a component") {
            self.tag = tag;
        }
    }
    fn vid(&self) -> u64 {
        self.vid
    }
}
impl Clone for Inl {
    fn clone(&self) -> Self {
        Inl { tag: self.tag, vid: ledger::on_clone(self.vid), _pad: [7; 3] }
    }
}
impl Drop for Inl {
    fn drop(&mut self) {
        ledger::on_drop(self.vid);
    }
}

/// Zero-sized with a counted Drop.
pub struct Zd(());
impl Comp for Zd {
    const ZST: Option<&'static str> = Some("Zd");
    fn make(_: u64) -> Self {
        ledger::zst_make("Zd");
        Zd(())
    }
    fn tag(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn norm(_: u64) -> u64 {
        0
    }
}
impl Clone for Zd {
    fn clone(&self) -> Self {
        ledger::zst_clone("Zd");
        Zd(())
    }
}
impl Drop for Zd {
    fn drop(&mut self) {
        ledger::zst_drop("Zd");
    }
}
