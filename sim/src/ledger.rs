//! The simulated world outside the containers: every element is a token registered here, every
//! callback the library makes into element or iterator code is an event, and faults fire here.
use crate::rng::{mix, Fnv};
use std::cell::UnsafeCell;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- fault kinds
pub const F_NONE: u8 = 0;
pub const F_DROP: u8 = 1; // element destructor panics
pub const F_CLONE: u8 = 2; // element clone panics
pub const F_CMP: u8 = 3; // Ord/PartialOrd panics
pub const F_EQ: u8 = 4; // PartialEq panics
pub const F_HASH: u8 = 5; // Hash panics
pub const F_FMT: u8 = 6; // Debug panics
pub const F_NEXT: u8 = 7; // supplied iterator panics in next()
pub const F_LEN: u8 = 8; // supplied iterator panics in len()
pub const F_INTO: u8 = 9; // into_iter() panics
pub const F_BODY: u8 = 10; // consumer's loop body panics
pub const F_CHAOS: u8 = 11; // comparisons answer inconsistently from the nth on
pub const F_ARB: u8 = 12; // element generation returns an error
pub const F_ARBPANIC: u8 = 13; // element generation panics
// Non-panic faults: counted where they are injected.
pub const F_LIE_SHORT: u8 = 14; // iterator reports more than it has
pub const F_LIE_LONG: u8 = 15; // iterator reports less than it has
pub const F_LIE_HUGE: u8 = 16; // iterator reports an enormous length
pub const F_LIE_UNSTABLE: u8 = 17; // iterator's length answer changes between calls
pub const F_REJECT: u8 = 18; // request beyond capacity or out of bounds
pub const F_CANCEL: u8 = 19; // iterator dropped half way
pub const F_FORGET: u8 = 20; // iterator or container forgotten
pub const F_IO_SHORT: u8 = 21; // endpoint transfers less than asked
pub const F_IO_INTR: u8 = 22; // endpoint interrupted
pub const F_IO_BLOCK: u8 = 23; // endpoint would block
pub const F_IO_ERR: u8 = 24; // endpoint hard error
pub const F_IO_CRASH: u8 = 25; // stage replaced by its copy (fail-over)
pub const F_TRUNC: u8 = 26; // byte source truncated
pub const F_DIRTY: u8 = 27; // recycled or poisoned memory handed to the library
pub const F_EXHAUST: u8 = 28; // pool empty or full
pub const NFAULT: usize = 29;
pub const FAULT_NAMES: [&str; NFAULT] = [
    "none", "drop_panic", "clone_panic", "cmp_panic", "eq_panic", "hash_panic", "fmt_panic",
    "iter_next_panic", "iter_len_panic", "into_iter_panic", "body_panic", "cmp_inconsistent",
    "decode_error", "decode_panic", "len_too_large", "len_too_small", "len_huge", "len_unstable",
    "rejected_request", "iterator_cancelled", "forgotten", "io_short", "io_interrupted",
    "io_would_block", "io_error", "stage_failover", "source_truncated", "dirty_memory",
    "pool_exhausted",
];

// ---------------------------------------------------------------- ledger
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Live,
    Dead,
    /// A leak the property allows: may be destroyed later (once) but must never be seen again.
    Limbo,
    LimboDead,
}

#[derive(Clone, Copy)]
pub struct Slot {
    pub st: St,
    pub val: i32,
    pub parent: u32,
    pub tracked: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub struct Ledger {
    pub slots: Vec<Slot>,
    pub live: usize,
    // zero-sized tokens have no identity: counted only
    pub z_minted: usize,
    pub z_dropped: usize,
    pub z_limbo: usize,
    pub fault: u8,
    pub fault_n: u32,
    pub fired: bool,
    pub chaos: bool,
    pub chaos_n: u64,
    pub fault_counts: [u64; NFAULT],
    pub yielded: Vec<u32>,
    pub clones: Vec<u32>,
    pub viol: Option<Violation>,
    pub hash: Fnv,
    pub events: u64,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
    pub trace: bool,
    pub len_calls: u32,
    /// What an interrupted call had already handed back.
    pub yield_hand: Vec<u32>,
    pub yield_n: Vec<i64>,
    pub calls: [u64; 16],
}

struct Cell0(UnsafeCell<Option<Ledger>>);
unsafe impl Sync for Cell0 {}
static LEDGER: Cell0 = Cell0(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn l() -> &'static mut Ledger {
    // Single simulated thread: nothing else ever runs while this is used.
    unsafe {
        let p = &mut *LEDGER.0.get();
        p.get_or_insert_with(Ledger::new)
    }
}

impl Ledger {
    fn new() -> Self {
        Ledger {
            slots: vec![Slot { st: St::Dead, val: 0, parent: 0, tracked: false }],
            live: 0,
            z_minted: 0,
            z_dropped: 0,
            z_limbo: 0,
            fault: 0,
            fault_n: 0,
            fired: false,
            chaos: false,
            chaos_n: 0,
            fault_counts: [0; NFAULT],
            yielded: vec![],
            clones: vec![],
            viol: None,
            hash: Fnv::default(),
            events: 0,
            probes: Default::default(),
            trace: false,
            len_calls: 0,
            yield_hand: vec![],
            yield_n: vec![],
            calls: [0; 16],
        }
    }
    pub fn reset(&mut self) {
        self.slots.truncate(1);
        self.live = 0;
        self.z_minted = 0;
        self.z_dropped = 0;
        self.z_limbo = 0;
        self.disarm();
        self.yielded.clear();
        self.clones.clear();
        self.viol = None;
        self.hash = Fnv::default();
    }
    pub fn ev(&mut self, code: u64, a: u64, b: u64) {
        self.events += 1;
        let mut h = self.hash.0;
        h = (h ^ code).wrapping_mul(0x100000001b3);
        h = (h ^ a).wrapping_mul(0x100000001b3);
        h = (h ^ b).wrapping_mul(0x100000001b3) ^ (h >> 29);
        self.hash.0 = h;
        if self.trace {
            eprintln!("  ev {} {} {}", code, a, b);
        }
    }
    pub fn violation(&mut self, class: &str, msg: String) {
        if self.viol.is_none() {
            if self.trace {
                eprintln!("  !! {} {}", class, msg);
            }
            self.viol = Some(Violation { class: class.to_string(), msg });
        }
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn count_fault(&mut self, k: u8) {
        self.fault_counts[k as usize] += 1;
    }
    pub fn arm(&mut self, kind: u8, n: u32) {
        self.fault = kind;
        self.fault_n = n;
        self.fired = false;
        self.chaos = false;
    }
    /// Returns whether the fault fired, and stops injecting.
    pub fn disarm(&mut self) -> bool {
        let f = self.fired;
        self.fault = F_NONE;
        self.fired = false;
        self.chaos = false;
        f
    }
    pub fn mint(&mut self, val: i32, parent: u32, tracked: bool) -> u32 {
        let id = self.slots.len() as u32;
        self.slots.push(Slot { st: St::Live, val, parent, tracked });
        if tracked {
            self.live += 1;
        }
        self.ev(1, id as u64, val as u64);
        id
    }
    pub fn valid(&self, id: u32) -> bool {
        (id as usize) < self.slots.len() && id != 0
    }
    pub fn val(&self, id: u32) -> i32 {
        if self.valid(id) {
            self.slots[id as usize].val
        } else {
            0
        }
    }
    /// The library shows, compares, clones or hands back this token.
    pub fn observe(&mut self, id: u32, chk_ok: bool, what: &str) -> u32 {
        if !chk_ok || !self.valid(id) {
            self.violation("garbage", format!("{}: element memory is not a token (id field {:#x})", what, id));
            return 0;
        }
        match self.slots[id as usize].st {
            St::Live => {}
            s => self.violation("dead-seen", format!("{}: token {} was seen in state {:?}", what, id, s)),
        }
        id
    }
    pub fn destroy(&mut self, id: u32, chk_ok: bool) {
        if !chk_ok || !self.valid(id) {
            self.violation("garbage-destroyed", format!("destructor ran on memory that is not a token (id field {:#x})", id));
            return;
        }
        self.ev(2, id as u64, 0);
        let s = &mut self.slots[id as usize];
        match s.st {
            St::Live => {
                s.st = St::Dead;
                self.live -= 1;
            }
            St::Limbo => s.st = St::LimboDead,
            _ => {
                let st = s.st;
                self.violation("double-destroy", format!("token {} destroyed again (state {:?})", id, st))
            }
        }
    }
    pub fn z_live(&self) -> isize {
        self.z_minted as isize - self.z_dropped as isize - self.z_limbo as isize
    }
    pub fn z_destroy(&mut self) {
        self.z_dropped += 1;
        self.ev(2, 0, 0);
        if self.z_dropped > self.z_minted {
            self.violation("double-destroy", "more zero-sized tokens destroyed than were created".into());
        }
    }
    /// A callback from the library into caller-supplied code.
    pub fn tick(&mut self, kind: u8) {
        self.calls[kind as usize] += 1;
        if self.fault != kind || self.fired {
            return;
        }
        if std::thread::panicking() {
            return;
        }
        if self.fault_n > 0 {
            self.fault_n -= 1;
            return;
        }
        self.fired = true;
        self.fault_counts[kind as usize] += 1;
        self.ev(3, kind as u64, 0);
        std::panic::panic_any(Injected(kind));
    }
    /// Whether decoding this element is to fail.
    pub fn arb_fails(&mut self) -> bool {
        if self.fault != F_ARB || self.fired {
            return false;
        }
        if self.fault_n > 0 {
            self.fault_n -= 1;
            return false;
        }
        self.fired = true;
        self.fault_counts[F_ARB as usize] += 1;
        true
    }
    /// Inconsistent comparison answers once armed with F_CHAOS.
    pub fn chaos_tick(&mut self, honest: Ordering) -> Ordering {
        if self.fault != F_CHAOS {
            return honest;
        }
        if self.fault_n > 0 {
            self.fault_n -= 1;
            return honest;
        }
        if !self.fired {
            self.fired = true;
            self.fault_counts[F_CHAOS as usize] += 1;
        }
        self.chaos_n = self.chaos_n.wrapping_add(1);
        match mix(self.chaos_n ^ self.hash.0) % 3 {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
    /// Tokens still alive, whose ids are not in `accounted`, become tolerated leaks.
    pub fn abandon_except(&mut self, accounted: &dyn Fn(u32) -> bool) -> usize {
        let mut n = 0;
        for id in 1..self.slots.len() {
            if self.slots[id].tracked && self.slots[id].st == St::Live && !accounted(id as u32) {
                self.slots[id].st = St::Limbo;
                self.live -= 1;
                n += 1;
            }
        }
        n
    }
    pub fn abandon(&mut self, id: u32) {
        if id == 0 {
            return;
        }
        let s = &mut self.slots[id as usize];
        if s.tracked && s.st == St::Live {
            s.st = St::Limbo;
            self.live -= 1;
        }
    }
    pub fn is_dead(&self, id: u32) -> bool {
        id == 0 || !self.slots[id as usize].tracked || matches!(self.slots[id as usize].st, St::Dead | St::LimboDead)
    }
}

/// Payload of an injected panic.
pub struct Injected(pub u8);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Pan {
    Inj(u8),
    Lib(String),
}

pub fn classify(e: Box<dyn std::any::Any + Send>) -> Pan {
    if let Some(i) = e.downcast_ref::<Injected>() {
        Pan::Inj(i.0)
    } else if let Some(s) = e.downcast_ref::<&str>() {
        Pan::Lib(s.to_string())
    } else if let Some(s) = e.downcast_ref::<String>() {
        Pan::Lib(s.clone())
    } else {
        Pan::Lib("?".into())
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Pan> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(classify)
}

// ---------------------------------------------------------------- element types
pub trait Elem: Clone + Ord + Hash + fmt::Debug + Sized + 'static {
    /// Destruction and copies are accounted per token.
    const TRACKED: bool;
    const ZST: bool;
    /// A type that may be copied without being cloned.
    const DUP: bool = false;
    const NAME: &'static str;
    fn mint(val: i32) -> Self;
    /// Observe: check that this is a live token and return its id (0 for zero-sized tokens).
    fn id(&self) -> u32;
    /// Used by comparisons/hashing/formatting; also an observation.
    fn val(&self) -> i32;
}

fn code(id: u32) -> u32 {
    (mix(id as u64 ^ 0x7065_6e67) >> 17) as u32 | 1
}

macro_rules! elem_traits {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                let (a, b) = (self.val(), o.val());
                l().tick(F_EQ);
                a == b
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                let (a, b) = (self.val(), o.val());
                l().tick(F_CMP);
                nested_hook();
                l().chaos_tick(a.cmp(&b))
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                let a = self.val();
                l().tick(F_HASH);
                a.hash(h)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let a = self.val();
                l().tick(F_FMT);
                fmt::Debug::fmt(&a, f)
            }
        }
    };
}

/// Scheduling point inside comparison callbacks (used by the view scheduler).
pub fn nested_hook() {
    let h = unsafe { &mut *HOOK.0.get() };
    if let Some(f) = h.as_mut() {
        f()
    }
}
struct HookCell(UnsafeCell<Option<Box<dyn FnMut()>>>);
unsafe impl Sync for HookCell {}
static HOOK: HookCell = HookCell(UnsafeCell::new(None));
pub fn set_hook(f: Option<Box<dyn FnMut()>>) {
    unsafe { *HOOK.0.get() = f }
}

/// Ordinary 8-byte token.
pub struct Tok {
    id: u32,
    chk: u32,
}
impl Elem for Tok {
    const TRACKED: bool = true;
    const ZST: bool = false;
    const NAME: &'static str = "tok8";
    fn mint(val: i32) -> Self {
        let id = l().mint(val, 0, true);
        Tok { id, chk: code(id) }
    }
    fn id(&self) -> u32 {
        l().observe(self.id, self.chk == code(self.id), "observe")
    }
    fn val(&self) -> i32 {
        let id = self.id();
        l().val(id)
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        let p = l().observe(self.id, self.chk == code(self.id), "clone");
        l().tick(F_CLONE);
        let id = l().mint(l().val(p), p, true);
        l().clones.push(id);
        Tok { id, chk: code(id) }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        l().destroy(self.id, self.chk == code(self.id));
        l().tick(F_DROP);
    }
}
elem_traits!(Tok);

/// Five bytes, alignment one.
pub struct Odd {
    id: [u8; 4],
    chk: u8,
}
impl Odd {
    fn raw(&self) -> (u32, bool) {
        let id = u32::from_le_bytes(self.id);
        (id, self.chk == code(id) as u8)
    }
    fn make(id: u32) -> Self {
        Odd { id: id.to_le_bytes(), chk: code(id) as u8 }
    }
}
impl Elem for Odd {
    const TRACKED: bool = true;
    const ZST: bool = false;
    const NAME: &'static str = "odd5";
    fn mint(val: i32) -> Self {
        Odd::make(l().mint(val, 0, true))
    }
    fn id(&self) -> u32 {
        let (id, ok) = self.raw();
        l().observe(id, ok, "observe")
    }
    fn val(&self) -> i32 {
        let id = self.id();
        l().val(id)
    }
}
impl Clone for Odd {
    fn clone(&self) -> Self {
        let (id, ok) = self.raw();
        let p = l().observe(id, ok, "clone");
        l().tick(F_CLONE);
        let id = l().mint(l().val(p), p, true);
        l().clones.push(id);
        Odd::make(id)
    }
}
impl Drop for Odd {
    fn drop(&mut self) {
        let (id, ok) = self.raw();
        l().destroy(id, ok);
        l().tick(F_DROP);
    }
}
elem_traits!(Odd);

/// 32 bytes, alignment 32.
#[repr(align(32))]
pub struct Big {
    id: u32,
    chk: u32,
    pad: [u64; 3],
}
impl Big {
    fn ok(&self) -> bool {
        let c = code(self.id);
        self.chk == c && self.pad == [mix(c as u64), mix(c as u64 + 1), mix(c as u64 + 2)] && (self as *const _ as usize) % 32 == 0
    }
    fn make(id: u32) -> Self {
        let c = code(id);
        Big { id, chk: c, pad: [mix(c as u64), mix(c as u64 + 1), mix(c as u64 + 2)] }
    }
}
impl Elem for Big {
    const TRACKED: bool = true;
    const ZST: bool = false;
    const NAME: &'static str = "big32";
    fn mint(val: i32) -> Self {
        Big::make(l().mint(val, 0, true))
    }
    fn id(&self) -> u32 {
        l().observe(self.id, self.ok(), "observe")
    }
    fn val(&self) -> i32 {
        let id = self.id();
        l().val(id)
    }
}
impl Clone for Big {
    fn clone(&self) -> Self {
        let p = l().observe(self.id, self.ok(), "clone");
        l().tick(F_CLONE);
        let id = l().mint(l().val(p), p, true);
        l().clones.push(id);
        Big::make(id)
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        l().destroy(self.id, self.ok());
        l().tick(F_DROP);
    }
}
elem_traits!(Big);

macro_rules! zero_sized {
    ($t:ident, $name:literal) => {
        impl Elem for $t {
            const TRACKED: bool = true;
            const ZST: bool = true;
            const NAME: &'static str = $name;
            fn mint(_: i32) -> Self {
                l().z_minted += 1;
                l().ev(1, 0, 0);
                $t
            }
            fn id(&self) -> u32 {
                let at = std::hint::black_box(self as *const Self as usize);
                if at % std::mem::align_of::<Self>() != 0 {
                    l().violation("alignment", format!("a {} is shown at {:#x}", $name, at))
                }
                0
            }
            fn val(&self) -> i32 {
                self.id() as i32
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                l().tick(F_CLONE);
                l().clones.push(0);
                $t::mint(0)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                l().z_destroy();
                l().tick(F_DROP);
            }
        }
        elem_traits!($t);
    };
}
/// Zero-sized tokens: only counts are accountable.
pub struct Zst;
zero_sized!(Zst, "zst");
/// A zero-sized token that must be kept aligned all the same.
#[repr(align(32))]
pub struct Zal;
zero_sized!(Zal, "zst aligned to 32");

macro_rules! plain {
    ($t:ident, $name:expr, $dup:expr) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                l().observe(self.id, self.chk == code(self.id), "clone");
                l().tick(F_CLONE);
                l().clones.push(self.id);
                $t { id: self.id, chk: self.chk }
            }
        }
        impl Elem for $t {
            const TRACKED: bool = false;
            const ZST: bool = false;
            const DUP: bool = $dup;
            const NAME: &'static str = $name;
            fn mint(val: i32) -> Self {
                let id = l().mint(val, 0, false);
                $t { id, chk: code(id) }
            }
            fn id(&self) -> u32 {
                l().observe(self.id, self.chk == code(self.id), "observe")
            }
            fn val(&self) -> i32 {
                let id = self.id();
                l().val(id)
            }
        }
        elem_traits!($t);
    };
}
/// Plain copyable element (no destructor): identity and validity only.
#[derive(Copy)]
pub struct Cop {
    id: u32,
    chk: u32,
}
plain!(Cop, "copy8", true);
/// No destructor either, but its clones count.
pub struct Pod {
    id: u32,
    chk: u32,
}
plain!(Pod, "plain8", false);

// ---------------------------------------------------------------- supplied iterators
/// How a supplied iterator behaves.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct IterSpec {
    pub actual: usize,
    pub report: usize,
    /// Length reported from the second `len()` call on.
    pub report2: usize,
    /// The source would go on for ever: asking for its last element is taken as proof that the
    /// library never stops asking.
    pub endless: bool,
}

pub struct SimIter<E: Elem> {
    items: std::collections::VecDeque<E>,
    report: usize,
    report2: usize,
    calls: std::cell::Cell<u32>,
    taken: usize,
    endless: bool,
}
impl<E: Elem> SimIter<E> {
    pub fn new(items: std::collections::VecDeque<E>, spec: IterSpec) -> Self {
        SimIter { items, report: spec.report, report2: spec.report2, calls: std::cell::Cell::new(0), taken: 0, endless: spec.endless }
    }
}
impl<E: Elem> Iterator for SimIter<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        l().tick(F_NEXT);
        match self.items.pop_front() {
            Some(e) => {
                let id = e.id();
                l().yielded.push(id);
                l().ev(4, id as u64, 0);
                self.taken += 1;
                Some(e)
            }
            None => {
                if self.endless {
                    l().violation("endless", format!("a source that never ends was asked for {} elements", self.taken + 1))
                }
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = ExactSizeIterator::len(self);
        (n, Some(n))
    }
}
impl<E: Elem> ExactSizeIterator for SimIter<E> {
    fn len(&self) -> usize {
        l().tick(F_LEN);
        let c = self.calls.get();
        self.calls.set(c + 1);
        l().len_calls += 1;
        let base = if c == 0 { self.report } else { self.report2 };
        base.saturating_sub(self.taken)
    }
}
/// What is handed to the library: its `into_iter` is a callback as well.
pub struct SimSrc<E: Elem>(pub SimIter<E>);
impl<E: Elem> IntoIterator for SimSrc<E> {
    type Item = E;
    type IntoIter = SimIter<E>;
    fn into_iter(self) -> SimIter<E> {
        l().tick(F_INTO);
        self.0
    }
}

/// Whether the known-findings file (passed on by the supervisor) lists this finding.
#[allow(dead_code)]
pub fn known_finding(id: &str) -> bool {
    use std::sync::OnceLock;
    static K: OnceLock<Vec<String>> = OnceLock::new();
    K.get_or_init(|| std::env::var("DST_KNOWN").unwrap_or_default().split(',').map(|s| s.to_string()).collect())
        .iter()
        .any(|x| x == id)
}
