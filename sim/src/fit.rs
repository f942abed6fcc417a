//! Inline arrays in the memory of their host: many pairs of element and host type, arrays built,
//! moved, swapped, copied and interrupted inside an arena whose every other byte is watched. The
//! reference is a list of values and arithmetic on the sizes of the two types.
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use sized_chunks::InlineArray;
use std::mem::{align_of, size_of};

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! { Push, Pop, Insert, Remove, SplitOff, Clear, Drain, Fill, CopyTo, Relocate, Swap, Edit, Collect, Consume, Rebuild, Extend }
pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("fit {}", s)).unwrap_or_else(|| "?".into())
}

// ---------------------------------------------------------------- elements
/// How many elements with each value are alive (types with a destructor only).
static mut LIVE: [i32; 256] = [0; 256];
fn live() -> &'static mut [i32; 256] {
    unsafe { &mut *std::ptr::addr_of_mut!(LIVE) }
}
fn born(v: u8) {
    live()[v as usize] += 1;
    l().ev(80, v as u64, 0)
}
fn dies(v: u8) {
    let n = &mut live()[v as usize];
    *n -= 1;
    l().ev(81, v as u64, 0);
    if *n < 0 {
        l().violation("double-destroy", format!("an element of value {} was destroyed more often than it was made", v))
    }
}
const MASK: u8 = 0x5d;

trait El: Clone + 'static {
    const COUNTED: bool;
    fn make(v: u8) -> Self;
    /// The value, if the memory is that of an element.
    fn val(&self) -> Option<u8>;
}
macro_rules! counted {
    ($($name:ident $size:literal $align:literal),*) => { $(
        #[repr(C, align($align))]
        struct $name([u8; $size]);
        impl El for $name {
            const COUNTED: bool = true;
            fn make(v: u8) -> Self {
                let v = if $size == 0 { 0 } else { v };
                born(v);
                let mut b = [0u8; $size];
                for (i, x) in b.iter_mut().enumerate() {
                    *x = v ^ (i as u8).wrapping_mul(MASK)
                }
                $name(b)
            }
            fn val(&self) -> Option<u8> {
                let v = self.0.first().copied().unwrap_or(0);
                if self.0.iter().enumerate().all(|(i, x)| *x == v ^ (i as u8).wrapping_mul(MASK)) { Some(v) } else { None }
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                l().tick(F_CLONE);
                match self.val() {
                    Some(v) => Self::make(v),
                    None => {
                        l().violation("garbage", "memory that is no element was cloned".into());
                        Self::make(0)
                    }
                }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                match self.val() {
                    Some(v) => dies(v),
                    None => l().violation("garbage-destroyed", "destructor ran on memory that is no element".into()),
                }
                l().tick(F_DROP)
            }
        }
    )* };
}
counted!(B1a1 1 1, B2a1 2 1, B3a1 3 1, B5a1 5 1, B7a1 7 1, B2a2 2 2, B6a2 6 2, B4a4 4 4, B12a4 12 4, B8a8 8 8, B24a8 24 8, B40a8 40 8,
    B16a16 16 16, B48a16 48 16, B32a32 32 32, B96a32 96 32, B64a64 64 64, Z1 0 1, Z4 0 4, Z8 0 8, Z16 0 16, Z64 0 64);
macro_rules! plain {
    ($($t:ty => $make:expr, $val:expr);* $(;)?) => { $(
        impl El for $t {
            const COUNTED: bool = false;
            fn make(v: u8) -> Self {
                let f: fn(u8) -> $t = $make;
                f(v)
            }
            fn val(&self) -> Option<u8> {
                let f: fn(&$t) -> Option<u8> = $val;
                f(self)
            }
        }
    )* };
}
plain! {
    u8 => |v| v, |x| Some(*x);
    u16 => |v| v as u16 * 257, |x| if x % 257 == 0 { Some((x / 257) as u8) } else { None };
    u32 => |v| v as u32 * 0x0101_0101, |x| if x % 0x0101_0101 == 0 { Some((x / 0x0101_0101) as u8) } else { None };
    u64 => |v| v as u64 * 0x0101_0101_0101_0101, |x| if x % 0x0101_0101_0101_0101 == 0 { Some((x / 0x0101_0101_0101_0101) as u8) } else { None };
    u128 => |v| u128::from_ne_bytes([v; 16]), |x| if x.to_ne_bytes() == [x.to_ne_bytes()[0]; 16] { Some(x.to_ne_bytes()[0]) } else { None };
    (u8, u64) => |v| (v, v as u64), |x| if x.0 as u64 == x.1 { Some(x.0) } else { None };
    Box<u8> => |v| Box::new(v), |x| Some(**x);
    String => |v| String::from(v as char), |x| x.chars().next().map(|c| c as u32 as u8);
    () => |_| (), |_| Some(0);
}

// ---------------------------------------------------------------- hosts
macro_rules! hosts {
    ($($name:ident $align:literal),*) => { $( #[repr(C, align($align))] pub struct $name<const N: usize>(#[allow(dead_code)] [u8; N]); )* };
}
hosts!(A1 1, A2 2, A4 4, A8 8, A16 16, A32 32, A64 64);
#[repr(C)]
pub struct Padded(u8, u64, u8);
#[repr(C)]
pub struct Late(u32, u32, u128, u8);

// ---------------------------------------------------------------- one pair, erased
type Vals = Vec<Option<u8>>;
trait Arr: Sync {
    fn sizes(&self) -> (usize, usize, usize, usize, usize, usize);
    fn cap(&self) -> usize;
    fn counted(&self) -> bool;
    unsafe fn build(&self, p: *mut u8);
    unsafe fn discard(&self, p: *mut u8);
    /// values, address of the first, length, empty, full
    unsafe fn look(&self, p: *mut u8, how: usize) -> (Vals, usize, usize, bool, bool);
    unsafe fn push(&self, p: *mut u8, v: u8);
    unsafe fn pop(&self, p: *mut u8) -> Option<Option<u8>>;
    unsafe fn insert(&self, p: *mut u8, i: usize, v: u8);
    unsafe fn remove(&self, p: *mut u8, i: usize) -> Option<Option<u8>>;
    /// `to` holds no array before and one after.
    unsafe fn split(&self, p: *mut u8, i: usize, to: *mut u8);
    unsafe fn clear(&self, p: *mut u8);
    unsafe fn drain(&self, p: *mut u8, front: usize, back: usize) -> Vals;
    unsafe fn copy(&self, p: *mut u8, to: *mut u8);
    unsafe fn relocate(&self, p: *mut u8, to: *mut u8);
    unsafe fn swap(&self, p: *mut u8, q: *mut u8);
    unsafe fn edit(&self, p: *mut u8, i: usize, v: u8, how: usize);
    unsafe fn collect(&self, vs: &[u8], to: *mut u8);
    unsafe fn consume(&self, p: *mut u8, front: usize, back: usize) -> Vals;
    unsafe fn extend(&self, p: *mut u8, vs: &[u8]);
}
struct Pair<A, T>(std::marker::PhantomData<fn() -> (A, T)>);
impl<A: El, T: 'static> Pair<A, T> {
    #[allow(clippy::mut_from_ref)]
    unsafe fn at<'a>(&self, p: *mut u8) -> &'a mut InlineArray<A, T> {
        &mut *p.cast()
    }
}
fn take<A: El>(e: A) -> Option<u8> {
    let v = e.val();
    drop(e);
    v
}
impl<A: El, T: 'static> Arr for Pair<A, T> {
    fn sizes(&self) -> (usize, usize, usize, usize, usize, usize) {
        (
            size_of::<A>(), align_of::<A>(), size_of::<T>(), align_of::<T>(),
            size_of::<InlineArray<A, T>>(), align_of::<InlineArray<A, T>>(),
        )
    }
    fn cap(&self) -> usize {
        InlineArray::<A, T>::CAPACITY
    }
    fn counted(&self) -> bool {
        A::COUNTED
    }
    unsafe fn build(&self, p: *mut u8) {
        p.cast::<InlineArray<A, T>>().write(InlineArray::new())
    }
    unsafe fn discard(&self, p: *mut u8) {
        std::ptr::drop_in_place(p.cast::<InlineArray<A, T>>())
    }
    unsafe fn look(&self, p: *mut u8, how: usize) -> (Vals, usize, usize, bool, bool) {
        let a = self.at(p);
        let (n, e, f) = (a.len(), a.is_empty(), a.is_full());
        let s: &[A] = match how % 4 {
            0 => a,
            1 => a.as_ref(),
            2 => a.as_mut(),
            _ => std::borrow::Borrow::borrow(&*a),
        };
        let at = s.as_ptr() as usize;
        // ask for no memory that cannot belong to the array
        let most = if size_of::<A>() == 0 { s.len() } else { size_of::<InlineArray<A, T>>() / size_of::<A>() };
        if s.len() > most || at % align_of::<A>() != 0 {
            return (vec![None; s.len().min(most)], at, n, e, f);
        }
        (s.iter().map(|x| x.val()).collect(), at, n, e, f)
    }
    unsafe fn push(&self, p: *mut u8, v: u8) {
        self.at(p).push(A::make(v))
    }
    unsafe fn pop(&self, p: *mut u8) -> Option<Option<u8>> {
        self.at(p).pop().map(take)
    }
    unsafe fn insert(&self, p: *mut u8, i: usize, v: u8) {
        self.at(p).insert(i, A::make(v))
    }
    unsafe fn remove(&self, p: *mut u8, i: usize) -> Option<Option<u8>> {
        self.at(p).remove(i).map(take)
    }
    unsafe fn split(&self, p: *mut u8, i: usize, to: *mut u8) {
        let r = self.at(p).split_off(i);
        to.cast::<InlineArray<A, T>>().write(r)
    }
    unsafe fn clear(&self, p: *mut u8) {
        self.at(p).clear()
    }
    unsafe fn drain(&self, p: *mut u8, front: usize, back: usize) -> Vals {
        let mut d = self.at(p).drain();
        let mut out = vec![];
        for _ in 0..front {
            out.extend(d.next().map(take))
        }
        for _ in 0..back {
            out.extend(d.next_back().map(take))
        }
        out
    }
    unsafe fn copy(&self, p: *mut u8, to: *mut u8) {
        let r = self.at(p).clone();
        to.cast::<InlineArray<A, T>>().write(r)
    }
    unsafe fn relocate(&self, p: *mut u8, to: *mut u8) {
        let r = p.cast::<InlineArray<A, T>>().read();
        let r = std::hint::black_box(r);
        to.cast::<InlineArray<A, T>>().write(r)
    }
    unsafe fn swap(&self, p: *mut u8, q: *mut u8) {
        std::mem::swap(self.at(p), self.at(q))
    }
    unsafe fn edit(&self, p: *mut u8, i: usize, v: u8, how: usize) {
        let e = A::make(v);
        let a = self.at(p);
        match how % 4 {
            0 => a[i] = e,
            1 => *a.iter_mut().nth(i).unwrap() = e,
            2 => a.as_mut()[i] = e,
            _ => {
                let s: &mut [A] = std::borrow::BorrowMut::borrow_mut(a);
                s[i] = e
            }
        }
    }
    unsafe fn collect(&self, vs: &[u8], to: *mut u8) {
        let r: InlineArray<A, T> = vs.iter().map(|v| A::make(*v)).collect();
        to.cast::<InlineArray<A, T>>().write(r)
    }
    unsafe fn consume(&self, p: *mut u8, front: usize, back: usize) -> Vals {
        let mut d = p.cast::<InlineArray<A, T>>().read().into_iter();
        let mut out = vec![];
        for _ in 0..front {
            out.extend(d.next().map(take))
        }
        for _ in 0..back {
            out.extend(d.next_back().map(take))
        }
        out
    }
    unsafe fn extend(&self, p: *mut u8, vs: &[u8]) {
        self.at(p).extend(vs.iter().map(|v| A::make(*v)))
    }
}

struct Row {
    name: &'static str,
    arr: &'static dyn Arr,
}
macro_rules! row {
    ($out:ident, $h:ty, [$($e:ty),*]) => {
        $( $out.push(Row { name: concat!(stringify!($e), " in ", stringify!($h)), arr: &Pair::<$e, $h>(std::marker::PhantomData) }); )*
    };
}
macro_rules! rows {
    ($out:ident, [$($h:ty),*], $e:tt) => { $( row!($out, $h, $e); )* };
}
fn all() -> &'static [Row] {
    static ALL: std::sync::OnceLock<Vec<Row>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        // hosts around the size of the length, where nothing or hardly anything fits
        rows!(v, [(), A1<1>, A1<7>, u32, A1<8>, usize, A8<8>, A16<16>, A1<9>, A4<12>], [B1a1, B3a1, B4a4, B8a8, B16a16, Z1, Z8, ()]);
        // every alignment below, at and above that of the length
        rows!(v, [A1<27>, A2<26>, A4<28>, A8<32>, A16<32>, A32<32>, A64<64>],
            [B1a1, B2a1, B5a1, B2a2, B6a2, B4a4, B12a4, B8a8, B24a8, B16a16, B32a32, Z4, Z16, u8, u32, u64]);
        rows!(v, [A1<63>, A8<56>, A8<72>, A16<64>, A16<80>, A32<96>],
            [B1a1, B3a1, B7a1, B6a2, B12a4, B8a8, B24a8, B40a8, B16a16, B48a16, B32a32, B64a64, Z1, Z64, u16, u128, (u8, u64), Box<u8>, String]);
        rows!(v, [A1<255>, A8<264>, A16<256>, A32<224>, A64<256>],
            [B1a1, B5a1, B12a4, B24a8, B40a8, B48a16, B96a32, B64a64, Z16, u8, u128, Box<u8>]);
        rows!(v, [Padded, Late, Vec<u8>, [u128; 3], [String; 2], Option<Box<u8>>], [B1a1, B6a2, B12a4, B8a8, B16a16, B48a16, Z8, u32, Box<u8>]);
        v
    })
}
pub fn config_name(c: usize) -> String {
    format!("fit {}", all()[c % all().len()].name)
}
pub fn run(case: &Case, st: &mut Stats) {
    let i = case.config % all().len();
    live().fill(0);
    Sim::new(case, st, i).run(case)
}

const SLOTS: usize = 3;
const ARENA: usize = 4096;
#[repr(C, align(256))]
struct Arena([u8; ARENA]);

struct Sim<'s> {
    arr: &'static dyn Arr,
    name: &'static str,
    arena: Box<Arena>,
    /// Where the array of each slot is; none if it could not be made.
    at: [usize; SLOTS],
    here: [bool; SLOTS],
    model: [Vec<u8>; SLOTS],
    salt: u64,
    /// Elements may have been left behind by a destructor's panic.
    lossy: bool,
    refuses: bool,
    st: &'s mut Stats,
    config: usize,
}
impl<'s> Sim<'s> {
    fn new(case: &Case, st: &'s mut Stats, config: usize) -> Self {
        let salt = mix(case.seed ^ case.index.rotate_left(17));
        let mut s = Sim {
            arr: all()[config].arr,
            name: all()[config].name,
            arena: Box::new(Arena([0; ARENA])),
            at: [0; SLOTS],
            here: [false; SLOTS],
            model: Default::default(),
            salt,
            lossy: false,
            refuses: false,
            st,
            config,
        };
        for i in 0..ARENA {
            s.arena.0[i] = s.wild(i)
        }
        l().count_fault(F_DIRTY);
        s
    }
    fn wild(&self, i: usize) -> u8 {
        mix(self.salt ^ i as u64) as u8
    }
    fn ptr(&mut self, k: usize) -> *mut u8 {
        unsafe { self.arena.0.as_mut_ptr().add(self.at[k]) }
    }
    fn span(&self) -> usize {
        self.arr.sizes().4
    }
    /// A place for slot `k`, at any address its alignment allows.
    fn place(&self, k: usize, x: usize) -> usize {
        let (align, size) = (self.arr.sizes().5, self.span());
        let room = ARENA / SLOTS / align * align;
        let most = (room - size - 16) / align;
        k * room + x % (most + 1) * align
    }
    /// The memory holds no array any more: make it as wild as the rest.
    fn wipe(&mut self, k: usize) {
        self.here[k] = false;
        self.model[k].clear();
        for i in self.at[k]..self.at[k] + self.span() {
            self.arena.0[i] = self.wild(i)
        }
    }
    fn bad(&self, class: &str, msg: String) {
        l().violation(class, format!("InlineArray of {}: {}", self.name, msg))
    }
    /// What `new` may do for this pair.
    fn layout(&mut self) {
        let (es, ea, hs, ha, size, align) = self.arr.sizes();
        let word = size_of::<usize>();
        let cap = self.arr.cap();
        let fits = if es == 0 { usize::MAX } else if ea <= align && hs > word { (hs - word) / es } else { 0 };
        let room = (hs + align - 1) / align * align;
        if align < ha || align > ha.max(align_of::<u64>()).max(align_of::<usize>()) {
            self.bad("layout", format!("it is aligned to {}, its host to {}", align, ha))
        }
        if size > room {
            self.bad("layout", format!("it takes {} bytes, its host {}", size, hs))
        }
        if size < hs {
            self.bad("layout", format!("it takes {} bytes, less than its host's {}, so it cannot stand in for it", size, hs))
        }
        if cap != fits {
            self.bad("capacity", format!("its capacity is {}, {} elements fit", cap, fits))
        }
        self.refuses = hs < word || (es == 0 && ea > align);
    }
    fn make(&mut self, k: usize, x: usize) {
        self.at[k] = self.place(k, x);
        let p = self.ptr(k);
        let a = self.arr;
        match guarded(|| unsafe { a.build(p) }) {
            Ok(()) => {
                self.here[k] = true;
                if self.arr.sizes().2 < size_of::<usize>() {
                    self.bad("layout", "it was built in a host that cannot hold its length".into())
                }
            }
            Err(e) => {
                l().count_fault(F_REJECT);
                self.st.rejects += 1;
                if !self.refuses {
                    self.bad("refusal", format!("building an empty one panicked: {:?}", e))
                }
            }
        }
    }
    fn check(&mut self, how: usize) {
        if l().viol.is_some() {
            return;
        }
        let (es, ea, _, _, size, _) = self.arr.sizes();
        let cap = self.arr.cap();
        for k in 0..SLOTS {
            if !self.here[k] {
                continue;
            }
            let p = self.ptr(k);
            let (vals, at, n, empty, full) = unsafe { self.arr.look(p, how + k) };
            let m = &self.model[k];
            let want: Vals = m.iter().map(|v| Some(if es == 0 { 0 } else { *v })).collect();
            if at % ea != 0 {
                self.bad("alignment", format!("its elements lie at an address that is {} more than a multiple of {}", at % ea, ea));
                return;
            }
            if n > 0 && es > 0 && (at < p as usize || at + n * es > p as usize + size) {
                self.bad("layout", format!("its {} elements do not lie inside it", n));
                return;
            }
            if vals != want || n != m.len() {
                self.bad("contents", format!("slot {} holds {:?} (length {}), the model {:?}", k, vals, n, want));
                return;
            }
            if empty != (n == 0) || full != (n >= cap) {
                self.bad("contents", format!("with {} of {} elements it says empty {} and full {}", n, cap, empty, full));
                return;
            }
        }
        let mut i = 0;
        while i < ARENA {
            if let Some(k) = (0..SLOTS).find(|k| self.here[*k] && self.at[*k] == i) {
                i += self.span().max(1);
                let _ = k;
                continue;
            }
            if self.arena.0[i] != self.wild(i) {
                self.bad("stray-write", format!("byte {} of the arena, outside every array (at {:?}, {} bytes each), was changed", i, self.at, size));
                return;
            }
            i += 1;
        }
        if self.arr.counted() {
            let mut held = [0i32; 256];
            for k in 0..SLOTS {
                if self.here[k] {
                    self.model[k].iter().for_each(|v| held[if es == 0 { 0 } else { *v as usize }] += 1)
                }
            }
            if self.lossy {
                self.lossy = false;
                if held.iter().zip(live().iter()).any(|(h, n)| h > n) {
                    self.bad("dead-seen", "an element is shown that was destroyed".into())
                }
                *live() = held
            } else if held != *live() {
                let v = (0..256).find(|v| held[*v] != live()[*v]).unwrap();
                self.bad("leak", format!("{} elements of value {} are alive, {} are in arrays", live()[v], v, held[v]))
            }
        }
    }
    /// After a destructor panicked: the array must show intact elements, each of which was in it.
    fn resync(&mut self, k: usize) {
        let p = self.ptr(k);
        let (vals, at, n, _, _) = unsafe { self.arr.look(p, 0) };
        let (es, ea, ..) = self.arr.sizes();
        if vals.iter().any(|v| v.is_none()) || at % ea != 0 || n != vals.len() {
            self.bad("garbage", format!("after an interrupted call it shows {:?}", vals));
            return;
        }
        let mut rest = self.model[k].iter();
        let ok = vals.iter().all(|v| es == 0 && rest.next().is_some() || rest.any(|w| Some(*w) == *v));
        if !ok {
            self.bad("contents", format!("after an interrupted call it shows {:?}, before it {:?}", vals, self.model[k]));
            return;
        }
        self.model[k] = vals.into_iter().map(|v| v.unwrap()).collect();
        self.lossy = true
    }
    fn op(&mut self, op: &Op) {
        let f = ALL[op.code as usize % ALL.len()];
        *self.st.per_op.entry(op_name(f as u8)).or_insert(0) += 1;
        let (k, j) = (op.a as usize % SLOTS, (op.a as usize % SLOTS + 1 + op.b as usize % (SLOTS - 1)) % SLOTS);
        let (x, y, z) = (op.x as usize, op.y as usize, op.z as usize);
        if !self.here[k] {
            self.make(k, x);
            return;
        }
        self.st.steps += 1;
        let (a, p) = (self.arr, self.ptr(k));
        let zst = a.sizes().0 == 0;
        let cap = a.cap();
        let few = cap.min(40);
        let n = self.model[k].len();
        let mut v = z as u8;
        if zst {
            v = 0
        }
        let state = mix((self.config as u64) << 20 ^ (f as u64) << 12 ^ n as u64 ^ (op.fk as u64) << 40 ^ (op.fnth as u64) << 48);
        self.st.state(state);
        self.st.ops_effective += 1;
        match f {
            F::Push | F::Insert | F::Extend => {
                if zst && n > 200 {
                    return;
                }
                let i = if f == F::Insert { sel(op.x, n + 1, n, cap) } else { n };
                let vs: Vec<u8> = match f {
                    F::Extend => (0..y % 5).map(|d| if zst { 0 } else { v.wrapping_add(d as u8) }).collect(),
                    _ => vec![v],
                };
                let r = guarded(|| unsafe {
                    match f {
                        F::Push => a.push(p, v),
                        F::Insert => a.insert(p, i, v),
                        _ => a.extend(p, &vs),
                    }
                });
                let fits = i <= n && vs.len() <= cap - n.min(cap);
                match r {
                    Ok(()) if fits => {
                        self.model[k].splice(i..i, vs);
                    }
                    Err(Pan::Lib(_)) if !fits => {
                        l().count_fault(F_REJECT);
                        self.st.rejects += 1;
                        if f == F::Extend {
                            // as much as fits may have been taken in
                            let (vals, ..) = unsafe { a.look(p, 0) };
                            if vals.len() >= n && vals.len() <= cap && vals.len() - n <= vs.len() {
                                let d = vals.len() - n;
                                self.model[k].extend_from_slice(&vs[..d])
                            }
                        }
                    }
                    Ok(()) => self.bad("overfull", format!("{:?} at {} was accepted with {} of {} elements", f, i, n, cap)),
                    Err(e) => self.bad("refusal", format!("{:?} at {} with {} of {} elements panicked: {:?}", f, i, n, cap, e)),
                }
            }
            F::Pop | F::Remove => {
                let i = if f == F::Pop { n.wrapping_sub(1) } else { sel(op.x, n, n, cap) };
                l().arm(op.fk, op.fnth as u32);
                let r = guarded(|| unsafe { if f == F::Pop { a.pop(p) } else { a.remove(p, i) } });
                let fired = l().disarm();
                let want = if i < n { Some(Some(self.model[k].remove(i))) } else { None };
                match r {
                    Ok(got) if got == want => {}
                    Err(Pan::Inj(_)) if fired => {}
                    r => self.bad("contents", format!("{:?} at {} gave {:?}, the model {:?}", f, i, r, want)),
                }
            }
            F::SplitOff | F::CopyTo => {
                if self.here[j] {
                    let q = self.ptr(j);
                    unsafe { a.discard(q) };
                    self.wipe(j)
                }
                self.at[j] = self.place(j, y);
                let q = self.ptr(j);
                let i = if f == F::CopyTo { 0 } else { sel(op.x, n + 1, n, cap) };
                if f == F::CopyTo {
                    l().arm(op.fk, op.fnth as u32)
                }
                let r = guarded(|| unsafe { if f == F::CopyTo { a.copy(p, q) } else { a.split(p, i, q) } });
                let fired = l().disarm();
                match r {
                    Ok(()) if i <= n => {
                        self.here[j] = true;
                        self.model[j] = if f == F::CopyTo { self.model[k].clone() } else { self.model[k].split_off(i) }
                    }
                    Err(Pan::Inj(_)) if fired => {}
                    Err(Pan::Lib(_)) if i > n => {
                        l().count_fault(F_REJECT);
                        self.st.rejects += 1
                    }
                    r => self.bad("refusal", format!("{:?} at {} of {} elements: {:?}", f, i, n, r)),
                }
            }
            F::Clear => {
                l().arm(op.fk, op.fnth as u32);
                let r = guarded(|| unsafe { a.clear(p) });
                let fired = l().disarm();
                match r {
                    Ok(()) => self.model[k].clear(),
                    Err(Pan::Inj(_)) if fired => self.resync(k),
                    Err(e) => self.bad("spurious-panic", format!("clearing panicked: {:?}", e)),
                }
            }
            F::Drain | F::Consume => {
                let (front, back) = (x % (n + 2), y % (n + 2));
                l().arm(op.fk, op.fnth as u32);
                let r = guarded(|| unsafe { if f == F::Drain { a.drain(p, front, back) } else { a.consume(p, front, back) } });
                let fired = l().disarm();
                let mut m = self.model[k].clone();
                let mut want: Vals = vec![];
                for _ in 0..front {
                    if !m.is_empty() {
                        want.push(Some(m.remove(0)))
                    }
                }
                for _ in 0..back {
                    want.extend(m.pop().map(Some))
                }
                let interrupted = match r {
                    Ok(got) if got == want => false,
                    Err(Pan::Inj(_)) if fired => true,
                    r => {
                        self.bad("contents", format!("{:?} of {} from the front and {} from the back gave {:?}, the model {:?}", f, front, back, r, want));
                        return;
                    }
                };
                if f == F::Consume {
                    self.wipe(k);
                    self.lossy |= interrupted
                } else if interrupted {
                    self.resync(k)
                } else {
                    // what was not asked for stays
                    self.model[k] = m
                }
            }
            F::Fill => {
                for i in n..few {
                    let v = if zst { 0 } else { v.wrapping_add(i as u8) };
                    if let Err(e) = guarded(|| unsafe { if y % 2 == 0 { a.push(p, v) } else { a.insert(p, 0, v) } }) {
                        self.bad("capacity", format!("element {} of {} was refused: {:?}", i + 1, cap, e));
                        return;
                    }
                    if y % 2 == 0 { self.model[k].push(v) } else { self.model[k].insert(0, v) }
                }
                if few == cap {
                    l().count_fault(F_REJECT);
                    self.st.rejects += 1;
                    if guarded(|| unsafe { if y % 2 == 0 { a.push(p, v) } else { a.insert(p, 0, v) } }).is_ok() {
                        self.bad("overfull", format!("it took in more than {} elements", cap))
                    }
                }
            }
            F::Relocate => {
                // through somewhere else, so that old and new place may overlap
                let mut far = Box::new(Arena([0xee; ARENA]));
                let q = far.0.as_mut_ptr();
                unsafe { a.relocate(p, q) };
                let m = std::mem::take(&mut self.model[k]);
                self.wipe(k);
                self.at[k] = self.place(k, x);
                let p = self.ptr(k);
                unsafe { a.relocate(q, p) };
                self.model[k] = m;
                self.here[k] = true;
            }
            F::Swap => {
                if self.here[j] {
                    let q = self.ptr(j);
                    unsafe { a.swap(p, q) };
                    self.model.swap(k, j)
                }
            }
            F::Edit => {
                if n == 0 {
                    return;
                }
                let i = x % n;
                l().arm(op.fk, op.fnth as u32);
                let r = guarded(|| unsafe { a.edit(p, i, v, y) });
                let fired = l().disarm();
                match r {
                    Ok(()) => self.model[k][i] = v,
                    // the new element takes the place whether or not the old one went quietly
                    Err(Pan::Inj(_)) if fired => self.model[k][i] = v,
                    Err(e) => self.bad("spurious-panic", format!("overwriting element {} panicked: {:?}", i, e)),
                }
            }
            F::Collect => {
                unsafe { a.discard(p) };
                self.wipe(k);
                self.at[k] = self.place(k, x);
                let p = self.ptr(k);
                let count = match y % 4 {
                    0 => few,
                    1 => few.saturating_add(1 + z % 3),
                    _ => (y / 4) % (few + 1),
                };
                let vs: Vec<u8> = (0..count).map(|i| if zst { 0 } else { v.wrapping_add(i as u8) }).collect();
                match guarded(|| unsafe { a.collect(&vs, p) }) {
                    Ok(()) if count <= cap => {
                        self.model[k] = vs;
                        self.here[k] = true
                    }
                    Err(Pan::Lib(_)) if count > cap => {
                        l().count_fault(F_REJECT);
                        self.st.rejects += 1
                    }
                    r => self.bad("capacity", format!("collecting {} elements into room for {}: {:?}", count, cap, r)),
                }
            }
            F::Rebuild => {
                l().arm(op.fk, op.fnth as u32);
                let r = guarded(|| unsafe { a.discard(p) });
                let fired = l().disarm();
                self.wipe(k);
                match r {
                    Ok(()) => {}
                    Err(Pan::Inj(_)) if fired => self.lossy = true,
                    Err(e) => self.bad("spurious-panic", format!("dropping it panicked: {:?}", e)),
                }
                self.make(k, x)
            }
        }
    }
    fn run(mut self, case: &Case) {
        self.layout();
        for k in 0..SLOTS {
            let x = mix(self.salt ^ k as u64) as usize % 997;
            self.make(k, x)
        }
        if !self.here[0] {
            self.st.ops_effective += 3
        }
        self.check(0);
        for (n, op) in case.ops.iter().enumerate() {
            if l().viol.is_some() {
                return;
            }
            if let Err(p) = guarded(|| self.op(op)) {
                l().disarm();
                self.bad("spurious-panic", format!("{} panicked: {:?}", op_name(op.code), p))
            }
            self.check(n)
        }
        if l().viol.is_some() {
            return;
        }
        for k in 0..SLOTS {
            if self.here[k] {
                let p = self.ptr(k);
                if let Err(e) = guarded(|| unsafe { self.arr.discard(p) }) {
                    self.bad("spurious-panic", format!("dropping it panicked: {:?}", e))
                }
                self.wipe(k)
            }
        }
        self.check(0)
    }
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, 0xf17 ^ prop.len() as u64, index);
    let config = r.below(all().len() as u64) as usize;
    let mut s = |w: u32| if r.chance(250) { 0 } else { w };
    let table = [
        (F::Push, 8), (F::Pop, s(4)), (F::Insert, s(6)), (F::Remove, s(5)), (F::SplitOff, s(4)), (F::Clear, s(2)), (F::Drain, s(3)),
        (F::Fill, s(3)), (F::CopyTo, s(5)), (F::Relocate, 5), (F::Swap, s(4)), (F::Edit, s(4)), (F::Collect, s(3)), (F::Consume, s(2)),
        (F::Rebuild, s(2)), (F::Extend, s(3)),
    ];
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let (wild, bad) = ([0, 30, 200][r.below(3) as usize], [0, 150, 350][r.below(3) as usize]);
    let nops = 6 + r.below(40) as usize;
    let mut ops = vec![];
    for n in 0..nops {
        let f = if n == 0 { F::Fill } else { table[r.weighted(&weights)].0 };
        let mut op = Op {
            code: f as u8,
            a: r.below(256) as u8,
            b: r.below(256) as u8,
            x: if r.chance(wild) { WILD + r.below(5000) as u16 } else { r.below(60_000) as u16 },
            y: r.below(60_000) as u16,
            z: r.below(60_000) as u16,
            fk: 0,
            fnth: 0,
        };
        if r.chance(bad) {
            op.fk = match f {
                F::CopyTo => F_CLONE,
                F::Clear | F::Drain | F::Consume | F::Rebuild | F::Edit | F::Pop | F::Remove => F_DROP,
                _ => 0,
            };
            op.fnth = if r.chance(500) { r.below(3) } else { r.below(12) } as u8;
        }
        ops.push(op);
    }
    Case { prop: prop.into(), engine: "fit".into(), config, seed, index, ops }
}
