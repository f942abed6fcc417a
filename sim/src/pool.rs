//! Containers living in reference-counted pools (`refpool`): every cell of pool memory is recycled
//! dirty, fresh allocations come pre-filled with misleading words, and element clones panic part
//! way. The reference is a table of cells (what each shared allocation holds) and handles.
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use crate::seq::rig::Slot;
#[allow(unused_imports)]
use array_ops::{Array, HasLength};
use refpool::{Pool, PoolBox, PoolClone, PoolDefault, PoolRef};
use sized_chunks::{Chunk, RingBuffer, SparseChunk};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as AO};

// ---------------------------------------------------------------- dirty memory
/// Fills every allocation with a word of the run's choosing while switched on.
pub struct DirtyAlloc;
static DIRTY: AtomicBool = AtomicBool::new(false);
static WORD: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for DirtyAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if DIRTY.load(AO::Relaxed) && !p.is_null() {
            let w = WORD.load(AO::Relaxed).to_le_bytes();
            for i in 0..layout.size() {
                *p.add(i) = w[i & 7];
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if DIRTY.load(AO::Relaxed) {
            let w = WORD.load(AO::Relaxed).to_le_bytes();
            for i in 0..layout.size() {
                std::ptr::write_volatile(p.add(i), w[i & 7]);
            }
        }
        System.dealloc(p, layout)
    }
}
fn dirty(word: u64) {
    WORD.store(word, AO::Relaxed);
    DIRTY.store(true, AO::Relaxed);
}
fn clean() {
    DIRTY.store(false, AO::Relaxed)
}

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! {
    Fill, Dirt, Default, New, CloneFrom, Cloned, Share, MakeMut, GetMut, TryUnwrap, UnwrapOrClone, Release, Raw,
    BoxDefault, BoxNew, BoxCloneFrom, BoxClone, BoxEdit, BoxRelease, BoxRaw, Plain, PlainEdit, PlainRelease, PlainClone,
    Compare, Inspect, Direct, PoolSwap, Churn,
}
pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("pool {}", s)).unwrap_or_else(|| "?".into())
}

type M = Vec<(usize, u32)>;

// ---------------------------------------------------------------- poolable containers
pub trait Pc: PoolDefault + PoolClone + PartialEq + std::fmt::Debug + 'static {
    type E: Elem;
    const CAP: usize;
    fn read(&self) -> M;
    /// One honest request, mirrored in the model.
    fn edit(&mut self, m: &mut M, k: u16, x: u16, e: Self::E);
}
fn renumber(m: &mut M) {
    m.iter_mut().enumerate().for_each(|(i, e)| e.0 = i)
}
fn wrong(what: String) {
    l().violation("pooled", what)
}
macro_rules! seq_pc {
    ($t:ident, $popb:expr, $popf:expr) => {
        impl<E: Elem, const N: usize> Pc for $t<E, N> {
            type E = E;
            const CAP: usize = N;
            fn read(&self) -> M {
                let v: M = self.iter().map(|e| e.id()).enumerate().collect();
                if self.len() != v.len() || v.len() > N || self.is_full() != (v.len() == N) || self.is_empty() != v.is_empty() {
                    wrong(format!("length {} and contents {:?} disagree", self.len(), v))
                }
                for (i, id) in &v {
                    if self[*i].id() != *id {
                        wrong(format!("index {} shows another element than iteration", i))
                    }
                }
                if self.first().map(|e| e.id()) != v.first().map(|e| e.1) || self.last().map(|e| e.id()) != v.last().map(|e| e.1) {
                    wrong("first/last and iteration disagree".into())
                }
                v
            }
            fn edit(&mut self, m: &mut M, k: u16, x: u16, e: E) {
                let id = e.id();
                let len = m.len();
                let i = if len == 0 { 0 } else { x as usize % len };
                match k % 12 {
                    0..=2 if len < N => {
                        self.push_back(e);
                        m.push((0, id))
                    }
                    3 | 4 if len < N => {
                        self.push_front(e);
                        m.insert(0, (0, id))
                    }
                    5 if len < N => {
                        let i = x as usize % (len + 1);
                        self.insert(i, e);
                        m.insert(i, (0, id))
                    }
                    6 if len > 0 => {
                        let o: Option<E> = $popb(self);
                        let w = m.pop().unwrap().1;
                        if o.map(|e| e.id()) != Some(w) {
                            wrong("pop_back gave another element".into())
                        }
                    }
                    7 if len > 0 => {
                        let o: Option<E> = $popf(self);
                        let w = m.remove(0).1;
                        if o.map(|e| e.id()) != Some(w) {
                            wrong("pop_front gave another element".into())
                        }
                    }
                    8 if len > 0 => {
                        let o = self.remove(i);
                        if o.id() != m.remove(i).1 {
                            wrong("remove gave another element".into())
                        }
                    }
                    9 if len > 0 => {
                        drop(std::mem::replace(&mut self[i], e));
                        m[i].1 = id
                    }
                    10 => {
                        if x % 3 == 0 {
                            self.clear();
                            m.clear()
                        } else if x % 3 == 1 {
                            self.drop_left(i);
                            m.drain(..i);
                        } else {
                            self.drop_right(i);
                            m.truncate(i)
                        }
                    }
                    _ => {
                        // move the contents to another place in storage
                        for _ in 0..x as usize % (N + 1) {
                            if m.is_empty() {
                                break;
                            }
                            let o: Option<E> = $popf(self);
                            match o {
                                Some(o) => self.push_back(o),
                                None => wrong("pop_front found nothing".into()),
                            }
                            let f = m.remove(0);
                            m.push(f)
                        }
                    }
                }
                renumber(m);
            }
        }
    };
}
seq_pc!(Chunk, |c: &mut Chunk<E, N>| if c.is_empty() { None } else { Some(c.pop_back()) }, |c: &mut Chunk<E, N>| if c.is_empty() {
    None
} else {
    Some(c.pop_front())
});
seq_pc!(RingBuffer, |c: &mut RingBuffer<E, N>| c.pop_back(), |c: &mut RingBuffer<E, N>| c.pop_front());

impl<E: Elem, const N: usize> Pc for SparseChunk<E, N>
where
    bitmaps::BitsImpl<N>: bitmaps::Bits,
{
    type E = E;
    const CAP: usize = N;
    fn read(&self) -> M {
        let v: M = self.entries().map(|(i, e)| (i, e.id())).collect();
        let w: M = (0..N).filter_map(|i| self.get(i).map(|e| (i, e.id()))).collect();
        if v != w || self.len() != v.len() || self.is_full() != (v.len() == N) || self.is_empty() != v.is_empty() {
            wrong(format!("entries {:?}, lookups {:?}, length {}", v, w, self.len()))
        }
        v
    }
    fn edit(&mut self, m: &mut M, k: u16, x: u16, e: E) {
        let id = e.id();
        let i = x as usize % N;
        let at = m.binary_search_by_key(&i, |t| t.0);
        match k % 9 {
            0..=5 => {
                let o = self.insert(i, e).map(|e| e.id());
                let w = match at {
                    Ok(p) => Some(std::mem::replace(&mut m[p].1, id)),
                    Err(p) => {
                        m.insert(p, (i, id));
                        None
                    }
                };
                if o != w {
                    wrong("insert displaced another element".into())
                }
            }
            6 => {
                let o = self.remove(i).map(|e| e.id());
                if o != at.ok().map(|p| m.remove(p).1) {
                    wrong("remove gave another element".into())
                }
            }
            7 => {
                let o = self.pop().map(|e| e.id());
                let w = if m.is_empty() { None } else { Some(m.remove(0).1) };
                if o != w {
                    wrong("pop gave another element".into())
                }
            }
            _ => {
                for i in 0..N {
                    if (x >> (i % 13)) & 1 == 1 {
                        drop(self.remove(i));
                        m.retain(|t| t.0 != i)
                    }
                }
            }
        }
    }
}

struct CellM {
    m: M,
    n: usize,
}
struct Sim<'s, C: Pc> {
    pools: Vec<Pool<C>>,
    cells: BTreeMap<u32, CellM>,
    next: u32,
    drops: u64,
    handles: Vec<(PoolRef<C>, u32)>,
    boxes: Vec<(PoolBox<C>, M)>,
    plain: Vec<(Box<C>, M)>,
    st: &'s mut Stats,
    minted: u64,
    config: usize,
}

impl<C: Pc> Sim<'_, C> {
    fn mint(&mut self) -> C::E {
        self.minted += 1;
        C::E::mint((mix(self.minted) % 50) as i32)
    }
    fn cell(&mut self, m: M) -> u32 {
        self.next += 1;
        self.cells.insert(self.next, CellM { m, n: 1 });
        self.next
    }
    fn unhold(&mut self, c: u32) {
        let e = self.cells.get_mut(&c).unwrap();
        e.n -= 1;
        if e.n == 0 {
            self.cells.remove(&c);
        }
    }
    fn accounted(&self) -> (HashSet<u32>, usize) {
        let mut s = HashSet::new();
        let mut n = 0;
        for m in self.cells.values().map(|c| &c.m).chain(self.boxes.iter().map(|b| &b.1)).chain(self.plain.iter().map(|p| &p.1)) {
            n += m.len();
            s.extend(m.iter().map(|x| x.1));
        }
        (s, n)
    }
    /// After an allowed leak: whatever is nowhere any more is written off.
    fn write_off(&mut self) {
        if !C::E::TRACKED {
            return;
        }
        let (s, n) = self.accounted();
        if C::E::ZST {
            let extra = l().z_live() - n as isize;
            if extra > 0 {
                l().z_limbo += extra as usize
            }
        } else {
            l().abandon_except(&|id| s.contains(&id));
        }
    }
    /// The clones the last call made must be one per element of `src`, in place.
    fn copied(&self, src: &M, what: &str) -> Option<M> {
        let clones = &l().clones;
        if !C::E::DUP && clones.len() != src.len() {
            wrong(format!("{}: {} clones of {} elements", what, clones.len(), src.len()));
            return None;
        }
        if !C::E::TRACKED || C::E::ZST {
            return Some(src.clone());
        }
        let by: BTreeMap<u32, u32> = clones.iter().map(|c| (l().slots[*c as usize].parent, *c)).collect();
        let out: M = src.iter().filter_map(|(i, id)| by.get(id).map(|c| (*i, *c))).collect();
        if out.len() != src.len() {
            wrong(format!("{}: clones {:?} of {:?}", what, clones, src));
            return None;
        }
        Some(out)
    }
    /// Run a library call that may clone. `Ok(Some)` on success, `Ok(None)` if the planned clone
    /// panic stopped it.
    fn call<T>(&mut self, op: &Op, what: &str, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        l().clones.clear();
        l().arm(op.fk, op.fnth as u32);
        let r = guarded(|| f(self));
        let fired = l().disarm();
        self.st.steps += 1;
        match r {
            Ok(v) => {
                if fired {
                    wrong(format!("{}: an element's panic was swallowed", what))
                }
                l().ev(70, l().clones.len() as u64, 0);
                Some(v)
            }
            Err(Pan::Inj(k)) if fired && k == op.fk => {
                l().ev(71, l().clones.len() as u64, k as u64);
                None
            }
            Err(p) => {
                l().violation("spurious-panic", format!("{} panicked: {:?}", what, p));
                None
            }
        }
    }
    fn src_m(&self, h: usize) -> M {
        self.cells[&self.handles[h].1].m.clone()
    }
    fn state(&mut self, f: F, len: usize, extra: usize) {
        let free = self.pools.first().map(|p| p.get_pool_size()).unwrap_or(0).min(9);
        self.st.state(mix(((self.config as u64) << 40) ^ ((f as u64) << 32) ^ ((len as u64) << 20) ^ ((extra as u64) << 8) ^ free as u64));
    }

    fn op(&mut self, op: &Op) {
        let f = ALL[op.code as usize % ALL.len()];
        *self.st.per_op.entry(op_name(f as u8)).or_insert(0) += 1;
        let pool = self.pools[op.a as usize % self.pools.len()].clone();
        let h = if self.handles.is_empty() { None } else { Some(op.x as usize % self.handles.len()) };
        let b = if self.boxes.is_empty() { None } else { Some(op.x as usize % self.boxes.len()) };
        let p = if self.plain.is_empty() { None } else { Some(op.x as usize % self.plain.len()) };
        let name = op_name(f as u8);
        let allocates = matches!(f, F::Default | F::New | F::CloneFrom | F::Cloned | F::BoxDefault | F::BoxNew | F::BoxCloneFrom | F::BoxClone);
        if allocates && pool.get_max_size() > 0 && pool.get_pool_size() == 0 {
            l().count_fault(F_EXHAUST)
        }
        match f {
            F::Fill => pool.fill(),
            F::Dirt => {
                dirty([0, !0, 0x0101_0101_0101_0101, 1, 2, 3, 0x0000_0001_0000_0002, 0xdbdb_dbdb_dbdb_dbdb, mix(op.x as u64)][op.y as usize % 9]);
                l().count_fault(F_DIRTY);
            }
            F::Default => {
                if let Some(r) = self.call(op, &name, |_| PoolRef::default(&pool)) {
                    let c = self.cell(vec![]);
                    self.handles.push((r, c));
                }
            }
            F::Plain => {
                let mut m = vec![];
                let mut c = Box::new(C::default());
                for n in 0..op.y as usize % (2 * C::CAP.min(12) + 1) {
                    let e = self.mint();
                    c.edit(&mut m, (mix(op.z as u64 + n as u64) % 6) as u16, mix(op.x as u64 + n as u64) as u16, e);
                }
                self.plain.push((c, m));
            }
            F::New | F::BoxNew => {
                if let Some(p) = p {
                    let (c, m) = self.plain.swap_remove(p);
                    if f == F::New {
                        let r = PoolRef::new(&pool, *c);
                        let k = self.cell(m);
                        self.handles.push((r, k));
                    } else {
                        let r = PoolBox::new(&pool, *c);
                        self.boxes.push((r, m));
                    }
                }
            }
            F::CloneFrom | F::BoxCloneFrom => {
                // from a free-standing value, a shared one or a boxed one
                let m = match op.z % 3 {
                    0 => p.map(|p| self.plain[p].1.clone()),
                    1 => h.map(|h| self.src_m(h)),
                    _ => b.map(|b| self.boxes[b].1.clone()),
                };
                let Some(m) = m else { return };
                let isref = f == F::CloneFrom;
                let got = self.call(op, &name, |s| {
                    let v: &C = match op.z % 3 {
                        0 => &s.plain[p.unwrap()].0,
                        1 => &s.handles[h.unwrap()].0,
                        _ => &s.boxes[b.unwrap()].0,
                    };
                    if isref {
                        (Some(PoolRef::clone_from(&pool, v)), None)
                    } else {
                        (None, Some(PoolBox::clone_from(&pool, v)))
                    }
                });
                self.state(f, m.len(), l().clones.len());
                match got {
                    Some((r, bx)) => {
                        let Some(m) = self.copied(&m, &name) else { return };
                        if let Some(r) = r {
                            let k = self.cell(m);
                            self.handles.push((r, k));
                        } else {
                            self.boxes.push((bx.unwrap(), m));
                        }
                    }
                    None => self.write_off(),
                }
            }
            F::Cloned => {
                let Some(h) = h else { return };
                let m = self.src_m(h);
                let got = self.call(op, &name, |s| PoolRef::cloned(&pool, &s.handles[h].0));
                self.state(f, m.len(), l().clones.len());
                match got {
                    Some(r) => {
                        let Some(m) = self.copied(&m, &name) else { return };
                        let k = self.cell(m);
                        self.handles.push((r, k));
                    }
                    None => self.write_off(),
                }
            }
            F::BoxClone => {
                let Some(b) = b else { return };
                let m = self.boxes[b].1.clone();
                match self.call(op, &name, |s| s.boxes[b].0.clone()) {
                    Some(r) => {
                        let Some(m) = self.copied(&m, &name) else { return };
                        self.boxes.push((r, m))
                    }
                    None => self.write_off(),
                }
            }
            F::PlainClone => {
                let Some(p) = p else { return };
                let m = self.plain[p].1.clone();
                match self.call(op, &name, |s| Box::new((*s.plain[p].0).clone())) {
                    Some(c) => {
                        let Some(m) = self.copied(&m, &name) else { return };
                        self.plain.push((c, m))
                    }
                    None => self.write_off(),
                }
            }
            F::Share => {
                let Some(h) = h else { return };
                let (r, c) = (self.handles[h].0.clone(), self.handles[h].1);
                if !PoolRef::ptr_eq(&r, &self.handles[h].0) {
                    wrong("a shared handle points elsewhere".into())
                }
                self.cells.get_mut(&c).unwrap().n += 1;
                self.handles.push((r, c));
            }
            F::MakeMut => {
                let Some(h) = h else { return };
                let cid = self.handles[h].1;
                let shared = self.cells[&cid].n > 1;
                let m = self.src_m(h);
                let got = self.call(op, &name, |s| {
                    PoolRef::make_mut(&pool, &mut s.handles[h].0);
                });
                self.state(f, m.len(), l().clones.len() * 2 + shared as usize);
                if got.is_none() {
                    self.write_off();
                    return;
                }
                let mut m = if shared {
                    let Some(m) = self.copied(&m, &name) else { return };
                    self.unhold(cid);
                    self.handles[h].1 = self.cell(m.clone());
                    m
                } else {
                    if !l().clones.is_empty() {
                        wrong("modifying an unshared handle copied its contents".into())
                    }
                    m
                };
                // no other handle may notice what happens now
                let e = self.mint();
                let q = &mut self.handles[h].0;
                let r = guarded(|| PoolRef::make_mut(&pool, q).edit(&mut m, op.y, op.z, e));
                self.handles[h].1 = {
                    let c = self.handles[h].1;
                    self.cells.get_mut(&c).unwrap().m = m;
                    c
                };
                self.must(r, "editing through make_mut");
            }
            F::GetMut => {
                let Some(h) = h else { return };
                let cid = self.handles[h].1;
                let shared = self.cells[&cid].n > 1;
                let mut m = self.src_m(h);
                let e = self.mint();
                let q = &mut self.handles[h].0;
                let r = guarded(|| match PoolRef::get_mut(q) {
                    Some(c) => {
                        c.edit(&mut m, op.y, op.z, e);
                        true
                    }
                    None => false,
                });
                self.cells.get_mut(&cid).unwrap().m = m;
                if r == Ok(shared) {
                    wrong(format!("get_mut answered {:?} for a handle with {} owners", r, self.cells[&cid].n))
                }
                self.must(r, "editing through get_mut");
            }
            F::TryUnwrap => {
                let Some(h) = h else { return };
                let (r, cid) = self.handles.swap_remove(h);
                let shared = self.cells[&cid].n > 1;
                match PoolRef::try_unwrap(r) {
                    Ok(c) if !shared => {
                        let m = self.cells.remove(&cid).unwrap().m;
                        self.plain.push((Box::new(c), m));
                    }
                    Err(r) if shared => self.handles.push((r, cid)),
                    Ok(c) => {
                        std::mem::forget(c);
                        wrong("try_unwrap took a shared value".into())
                    }
                    Err(r) => {
                        std::mem::forget(r);
                        wrong("try_unwrap refused an unshared value".into())
                    }
                }
            }
            F::UnwrapOrClone => {
                let Some(h) = h else { return };
                let (r, cid) = self.handles.swap_remove(h);
                let shared = self.cells[&cid].n > 1;
                let m = self.cells[&cid].m.clone();
                let got = self.call(op, &name, |_| Box::new(PoolRef::unwrap_or_clone(r)));
                self.unhold(cid);
                match got {
                    Some(c) => {
                        let m = if shared {
                            let Some(m) = self.copied(&m, &name) else {
                                std::mem::forget(c);
                                return;
                            };
                            m
                        } else {
                            m
                        };
                        self.plain.push((c, m));
                    }
                    None => self.write_off(),
                }
            }
            F::Release | F::BoxRelease | F::PlainRelease => {
                let m;
                let got = match f {
                    F::Release => {
                        let Some(h) = h else { return };
                        let (r, cid) = self.handles.swap_remove(h);
                        m = if self.cells[&cid].n > 1 { vec![] } else { self.cells[&cid].m.clone() };
                        self.unhold(cid);
                        self.call(op, &name, |_| drop(r))
                    }
                    F::BoxRelease => {
                        let Some(b) = b else { return };
                        let (r, mm) = self.boxes.swap_remove(b);
                        m = mm;
                        self.call(op, &name, |_| drop(r))
                    }
                    _ => {
                        let Some(p) = p else { return };
                        let (c, mm) = self.plain.swap_remove(p);
                        m = mm;
                        self.call(op, &name, |_| drop(c))
                    }
                };
                self.state(f, m.len(), got.is_some() as usize);
                if got.is_none() {
                    // a panicking destructor may cut the release short
                    self.write_off();
                } else if C::E::TRACKED && !C::E::ZST {
                    if let Some((_, id)) = m.iter().find(|(_, id)| !l().is_dead(*id)) {
                        l().violation("leak", format!("{}: token {} was not destroyed with its container", name, id))
                    }
                }
            }
            F::Raw => {
                let Some(h) = h else { return };
                let (r, c) = self.handles.swap_remove(h);
                let raw = PoolRef::into_raw(r);
                let got = guarded(|| unsafe { &*raw }.read());
                let want = self.cells[&c].m.clone();
                self.handles.push((unsafe { PoolRef::from_raw(raw) }, c));
                if got != Ok(want) {
                    wrong("a value seen through its raw handle differs".into())
                }
            }
            F::BoxRaw => {
                let Some(b) = b else { return };
                let (r, m) = self.boxes.swap_remove(b);
                let raw = PoolBox::into_raw(r);
                let got = guarded(|| unsafe { &*raw }.read());
                let ok = got == Ok(m.clone());
                self.boxes.push((unsafe { PoolBox::from_raw(raw) }, m));
                if !ok {
                    wrong("a value seen through its raw box differs".into())
                }
            }
            F::BoxDefault => {
                let r = PoolBox::default(&pool);
                self.boxes.push((r, vec![]));
            }
            F::BoxEdit | F::PlainEdit => {
                let e = self.mint();
                let r = if f == F::BoxEdit {
                    let Some(b) = b else { return };
                    let (c, m) = &mut self.boxes[b];
                    guarded(|| c.edit(m, op.y, op.z, e))
                } else {
                    let Some(p) = p else { return };
                    let (c, m) = &mut self.plain[p];
                    guarded(|| c.edit(m, op.y, op.z, e))
                };
                self.must(r, "editing a pooled box");
            }
            F::Compare => {
                let Some(h) = h else { return };
                let g = op.y as usize % self.handles.len();
                let (x, y) = (&self.handles[h], &self.handles[g]);
                let same = x.1 == y.1;
                if PoolRef::ptr_eq(&x.0, &y.0) != same {
                    wrong(format!("ptr_eq of handles {} and {} is not {}", h, g, same))
                }
                for (r, c) in [x, y] {
                    if PoolRef::strong_count(r) != self.cells[c].n {
                        wrong(format!("strong count {} of a value with {} owners", PoolRef::strong_count(r), self.cells[c].n))
                    }
                }
                let v = |m: &M| -> Vec<(usize, i32)> { m.iter().map(|(i, id)| (*i, if C::E::ZST { 0 } else { l().val(*id) })).collect() };
                let want = v(&self.cells[&x.1].m) == v(&self.cells[&y.1].m);
                let r = guarded(|| (x.0 == y.0, y.0 == x.0, *x.0 == *y.0));
                if r != Ok((want, want, want)) {
                    wrong(format!("comparing handles gave {:?}, expected {}", r, want))
                }
            }
            F::Inspect => {
                let Some(h) = h else { return };
                let want = self.src_m(h);
                let r = guarded(|| format!("{:?}", *self.handles[h].0) == format!("{:?}", self.handles[h].0));
                if r != Ok(true) {
                    wrong(format!("printing a handle: {:?} ({:?})", r, want))
                }
            }
            F::Direct => {
                // the traits themselves, on canaried memory
                let mut s: Box<Slot<C>> = Slot::boxed();
                let fresh = op.y % 3 == 0 || h.is_none();
                let m = if fresh { vec![] } else { self.src_m(h.unwrap()) };
                let got = self.call(op, &name, |t| unsafe {
                    let slot: &mut MaybeUninit<C> = &mut *s.raw();
                    if fresh {
                        C::default_uninit(slot)
                    } else {
                        t.handles[h.unwrap()].0.clone_uninit(slot)
                    }
                });
                if !s.ok() {
                    l().violation("canary", format!("{} wrote outside its target", name))
                }
                match got {
                    Some(()) => {
                        let Some(m) = self.copied(&m, &name) else { return };
                        let c = Box::new(unsafe { std::ptr::read(s.get()) });
                        self.plain.push((c, m));
                    }
                    None => self.write_off(),
                }
            }
            F::PoolSwap => {
                let i = op.a as usize % self.pools.len();
                drop(pool);
                let n = [0usize, 1, 2, 3, 8][op.y as usize % 5];
                self.pools[i] = if op.z % 2 == 0 { Pool::new(n) } else { Pool::new(n).filled() };
            }
            F::Churn => {
                // release everything shared, so the pool's stack holds dirty cells
                for _ in 0..op.y as usize % 5 {
                    let Some((r, c)) = self.handles.pop() else { break };
                    self.unhold(c);
                    let r = guarded(|| drop(r));
                    self.must(r, "releasing a handle");
                }
            }
        }
        self.st.ops_effective += 1;
        if self.handles.len() > 10 {
            let (r, c) = self.handles.remove(0);
            self.unhold(c);
            let r = guarded(|| drop(r));
            self.must(r, "releasing a handle");
        }
        if self.boxes.len() > 5 {
            let (r, _) = self.boxes.remove(0);
            let r = guarded(|| drop(r));
            self.must(r, "releasing a box");
        }
        if self.plain.len() > 5 {
            let (r, _) = self.plain.remove(0);
            let r = guarded(|| drop(r));
            self.must(r, "dropping a value");
        }
    }
    fn must<T>(&mut self, r: Result<T, Pan>, what: &str) {
        if let Err(p) = r {
            l().violation("spurious-panic", format!("{} panicked: {:?}", what, p))
        }
    }
    fn check(&mut self, when: &str) {
        if l().viol.is_some() {
            return;
        }
        let r = guarded(|| {
            for (i, (r, c)) in self.handles.iter().enumerate() {
                let (have, want) = (r.read(), &self.cells[c].m);
                if have != *want {
                    wrong(format!("{}: handle {} shows {:?}, expected {:?}", when, i, have, want))
                }
            }
            for (b, m) in &self.boxes {
                let have = b.read();
                if have != *m {
                    wrong(format!("{}: a pooled box shows {:?}, expected {:?}", when, have, m))
                }
            }
            for (c, m) in &self.plain {
                let have = c.read();
                if have != *m {
                    wrong(format!("{}: a value taken out of its pool shows {:?}, expected {:?}", when, have, m))
                }
            }
        });
        self.must(r, "looking at the contents");
        if l().viol.is_some() || !C::E::TRACKED {
            return;
        }
        let drops = l().fault_counts[F_DROP as usize];
        if drops != self.drops {
            // what a panicking destructor cut short may have left elements behind for good
            self.drops = drops;
            self.write_off();
        }
        let (_, n) = self.accounted();
        let have = if C::E::ZST { l().z_live() } else { l().live as isize };
        if have != n as isize {
            l().violation(if have > n as isize { "leak" } else { "lost" }, format!("{}: {} elements alive, {} in containers", when, have, n));
        }
    }
}

fn go<C: Pc>(case: &Case, st: &mut Stats) {
    let mut sim: Sim<C> = Sim {
        pools: vec![Pool::new([1, 0, 2, 3, 8][case.config / 64 % 5]), Pool::new(2)],
        cells: BTreeMap::new(),
        next: 0,
        drops: 0,
        handles: vec![],
        boxes: vec![],
        plain: vec![],
        st,
        minted: 0,
        config: case.config,
    };
    for op in &case.ops {
        sim.op(op);
        sim.check(&format!("after {}", op_name(op.code)));
        if l().viol.is_some() {
            break;
        }
    }
    clean();
    let (hs, bs, ps, pools) = (std::mem::take(&mut sim.handles), std::mem::take(&mut sim.boxes), std::mem::take(&mut sim.plain), std::mem::take(&mut sim.pools));
    if l().viol.is_some() {
        std::mem::forget((hs, bs, ps, pools));
        return;
    }
    // pools may go before their contents
    let early = case.ops.len() % 2 == 0;
    let mut pools = Some(pools);
    if early {
        pools = None;
    }
    sim.cells.clear();
    let r = guarded(|| {
        drop(hs);
        drop(bs);
        drop(ps)
    });
    sim.must(r, "releasing everything");
    drop(pools);
    sim.check("after releasing everything");
}

struct Row {
    name: &'static str,
    run: fn(&Case, &mut Stats),
    cap: usize,
    weight: u32,
}
macro_rules! rows {
    ($( $w:literal $t:ty ),* $(,)?) => {
        const ROWS: &[Row] = &[$( Row { name: concat!("pooled ", stringify!($t)), run: go::<$t>, cap: <$t as Pc>::CAP, weight: $w } ),*];
    };
}
rows![
    2 Chunk<Tok, 1>, 4 Chunk<Tok, 4>, 3 Chunk<Tok, 8>, 1 Chunk<Tok, 64>, 2 Chunk<Odd, 5>, 2 Chunk<Big, 3>, 1 Chunk<Zst, 4>, 1 Chunk<Zal, 3>, 1 Chunk<Cop, 8>, 1 Chunk<Pod, 6>,
    2 RingBuffer<Tok, 1>, 4 RingBuffer<Tok, 4>, 3 RingBuffer<Tok, 7>, 1 RingBuffer<Tok, 64>, 2 RingBuffer<Odd, 5>, 2 RingBuffer<Big, 3>,
    1 RingBuffer<Zst, 4>, 1 RingBuffer<Cop, 8>, 1 RingBuffer<Pod, 6>,
    2 SparseChunk<Tok, 1>, 4 SparseChunk<Tok, 5>, 3 SparseChunk<Tok, 8>, 1 SparseChunk<Tok, 64>, 2 SparseChunk<Odd, 9>, 2 SparseChunk<Big, 3>,
    1 SparseChunk<Zst, 4>, 1 SparseChunk<Cop, 8>, 1 SparseChunk<Pod, 9>, 1 SparseChunk<Tok, 130>, 1 Chunk<Tok, 300>, 1 RingBuffer<Tok, 300>, 1 SparseChunk<Tok, 300>,
];
pub fn config_name(c: usize) -> String {
    ROWS[c % 64 % ROWS.len()].name.to_string()
}
pub fn run(case: &Case, st: &mut Stats) {
    (ROWS[case.config % 64 % ROWS.len()].run)(case, st);
    clean();
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, 0x9001 ^ prop.len() as u64, index);
    let w: Vec<u32> = ROWS.iter().map(|k| k.weight).collect();
    let row = r.weighted(&w);
    let config = row + 64 * r.below(5) as usize;
    let keep = 400 + r.below(600);
    let table: Vec<(u8, u32)> = ALL
        .iter()
        .filter(|f| matches!(f, F::Plain | F::New | F::Default | F::MakeMut) || r.chance(keep))
        .map(|f| {
            let w = match f {
                F::Default | F::CloneFrom | F::Cloned | F::New | F::Share => 5,
                F::MakeMut => 16,
                F::GetMut | F::Plain | F::Release => 6,
                F::Fill | F::Dirt | F::PoolSwap | F::Churn | F::Inspect => 1,
                F::BoxEdit | F::Direct => 4,
                _ => 3,
            };
            (*f as u8, w)
        })
        .collect();
    let table: Vec<(u8, u32)> = table.into_iter().map(|(f, w)| (f, w * (2 + r.below(9) as u32))).collect();
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let bad = [0, 200, 450, 700][r.below(4) as usize];
    let nops = 8 + r.below(50) as usize;
    let cap = ROWS[row].cap as u64;
    let mut ops = vec![Op { code: F::Dirt as u8, x: r.below(60_000) as u16, y: r.below(60_000) as u16, ..Op::default() }];
    for _ in 0..nops {
        let mut op = Op {
            code: table[r.weighted(&weights)].0,
            a: r.below(2) as u8,
            b: 0,
            x: r.below(60_000) as u16,
            y: r.below(60_000) as u16,
            z: r.below(60_000) as u16,
            fk: 0,
            fnth: 0,
        };
        if r.chance(bad) {
            op.fk = match ALL[op.code as usize] {
                F::CloneFrom | F::Cloned | F::BoxCloneFrom | F::BoxClone | F::PlainClone | F::MakeMut | F::UnwrapOrClone | F::Direct => F_CLONE,
                F::Release | F::BoxRelease | F::PlainRelease => F_DROP,
                _ => 0,
            };
            op.fnth = match r.below(3) {
                0 => 0,
                1 => r.below(3),
                _ => r.below(cap.min(40) + 1),
            } as u8;
        }
        ops.push(op);
    }
    Case { prop: prop.into(), engine: "pool".into(), config, seed, index, ops }
}
