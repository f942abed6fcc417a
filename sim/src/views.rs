//! Views of a ring buffer as tasks under a scheduler: any number of slices over one buffer, used in
//! any interleaving, including from inside each other's comparison callbacks and loop bodies.
//! Reference: one array of element ids; every task owns a range of it.
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use crate::seq::rig::{dbg_hash, dbg_ints, fnv_hash, Slot};
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::ring_buffer::{Slice, SliceMut};
use sized_chunks::RingBuffer;
use std::collections::VecDeque;
use std::ops::Bound;
use std::ptr;

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! {
    Push, Pop, Rotate, Fill, Open, Close,
    Get, Index, IndexSet, Set, Swap, MapPair, Iter, IterMut, BSearch, Queries, Sort, CmpTask, CmpOther, Inspect, ToOwned,
    Unmut, CloneView, Sub, SplitAt, DropTask,
}
pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("view {}", s)).unwrap_or_else(|| "?".into())
}

enum V<E: Elem, const N: usize> {
    M(SliceMut<'static, E, N>),
    S(Slice<'static, E, N>),
}
struct Task<E: Elem, const N: usize> {
    lo: usize,
    hi: usize,
    v: V<E, N>,
}
macro_rules! ro {
    ($t:expr, $v:ident => $e:expr) => {
        match &$t.v {
            V::M($v) => $e,
            V::S($v) => $e,
        }
    };
}

struct Sim<E: Elem, const N: usize> {
    buf: Box<Slot<RingBuffer<E, N>>>,
    m: Vec<u32>,
    tasks: Vec<Option<Task<E, N>>>,
    open: bool,
    ops: Vec<Op>,
    pc: usize,
    depth: usize,
    nest: usize,
    period: u64,
    tick: u64,
    minted: u64,
    drops: u64,
    st: *mut Stats,
    config: usize,
}

pub struct Cfg {
    pub name: &'static str,
    weight: u32,
    run: fn(&Case, &mut Stats),
}
macro_rules! cfgs {
    ($( $w:literal $e:ty , $n:literal );* $(;)?) => {
        vec![ $( Cfg { name: concat!("views of RingBuffer<", stringify!($e), ", ", stringify!($n), ">"), weight: $w, run: go::<$e, $n> } ),* ]
    };
}
pub fn all() -> Vec<Cfg> {
    cfgs![1 Tok, 1; 3 Tok, 2; 4 Tok, 4; 5 Tok, 7; 4 Tok, 16; 2 Tok, 64; 3 Odd, 5; 2 Big, 6; 2 Cop, 8; 1 Pod, 6; 1 Zst, 5; 1 Zal, 4; 1 Tok, 300;]
}
pub fn run(case: &Case, st: &mut Stats) {
    let a = all();
    (a[case.config % a.len()].run)(case, st)
}
fn go<E: Elem, const N: usize>(case: &Case, st: &mut Stats) {
    let mut buf: Box<Slot<RingBuffer<E, N>>> = Slot::boxed();
    unsafe { ptr::write(buf.raw() as *mut RingBuffer<E, N>, RingBuffer::new()) }
    let mut sim = Box::new(Sim {
        buf,
        m: vec![],
        tasks: vec![],
        open: false,
        ops: case.ops.clone(),
        pc: 0,
        depth: 0,
        nest: 0,
        period: 1,
        tick: 0,
        minted: 0,
        drops: 0,
        st,
        config: case.config,
    });
    while sim.pc < sim.ops.len() && l().viol.is_none() {
        sim.step();
    }
    set_hook(None);
    sim.close();
    if l().viol.is_some() {
        return;
    }
    let b = &mut sim.buf;
    match guarded(|| unsafe { ptr::drop_in_place(b.get_mut()) }) {
        Ok(()) => {
            sim.m.clear();
            sim.totals("after dropping the buffer")
        }
        Err(p) => l().violation("spurious-panic", format!("dropping the buffer panicked: {:?}", p)),
    }
}

/// The ranges a caller can ask for.
const RANGES: u64 = 10;
fn range(how: u64, i: usize, j: usize, len: usize) -> Option<(usize, usize)> {
    let (s, e) = match how % RANGES {
        0 | 6 => (i, j),
        1 => (i, j.checked_add(1)?),
        2 => (0, j),
        3 => (0, j.checked_add(1)?),
        4 => (i, len),
        5 => (0, len),
        7 => (i.checked_add(1)?, j),
        8 => (i.checked_add(1)?, j.checked_add(1)?),
        _ => (i.checked_add(1)?, len),
    };
    if s <= e && e <= len {
        Some((s, e))
    } else {
        None
    }
}
macro_rules! sliced {
    ($v:expr, $f:ident, $how:expr, $i:expr, $j:expr) => {
        match $how % RANGES {
            0 => $v.$f($i..$j),
            1 => $v.$f($i..=$j),
            2 => $v.$f(..$j),
            3 => $v.$f(..=$j),
            4 => $v.$f($i..),
            5 => $v.$f(..),
            6 => $v.$f((Bound::Included(&$i), Bound::Excluded(&$j))),
            7 => $v.$f((Bound::Excluded($i), Bound::Excluded($j))),
            8 => $v.$f((Bound::Excluded($i), Bound::Included($j))),
            _ => $v.$f((Bound::Excluded($i), Bound::Unbounded)),
        }
    };
}

/// ways to bring a walk to its end
const VW_ENDS: u64 = 10;
/// Walk an iterator from both ends, letting other tasks run between steps.
fn walk<I: DoubleEndedIterator + ExactSizeIterator>(
    mut it: I,
    pat: u64,
    steps: usize,
    how: u64,
    take: &mut dyn FnMut(I::Item) -> i64,
    out: &mut Vec<i64>,
    between: &mut dyn FnMut(),
) {
    let mut p = pat;
    for _ in 0..steps {
        let c = p & 7;
        p = p.rotate_right(3) ^ (p >> 61);
        let r = match c {
            0..=2 => it.next(),
            3 | 4 => it.next_back(),
            5 => {
                out.push(it.len() as i64);
                let (a, b) = it.size_hint();
                out.push(a as i64);
                out.push(b.map(|x| x as i64).unwrap_or(-9));
                continue;
            }
            6 => it.nth(crate::seq::rig::skip(p, it.len())),
            _ => it.nth_back(crate::seq::rig::skip(p, it.len())),
        };
        let v = r.map(|e| take(e)).unwrap_or(-1);
        out.push(v);
        between();
    }
    match how % VW_ENDS {
        5 | 6 => {
            for _ in 0..2 {
                let mut n = 0;
                let mut visit = |e: I::Item| {
                    let v = take(e);
                    out.push(v);
                    n += 1;
                    if n == 2 {
                        None
                    } else {
                        Some(())
                    }
                };
                let r = if how % VW_ENDS == 5 { it.try_for_each(&mut visit) } else { it.try_rfold((), |_, e| visit(e)) };
                out.push(r.is_some() as i64);
                between();
            }
        }
        7 => it.rev().skip(1).step_by(2).for_each(|e| {
            let v = take(e);
            out.push(v);
            between();
        }),
        8 => {
            out.push(it.count() as i64);
        }
        9 => it.for_each(|e| {
            let v = take(e);
            out.push(v);
            between();
        }),
        0 => drop(it),
        1 => {
            let mut n = 0;
            for e in it {
                let v = take(e);
                out.push(v);
                n += 1;
                if n > 5000 {
                    l().violation("endless", "a view's iterator does not end".into());
                    return;
                }
                between();
            }
        }
        2 => {
            for e in it.rev().take(5000) {
                let v = take(e);
                out.push(v)
            }
        }
        3 => {
            let _alive = it;
            std::panic::panic_any(Injected(F_BODY))
        }
        _ => {
            let r = it.last();
            let v = r.map(|e| take(e)).unwrap_or(-1);
            out.push(v)
        }
    }
}

impl<E: Elem, const N: usize> Sim<E, N> {
    fn mint(&mut self, z: u16) -> E {
        self.minted += 1;
        if z % 11 == 0 {
            E::mint((z / 11 % 3) as i32)
        } else {
            E::mint(10 + ((self.minted * 7919) % 99_991) as i32)
        }
    }
    fn totals(&mut self, when: &str) {
        if l().viol.is_some() || !E::TRACKED || self.depth > 0 {
            return;
        }
        let drops = l().fault_counts[F_DROP as usize];
        if drops != self.drops {
            // what a panicking destructor cut short may have left elements behind for good
            self.drops = drops;
            if E::ZST {
                let extra = l().z_live() - self.m.len() as isize;
                l().z_limbo += extra.max(0) as usize;
            } else {
                let m = &self.m;
                l().abandon_except(&|i| m.contains(&i));
            }
        }
        let want = self.m.len() as isize;
        let have = if E::ZST { l().z_live() } else { l().live as isize };
        if want != have {
            l().violation(if have > want { "leak" } else { "lost" }, format!("{}: {} elements alive, {} in the buffer", when, have, want));
        }
    }
    fn val(&self, i: usize) -> i32 {
        if E::ZST {
            0
        } else {
            l().val(self.m[i])
        }
    }
    fn vals(&self, lo: usize, hi: usize) -> Vec<i32> {
        (lo..hi).map(|i| self.val(i)).collect()
    }
    fn ids(&self, lo: usize, hi: usize) -> Vec<i64> {
        self.m[lo..hi].iter().map(|i| *i as i64).collect()
    }
    fn st(&mut self) -> &'static mut Stats {
        unsafe { &mut *self.st }
    }
    /// Run a call into the library with the op's fault armed and other tasks scheduled inside it.
    fn call<T>(&mut self, op: &Op, f: impl FnOnce(&mut dyn FnMut()) -> T) -> Result<T, Pan> {
        let lg = l();
        let saved = (lg.fault, lg.fault_n, lg.fired, lg.chaos, self.nest, self.period, self.tick);
        let me: *mut Self = self;
        if self.depth == 0 {
            lg.clones.clear();
            lg.arm(op.fk, op.fnth as u32);
        } else {
            lg.disarm();
        }
        self.nest = if self.depth < 2 { (op.b as usize) % 4 } else { 0 };
        self.period = 1 + op.z as u64 % 5;
        self.tick = op.x as u64 % 4;
        self.st().steps += 1;
        self.depth += 1;
        if self.nest > 0 {
            let p = me as usize;
            set_hook(Some(Box::new(move || unsafe { (*(p as *mut Self)).nested() })));
        }
        let mut between = move || unsafe { (*me).nested() };
        let r = guarded(|| f(&mut between));
        let s = unsafe { &mut *me };
        s.depth -= 1;
        let lg = l();
        lg.disarm();
        if s.depth == 0 {
            set_hook(None);
        } else {
            lg.fault = saved.0;
            lg.fault_n = saved.1;
            lg.fired = saved.2;
            lg.chaos = saved.3;
        }
        s.nest = saved.4;
        s.period = saved.5;
        s.tick = saved.6;
        lg.ev(
            5,
            match &r {
                Ok(_) => 0,
                Err(Pan::Inj(k)) => 16 + *k as u64,
                Err(_) => 1,
            },
            s.depth as u64,
        );
        if lg.trace {
            eprintln!("  depth {} -> {}", s.depth, match &r { Ok(_) => "ok".to_string(), Err(p) => format!("{:?}", p) });
        }
        r
    }
    /// A scheduling point inside a library call: maybe run the next operation on another task.
    fn nested(&mut self) {
        if self.nest == 0 || l().viol.is_some() || std::thread::panicking() {
            return;
        }
        self.tick += 1;
        if self.tick % self.period != 0 || self.pc >= self.ops.len() {
            return;
        }
        self.nest -= 1;
        let lg = l();
        let saved = (lg.fault, lg.fault_n, lg.fired, lg.chaos);
        lg.disarm();
        l().probe("view_nested_step");
        let nest = self.nest;
        self.nest = 0;
        self.step();
        self.nest = nest;
        let lg = l();
        lg.fault = saved.0;
        lg.fault_n = saved.1;
        lg.fired = saved.2;
        lg.chaos = saved.3;
    }
    fn verdict<T>(&mut self, r: &Result<T, Pan>, ok: bool, what: &str) -> bool {
        if l().viol.is_some() {
            return false;
        }
        match r {
            Ok(_) if ok => true,
            Ok(_) => {
                l().violation("accepted", format!("{} should have been refused", what));
                false
            }
            Err(Pan::Lib(_)) if !ok => {
                l().count_fault(F_REJECT);
                self.st().rejects += 1;
                false
            }
            Err(Pan::Lib(m)) => {
                l().violation("spurious-panic", format!("{} panicked: {}", what, m));
                false
            }
            Err(Pan::Inj(_)) => false,
        }
    }
    fn bad(&self, msg: String) {
        l().violation("answer", msg)
    }
    fn ring(&mut self) -> &'static mut RingBuffer<E, N> {
        unsafe { &mut *(self.buf.raw() as *mut RingBuffer<E, N>) }
    }
    fn close(&mut self) {
        self.tasks.clear();
        self.open = false;
        if l().viol.is_some() {
            return;
        }
        let b = self.ring();
        let want = self.ids(0, self.m.len());
        let r = guarded(|| {
            let v: Vec<i64> = b.iter().take(N + 1).map(|e| e.id() as i64).collect();
            let w: Vec<i64> = (0..b.len()).map(|i| b[i].id() as i64).collect();
            (v, w, b.len(), b.is_full())
        });
        match r {
            Ok((v, w, len, full)) => {
                if v != want || w != want || len != want.len() || full != (len == N) {
                    l().violation("contents", format!("after the views ended the buffer holds {:?} / {:?} (len {}), expected {:?}", v, w, len, want));
                }
            }
            Err(p) => l().violation("spurious-panic", format!("reading the buffer panicked: {:?}", p)),
        }
        self.totals("after the views ended");
        if !self.buf.ok() {
            l().violation("canary", "memory outside the buffer was overwritten".into());
        }
    }
    fn check_tasks(&mut self) {
        for k in 0..self.tasks.len() {
            if l().viol.is_some() {
                return;
            }
            let t = match self.tasks[k].as_ref() {
                Some(t) => t,
                None => continue,
            };
            let r = guarded(|| ro!(t, v => (v.len(), v.iter().take(N + 1).map(|e| e.id() as i64).collect::<Vec<_>>())));
            match r {
                Ok((len, v)) => {
                    let want = self.ids(t.lo, t.hi);
                    if v != want || len != want.len() {
                        l().violation("contents", format!("view of {}..{} sees {:?} (len {}), expected {:?}", t.lo, t.hi, v, len, want));
                    }
                }
                Err(p) => l().violation("spurious-panic", format!("reading a view panicked: {:?}", p)),
            }
        }
    }
    fn step(&mut self) {
        let op = self.ops[self.pc];
        self.pc += 1;
        let f = match ALL.get(op.code as usize) {
            Some(f) => *f,
            None => return,
        };
        l().ev(700 + f as u64, op.a as u64, op.x as u64);
        let fault0: u64 = l().fault_counts.iter().sum();
        let len0 = self.m.len();
        if l().trace {
            eprintln!("op {:?} depth {} tasks {:?} model {:?}", f, self.depth, self.tasks.iter().map(|t| t.as_ref().map(|t| (t.lo, t.hi))).collect::<Vec<_>>(), self.m);
        }
        let done = match f {
            F::Push | F::Pop | F::Rotate | F::Fill | F::Open | F::Close => {
                if self.depth > 0 {
                    return;
                }
                self.outer(f, &op)
            }
            _ => self.task_op(f, &op),
        };
        if !done {
            return;
        }
        let st = self.st();
        st.ops_effective += 1;
        *st.per_op.entry(op_name(op.code)).or_insert(0) += 1;
        self.check_tasks();
        if !self.open && self.depth == 0 {
            self.close();
        }
        self.totals("after the operation");
        let fired = (l().fault_counts.iter().sum::<u64>() > fault0) as u64;
        let shape = self.tasks.iter().flatten().fold(0u64, |h, t| mix(h ^ (t.lo << 8 | t.hi) as u64));
        self.st().state(mix(
            0x33 << 56 | (self.config as u64) << 48 | (op.code as u64) << 40 | (len0 as u64) << 24 | fired << 20 | (self.depth as u64) << 16 | shape & 0xfff,
        ));
    }
    fn outer(&mut self, f: F, op: &Op) -> bool {
        if self.open {
            self.close();
        }
        if l().viol.is_some() {
            return false;
        }
        let b = self.ring();
        let n = match f {
            F::Push => 1 + op.x as usize % 3,
            F::Pop => 1 + op.x as usize % 3,
            F::Rotate => op.x as usize % (N + 1),
            F::Fill => (N - self.m.len()) * (op.x as usize % 3) / 2,
            _ => 0,
        };
        match f {
            F::Push | F::Fill => {
                for k in 0..n {
                    if self.m.len() == N {
                        break;
                    }
                    let e = self.mint(op.z.wrapping_add(k as u16 * 3));
                    let id = e.id();
                    let front = (op.y >> (k % 12)) & 1 == 1;
                    let r = guarded(|| if front { b.push_front(e) } else { b.push_back(e) });
                    if !self.verdict(&r, true, "push") {
                        return false;
                    }
                    if front {
                        self.m.insert(0, id)
                    } else {
                        self.m.push(id)
                    }
                }
            }
            F::Pop => {
                for k in 0..n {
                    let front = (op.y >> (k % 12)) & 1 == 1;
                    let r = guarded(|| if front { b.pop_front() } else { b.pop_back() }.map(|e| e.id()));
                    let want = if self.m.is_empty() {
                        None
                    } else if front {
                        Some(self.m.remove(0))
                    } else {
                        self.m.pop()
                    };
                    match r {
                        Ok(g) if g == want => {}
                        g => self.bad(format!("pop gave {:?}, expected {:?}", g, want)),
                    }
                }
            }
            F::Rotate => {
                // move the origin without changing the contents
                for _ in 0..n {
                    if self.m.is_empty() {
                        let e = self.mint(1);
                        let r = guarded(|| {
                            b.push_back(e);
                            b.pop_front();
                        });
                        self.verdict(&r, true, "push and pop");
                    } else {
                        let r = guarded(|| {
                            let e = b.pop_front().unwrap();
                            b.push_back(e);
                        });
                        self.verdict(&r, true, "pop and push");
                        self.m.rotate_left(1);
                    }
                }
            }
            F::Open => {
                let len = self.m.len();
                let how = op.z as u64;
                let (i, j) = self.bounds(op, len);
                let whole = op.b % 3 == 0;
                let shared = op.b % 5 == 4;
                let r = if whole { Some((0, len)) } else { range(how, i, j, len) };
                let made: Result<V<E, N>, Pan> = guarded(|| match (shared, whole) {
                    (false, true) => V::M(SliceMut::from(b)),
                    (false, false) => V::M(sliced!(b, slice_mut, how, i, j)),
                    (true, true) => V::S(Slice::from(&*b)),
                    (true, false) => V::S(sliced!((&*b), slice, how, i, j)),
                });
                let ok = self.verdict(&made, r.is_some(), &format!("view {:?} of {} elements", (how % RANGES, i, j), len));
                if ok {
                    let (lo, hi) = r.unwrap();
                    self.tasks = vec![Some(Task { lo, hi, v: made.ok().unwrap() })];
                    self.open = true;
                }
            }
            _ => {}
        }
        true
    }
    fn bounds(&self, op: &Op, len: usize) -> (usize, usize) {
        let i = sel(op.x, len + 1, len, N);
        let j = sel(op.y, len + 1, len, N);
        if op.x < WILD && op.y < WILD && i > j && op.z % 7 != 0 {
            (j, i)
        } else {
            (i, j)
        }
    }
    fn task_op(&mut self, f: F, op: &Op) -> bool {
        let avail: Vec<usize> = (0..self.tasks.len()).filter(|k| self.tasks[*k].is_some()).collect();
        if avail.is_empty() {
            return false;
        }
        let k = avail[op.a as usize % avail.len()];
        // out of the table while it is in use: nested steps cannot pick it
        let mut t = self.tasks[k].take().unwrap();
        let (lo, hi) = (t.lo, t.hi);
        let len = hi - lo;
        let i = sel(op.x, len, len, N);
        let inside = i < len;
        let mut keep = true;
        let mut done = true;
        let mutable = matches!(t.v, V::M(_));
        let name = NAMES[f as usize];
        match f {
            F::Get => {
                let r = self.call(op, |_| {
                    let mut out = vec![];
                    let mut add = |e: Option<&E>| out.push(e.map(|e| e.id() as i64).unwrap_or(-1));
                    ro!(t, v => {
                        add(Array::get(v, i));
                        add(Array::first(v));
                        add(Array::last(v));
                        if inside {
                            add(Some(unsafe { v.get_unchecked(i) }));
                        }
                    });
                    if let V::M(v) = &mut t.v {
                        add(v.get_mut(i).map(|e| &*e));
                        add(v.first_mut().map(|e| &*e));
                        add(v.last_mut().map(|e| &*e));
                        if inside {
                            add(Some(unsafe { &*v.get_unchecked_mut(i) }));
                        }
                    }
                    out.push(ro!(t, v => HasLength::is_empty(v)) as i64);
                    out
                });
                if self.verdict(&r, true, name) {
                    let at = |i: usize| if i < len { self.m[lo + i] as i64 } else { -1 };
                    let mut w = vec![at(i), at(0), if len == 0 { -1 } else { at(len - 1) }];
                    if inside {
                        w.push(at(i))
                    } else {
                        l().count_fault(F_REJECT)
                    }
                    if mutable {
                        w.extend(w.clone());
                    }
                    w.push((len == 0) as i64);
                    let g = r.unwrap();
                    if g != w {
                        self.bad(format!("lookups at {} in a view of {}..{} gave {:?}, expected {:?}", i, lo, hi, g, w));
                    }
                }
            }
            F::Index => {
                let r = self.call(op, |_| ro!(t, v => v[i].id()));
                if self.verdict(&r, inside, &format!("index {} of a view of length {}", i, len)) && r.ok() != Some(self.m[lo + i]) {
                    self.bad(format!("index {} of a view of {}..{} is the wrong element", i, lo, hi));
                }
            }
            F::IndexSet | F::Set => {
                if let V::M(v) = &mut t.v {
                    let e = self.mint(op.z);
                    let id = e.id();
                    if f == F::IndexSet {
                        let r = self.call(op, |_| v[i] = e);
                        let ok = self.verdict(&r, inside, &format!("assignment at {} of a view of length {}", i, len));
                        if ok || (inside && matches!(r, Err(Pan::Inj(_)))) {
                            self.m[lo + i] = id;
                        }
                    } else {
                        let r = self.call(op, |_| v.set(i, e).map(|e| e.id()));
                        if self.verdict(&r, true, name) {
                            let w = if inside { Some(std::mem::replace(&mut self.m[lo + i], id)) } else { None };
                            if r.as_ref().ok() != Some(&w) {
                                self.bad(format!("set({}) on a view of length {} gave {:?}, expected {:?}", i, len, r, w));
                            }
                        }
                    }
                } else {
                    done = false
                }
            }
            F::Swap | F::MapPair => {
                if let V::M(v) = &mut t.v {
                    let j = sel(op.y, len, len, N);
                    let ok = inside && j < len && (f == F::Swap || i != j);
                    let lenient = f == F::Swap && i == j;
                    let r = self.call(op, |_| {
                        if f == F::Swap {
                            v.swap(i, j)
                        } else {
                            v.map_pair(i, j, |p, q| std::mem::swap(p, q))
                        }
                    });
                    if lenient && !ok {
                        // swapping an element with itself may or may not look at the index
                        if matches!(r, Err(Pan::Lib(_))) {
                            l().count_fault(F_REJECT);
                        }
                    } else if self.verdict(&r, ok, &format!("swap of {} and {} in a view of length {}", i, j, len)) {
                        self.m.swap(lo + i, lo + j)
                    }
                } else {
                    done = false
                }
            }
            F::Iter => {
                let pat = mix(op.x as u64);
                let steps = op.y as usize % (len + 4);
                let how = op.z as u64;
                // other tasks cannot change this range while it is being walked
                let mut want = vec![];
                let keys = self.ids(lo, hi);
                let wr = guarded(|| walk(keys.into_iter(), pat, steps, how, &mut |v| v, &mut want, &mut || {}));
                let _ = wr;
                let mut out = vec![];
                let r = self.call(op, |between| {
                    let mut take = |e: &E| e.id() as i64;
                    ro!(t, v => if op.a & 16 == 0 {
                        walk(v.iter(), pat, steps, how, &mut take, &mut out, between)
                    } else {
                        walk(v.into_iter(), pat, steps, how, &mut take, &mut out, between)
                    })
                });
                self.verdict(&r, true, name);
                if how % VW_ENDS == 3 {
                    l().count_fault(F_BODY)
                }
                if l().viol.is_none() && out != want {
                    self.bad(format!("iterating over a view of {}..{} saw {:?}, expected {:?}", lo, hi, out, want));
                }
            }
            F::IterMut => {
                if let V::M(v) = &mut t.v {
                    let pat = mix(op.x as u64);
                    let steps = op.y as usize % (len + 4);
                    let how = op.z as u64;
                    let k = op.fnth as usize % 4;
                    let fresh: Vec<E> = (0..k).map(|n| self.mint(op.z.wrapping_add(n as u16))).collect();
                    let mut fids: VecDeque<u32> = fresh.iter().map(|e| e.id()).collect();
                    // model walk over positions
                    let mut want = vec![];
                    let mut news: Vec<(usize, u32)> = vec![];
                    {
                        let m = &self.m;
                        let mut take = |p: usize| {
                            if let Some(n) = fids.pop_front() {
                                news.push((p, n));
                            }
                            m[p] as i64
                        };
                        let _ = guarded(|| walk((lo..hi).collect::<Vec<_>>().into_iter(), pat, steps, how, &mut take, &mut want, &mut || {}));
                    }
                    let mut out = vec![];
                    let mut fresh: VecDeque<E> = fresh.into();
                    let quiet = Op { fk: 0, ..*op };
                    let r = self.call(&quiet, |between| {
                        let mut take = |e: &mut E| {
                            let id = e.id() as i64;
                            if let Some(n) = fresh.pop_front() {
                                drop(std::mem::replace(e, n));
                            }
                            id
                        };
                        if op.a & 16 == 0 {
                            walk(v.iter_mut(), pat, steps, how, &mut take, &mut out, between)
                        } else {
                            // `&'a mut SliceMut<'a, _>` would pin the view for good
                            let p: *mut _ = v;
                            walk(unsafe { &mut *p }.into_iter(), pat, steps, how, &mut take, &mut out, between)
                        }
                    });
                    drop(fresh);
                    self.verdict(&r, true, name);
                    if how % VW_ENDS == 3 {
                        l().count_fault(F_BODY)
                    }
                    for (p, n) in news {
                        self.m[p] = n;
                    }
                    if l().viol.is_none() && out != want {
                        self.bad(format!("mutably iterating over a view of {}..{} saw {:?}, expected {:?}", lo, hi, out, want));
                    }
                } else {
                    done = false
                }
            }
            F::BSearch => {
                let w = self.vals(lo, hi);
                let target = if !w.is_empty() && op.y % 3 < 2 { w[op.y as usize % w.len()] + (op.y % 3) as i32 } else { op.y as i32 % 1000 };
                let e = E::mint(target);
                let target = e.val();
                let r = self.call(op, |_| {
                    ro!(t, v => match op.z % 3 {
                        0 => Array::binary_search(v, &e),
                        1 => Array::binary_search_by(v, |x| x.cmp(&e)),
                        _ => Array::binary_search_by_key(v, &target, |x| x.val()),
                    })
                });
                drop(e);
                let sorted = w.windows(2).all(|p| p[0] <= p[1]);
                let chaos = op.fk == F_CHAOS;
                if self.verdict(&r, true, name) && sorted && !chaos {
                    let r = r.unwrap();
                    let good = match r {
                        Ok(p) => p < len && w[p] == target,
                        Err(p) => p <= len && w[..p].iter().all(|x| *x < target) && w[p..].iter().all(|x| *x > target),
                    };
                    if !good {
                        self.bad(format!("searching {} in {:?} gave {:?}", target, w, r));
                    }
                }
            }
            F::Queries => {
                let w = self.vals(lo, hi);
                let cut = if len == 0 { 0 } else { op.y as usize % (len + 1) };
                let head: Vec<E> = w[..cut].iter().map(|v| E::mint(*v)).collect();
                let mut tail: Vec<E> = w[cut..].iter().map(|v| E::mint(*v)).collect();
                let twist = op.z % 3 == 0 && !tail.is_empty() && !E::ZST;
                if twist {
                    let v = tail[0].val();
                    tail[0] = E::mint(v + 1);
                }
                let probe = E::mint(op.x as i32 % 4);
                let pv = probe.val();
                let r = self.call(op, |_| {
                    ro!(t, v => [
                        Array::contains(v, &probe),
                        Array::starts_with(v, &head),
                        Array::ends_with(v, &tail),
                        Array::is_sorted(v),
                    ])
                });
                drop((head, tail, probe));
                if self.verdict(&r, true, name) && op.fk != F_CHAOS {
                    let want = [w.contains(&pv), true, !twist, w.windows(2).all(|p| p[0] <= p[1])];
                    if r.as_ref().ok() != Some(&want) {
                        self.bad(format!("contains/starts_with/ends_with/is_sorted on {:?} gave {:?}, expected {:?}", w, r, want));
                    }
                }
            }
            F::Sort => {
                let w = self.vals(lo, hi);
                let mut s = w.clone();
                s.sort();
                if let V::M(v) = &mut t.v {
                    let how = op.z % 3;
                    let r = self.call(op, |_| match how {
                        0 => v.sort_unstable(),
                        1 => v.sort_unstable_by(|a, b| b.cmp(a)),
                        _ => v.sort_unstable_by_key(|a| {
                            a.val();
                            nested_hook();
                            a.val()
                        }),
                    });
                    let chaos = op.fk == F_CHAOS && self.depth == 0;
                    let ok = if chaos { r.is_ok() || matches!(r, Err(Pan::Lib(_))) } else { self.verdict(&r, true, name) };
                    let now = guarded(|| v.iter().take(len + 1).map(|e| e.id()).collect::<Vec<u32>>());
                    match now {
                        Err(p) => l().violation("spurious-panic", format!("reading a view after a sort panicked: {:?}", p)),
                        Ok(now) => {
                            let mut p = now.clone();
                            let mut q = self.m[lo..hi].to_vec();
                            p.sort();
                            q.sort();
                            if l().viol.is_none() && p != q {
                                l().violation("contents", format!("sorting turned {:?} into {:?}", &self.m[lo..hi], now));
                            } else if l().viol.is_none() {
                                self.m[lo..hi].copy_from_slice(&now);
                                let g = self.vals(lo, hi);
                                if how == 1 {
                                    s.reverse()
                                }
                                if ok && !chaos && g != s {
                                    l().violation("order", format!("sorting gave {:?}, expected {:?}", g, s));
                                }
                            }
                        }
                    }
                } else {
                    done = false
                }
            }
            F::CmpTask => {
                let others: Vec<usize> = (0..self.tasks.len()).filter(|k| self.tasks[*k].is_some()).collect();
                if others.is_empty() {
                    done = false
                } else {
                    let k2 = others[op.y as usize % others.len()];
                    let u = self.tasks[k2].take().unwrap();
                    let (x, y) = (self.vals(lo, hi), self.vals(u.lo, u.hi));
                    let o = |c: std::cmp::Ordering| c as i64;
                    let r = self.call(op, |_| match (&t.v, &u.v) {
                        (V::M(a), V::M(b)) => vec![(a == b) as i64, a.partial_cmp(b).map(o).unwrap_or(9), o(a.cmp(b)), (a < b) as i64],
                        (V::S(a), V::S(b)) => vec![(a == b) as i64, a.partial_cmp(b).map(o).unwrap_or(9), o(a.cmp(b)), (a < b) as i64],
                        (V::M(a), V::S(b)) => vec![(a == b) as i64],
                        (V::S(a), V::M(b)) => vec![(a == b) as i64],
                    });
                    self.tasks[k2] = Some(u);
                    if self.verdict(&r, true, name) && op.fk != F_CHAOS {
                        let c = x.cmp(&y) as i64;
                        let w = [(c == 0) as i64, c, c, (c < 0) as i64];
                        let g = r.unwrap();
                        if g[..] != w[..g.len()] {
                            self.bad(format!("comparing views {:?} and {:?} gave {:?}, expected {:?}", x, y, g, w));
                        }
                    }
                }
            }
            F::CmpOther => {
                let mut w = self.vals(lo, hi);
                let same = w.clone();
                match op.y % 5 {
                    0 => w.push(3),
                    1 => {
                        w.pop();
                    }
                    2 if !w.is_empty() => {
                        let p = op.x as usize % w.len();
                        w[p] += 1
                    }
                    _ => {}
                }
                if E::ZST {
                    w.iter_mut().for_each(|v| *v = 0)
                }
                let other: Vec<E> = w.iter().map(|v| E::mint(*v)).collect();
                let want = same == w;
                if op.z % 2 == 0 && w.len() <= N {
                    let mut ring: RingBuffer<E, N> = RingBuffer::new();
                    for k in 0..op.z as usize % (N + 1) {
                        ring.push_back(E::mint(k as i32));
                        ring.pop_front();
                    }
                    for e in other {
                        ring.push_back(e)
                    }
                    let r = self.call(op, |_| ro!(t, v => *v == ring));
                    if self.verdict(&r, true, name) && r != Ok(want) {
                        self.bad(format!("comparing a view of {:?} with a buffer of {:?} gave {:?}", same, w, r));
                    }
                } else {
                    let r = self.call(op, |_| ro!(t, v => *v == other && *v == &other[..] || { *v == other }));
                    if self.verdict(&r, true, name) && r != Ok(want) {
                        self.bad(format!("comparing a view of {:?} with {:?} gave {:?}", same, w, r));
                    }
                }
            }
            F::Inspect => {
                let w = self.vals(lo, hi);
                let r = self.call(op, |_| {
                    ro!(t, v => {
                        let d = dbg_ints(v);
                        let h = dbg_hash(v, op.z % 2 == 0);
                        let f = fnv_hash(v);
                        (d, h, f)
                    })
                });
                if self.verdict(&r, true, name) {
                    let (d, h, f) = r.unwrap();
                    let wi: Vec<i64> = w.iter().map(|x| *x as i64).collect();
                    if d != wi {
                        self.bad(format!("a view of {:?} prints {:?}", wi, d));
                    }
                    // an equal view elsewhere prints and hashes the same
                    let mut ring: RingBuffer<E, N> = RingBuffer::new();
                    for k in 0..op.x as usize % (N + 1) {
                        ring.push_back(E::mint(k as i32));
                        ring.pop_front();
                    }
                    for v in &w {
                        ring.push_back(E::mint(*v))
                    }
                    let r2 = guarded(|| {
                        let v = ring.slice(..);
                        let (a, b) = (dbg_hash(&v, op.z % 2 == 0), fnv_hash(&v));
                        let m = ring.slice_mut(..);
                        (a, b, fnv_hash(&m))
                    });
                    if r2 != Ok((h, f, f)) {
                        self.bad(format!("equal views of {:?} print or hash differently", w));
                    }
                }
            }
            F::ToOwned => {
                let r = self.call(op, |_| ro!(t, v => v.to_owned()));
                if self.verdict(&r, true, name) {
                    let o = r.ok().unwrap();
                    let w = self.vals(lo, hi);
                    let g: Vec<i32> = o.iter().map(|e| e.val()).collect();
                    if g != w || o.len() != w.len() {
                        self.bad(format!("copying a view of {:?} gave {:?}", w, g));
                    }
                }
            }
            F::Unmut => match t.v {
                V::M(v) => {
                    let r = guarded(|| if op.z % 2 == 0 { v.unmut() } else { v.into() });
                    match r {
                        Ok(s) => t.v = V::S(s),
                        Err(p) => {
                            l().violation("spurious-panic", format!("downgrading a view panicked: {:?}", p));
                            return false;
                        }
                    }
                }
                V::S(_) => done = false,
            },
            F::CloneView => {
                if let (V::S(v), true) = (&t.v, self.tasks.iter().flatten().count() < 6) {
                    let c = v.clone();
                    self.tasks.push(Some(Task { lo, hi, v: V::S(c) }));
                } else {
                    done = false
                }
            }
            F::Sub => {
                let (i, j) = self.bounds(op, len);
                let how = op.z as u64;
                let r = range(how, i, j, len);
                let made = match t.v {
                    V::M(v) => guarded(|| V::M(sliced!(v, slice, how, i, j))),
                    V::S(v) => guarded(|| V::S(sliced!(v, slice, how, i, j))),
                };
                let ok = self.verdict(&made, r.is_some(), &format!("subview {:?} of a view of length {}", (how % RANGES, i, j), len));
                if ok {
                    let (s, e) = r.unwrap();
                    self.tasks[k] = Some(Task { lo: lo + s, hi: lo + e, v: made.ok().unwrap() });
                }
                return true;
            }
            F::SplitAt => {
                let i = sel(op.x, len + 1, len, N);
                let made = match t.v {
                    V::M(v) => guarded(|| {
                        let (p, q) = v.split_at(i);
                        (V::M(p), V::M(q))
                    }),
                    V::S(v) => guarded(|| {
                        let (p, q) = v.split_at(i);
                        (V::S(p), V::S(q))
                    }),
                };
                if self.verdict(&made, i <= len, &format!("split at {} of a view of length {}", i, len)) {
                    let (p, q) = made.ok().unwrap();
                    self.tasks[k] = Some(Task { lo, hi: lo + i, v: p });
                    self.tasks.push(Some(Task { lo: lo + i, hi, v: q }));
                }
                return true;
            }
            F::DropTask => {
                if op.z % 2 == 0 {
                    std::mem::forget(t);
                    return true;
                }
                keep = false
            }
            _ => done = false,
        }
        if keep {
            self.tasks[k] = Some(t);
        }
        done
    }
}

const BASE: &[(F, u32)] = &[
    (F::Push, 4), (F::Pop, 2), (F::Rotate, 3), (F::Fill, 3), (F::Open, 6), (F::Close, 1), (F::Get, 6), (F::Index, 5),
    (F::IndexSet, 6), (F::Set, 4), (F::Swap, 6), (F::MapPair, 3), (F::Iter, 6), (F::IterMut, 6), (F::BSearch, 4), (F::Queries, 3),
    (F::Sort, 6), (F::CmpTask, 5), (F::CmpOther, 4), (F::Inspect, 2), (F::ToOwned, 3), (F::Unmut, 2), (F::CloneView, 3),
    (F::Sub, 5), (F::SplitAt, 9), (F::DropTask, 1),
];
fn faults(f: F) -> &'static [u8] {
    match f {
        F::IndexSet => &[F_DROP],
        F::BSearch | F::Sort => &[F_CMP, F_CMP, F_CHAOS],
        F::Queries => &[F_EQ, F_CMP],
        F::CmpTask => &[F_EQ, F_CMP],
        F::CmpOther => &[F_EQ],
        F::Inspect => &[F_FMT, F_HASH],
        F::ToOwned => &[F_CLONE],
        _ => &[],
    }
}
pub fn generate(prop: &str, seed: u64, index: u64, cfgs: &[Cfg]) -> Case {
    let stream = 0x71e3 ^ prop.bytes().fold(0u64, |h, b| h.wrapping_mul(131) + b as u64);
    let mut r = Rng::new(seed, stream, index);
    let w: Vec<u32> = cfgs.iter().map(|c| c.weight).collect();
    let config = r.weighted(&w);
    let keep = 400 + r.below(600);
    let table: Vec<(u8, u32)> = BASE
        .iter()
        .filter(|(f, _)| matches!(f, F::Open | F::SplitAt) || r.chance(keep))
        .map(|(f, w)| (*f as u8, *w))
        .collect::<Vec<_>>();
    let table: Vec<(u8, u32)> = table.into_iter().map(|(f, w)| (f, 1 + w * (4 + r.below(12) as u32))).collect();
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let frate = if r.chance(300) { 0 } else { [150, 400, 700][r.below(3) as usize] };
    let wild = [0, 20, 60, 150][r.below(4) as usize];
    let nest = [0, 300, 700][r.below(3) as usize];
    let span = [10, 30, 60][r.below(3) as usize];
    let nops = 5 + r.below(span) as usize;
    let mut ops: Vec<Op> = vec![];
    let arg = |r: &mut Rng| if r.chance(wild) { WILD + r.below(12) as u16 } else { r.below(59_900) as u16 };
    // some contents, some origin, one view
    for f in [F::Rotate, F::Fill, F::Push, F::Open] {
        let mut o = Op { code: f as u8, a: 0, b: 0, x: r.below(60_000) as u16, y: r.below(60_000) as u16, z: r.below(60_000) as u16, fk: 0, fnth: 0 };
        if f == F::Open {
            o.b = r.below(250) as u8;
        }
        ops.push(o);
    }
    for _ in 0..nops {
        let mut code = table[r.weighted(&weights)].0;
        // stay with the open views for a while
        if code <= F::Close as u8 && r.chance(700) {
            code = table[r.weighted(&weights)].0;
        }
        let mut op = Op {
            code,
            a: r.below(256) as u8,
            b: if r.chance(nest) || code == F::Open as u8 { r.below(250) as u8 } else { 0 },
            x: arg(&mut r),
            y: arg(&mut r),
            z: r.below(60_000) as u16,
            fk: 0,
            fnth: r.below(4) as u8,
        };
        if r.chance(frate) {
            let fs = faults(ALL[code as usize]);
            if !fs.is_empty() {
                op.fk = *r.pick(fs);
                op.fnth = if r.chance(500) { r.below(4) as u8 } else { r.below(40) as u8 };
            }
        }
        ops.push(op);
    }
    Case { prop: prop.into(), engine: "views".into(), config, seed, index, ops }
}
