//! SparseChunk against an ordered map: same shape as the sequence engine, with index-based calls.
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use crate::seq::rig::{dbg_hash, dbg_ints, Slot, END_FORGET, END_PANIC};
use bitmaps::{Bits, BitsImpl};
use refpool::{PoolClone, PoolDefault};
use sized_chunks::sparse_chunk::{Drain, OptionDrain};
use sized_chunks::SparseChunk;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::mem::MaybeUninit;
use std::ptr;

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! {
    Insert, Remove, Pop, Get, GetSet, Index, IndexSet, Iter, IterMut, Entries, OptIter, OptIterMut,
    Drain, OptDrain, Flight, FlightOpt, FlightStep, FlightEnd, FromIter, CloneTo, CloneFrom, PoolClone,
    Eq, EqTree, EqHash, Dbg, Unit, Pair, MoveSite, DropSite, ForgetSite, HandDrop, Reset, Transfer,
    Fill, Heal, Twin,
    // internal
    Mint, HandToArg, Exhaust, DropArgs,
}
const SITES: usize = 3;
const VALS: u16 = 12;

pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("sparse {}", s)).unwrap_or_else(|| "?".into())
}

#[derive(Clone, Debug)]
struct Call {
    f: F,
    a: usize,
    b: usize,
    x: usize,
    y: usize,
    z: u64,
    vals: Vec<Option<i32>>,
}
impl Call {
    fn new(f: F, a: usize, b: usize) -> Call {
        Call { f, a, b, x: 0, y: 0, z: 0, vals: vec![] }
    }
    fn x(mut self, x: usize) -> Call {
        self.x = x;
        self
    }
    fn y(mut self, x: usize) -> Call {
        self.y = x;
        self
    }
    fn z(mut self, x: u64) -> Call {
        self.z = x;
        self
    }
    fn vals(mut self, v: Vec<Option<i32>>) -> Call {
        self.vals = v;
        self
    }
}
#[derive(Default, Debug, Clone)]
struct Ret {
    ids: Vec<u32>,
    n: Vec<i64>,
}
struct Snap {
    len: usize,
    empty: bool,
    full: bool,
    map: Vec<(usize, u32)>,
}
#[derive(Clone, Copy)]
pub struct Info {
    cap: usize,
    zst: bool,
    tracked: bool,
    dup: bool,
}
trait Rig {
    fn info(&self) -> Info;
    fn snap(&mut self, s: usize, deep: bool) -> Snap;
    fn call(&mut self, c: &Call) -> Result<Ret, Pan>;
    fn canary(&self) -> bool;
    fn teardown(&mut self);
}

enum Fl<E: Elem, const N: usize>
where
    BitsImpl<N>: Bits,
{
    D(Drain<E, N>),
    O(OptionDrain<E, N>),
}

struct R<E: Elem, const N: usize>
where
    BitsImpl<N>: Bits,
{
    sites: Vec<Box<Slot<SparseChunk<E, N>>>>,
    hand: Vec<E>,
    arg: Vec<E>,
    fl: Vec<Fl<E, N>>,
}

/// Advance in a pattern of next/nth/size_hint; record everything seen.
fn walk<I: Iterator>(
    it: &mut I,
    pat: u64,
    steps: usize,
    out: &mut Vec<i64>,
    take: &mut dyn FnMut(I::Item) -> i64,
    exact: bool,
) {
    let mut p = pat;
    for _ in 0..steps {
        let c = p & 7;
        p = p.rotate_right(3) ^ (p >> 61);
        match c {
            0..=4 => match it.next() {
                Some(e) => {
                    let v = take(e);
                    out.push(v)
                }
                None => out.push(-1),
            },
            5 | 6 => {
                if exact {
                    let (lo, hi) = it.size_hint();
                    out.push(lo as i64);
                    out.push(hi.map(|x| x as i64).unwrap_or(-2));
                }
            }
            _ => match it.nth(crate::seq::rig::skip(p, 9)) {
                Some(e) => {
                    let v = take(e);
                    out.push(v)
                }
                None => out.push(-1),
            },
        }
    }
}
/// ways to bring an iterator to its end
const SP_ENDS: usize = 10;
fn finish<I: Iterator>(mut it: I, how: usize, bound: usize, out: &mut Vec<i64>, take: &mut dyn FnMut(I::Item) -> i64) {
    match how % SP_ENDS {
        7 => {
            for _ in 0..2 {
                let mut n = 0;
                let r = it.try_for_each(|e| {
                    let v = take(e);
                    out.push(v);
                    n += 1;
                    if n == 2 {
                        None
                    } else {
                        Some(())
                    }
                });
                out.push(r.is_some() as i64);
            }
            drop(it)
        }
        8 => it.step_by(2).for_each(|e| {
            let v = take(e);
            out.push(v)
        }),
        9 => {
            let o = it.by_ref().take(3).reduce(|_, b| b);
            out.push(o.map(|e| take(e)).unwrap_or(-1));
            let o = it.skip(1).reduce(|a, _| a);
            out.push(o.map(|e| take(e)).unwrap_or(-1));
        }
        1 => {
            let mut n = 0;
            while let Some(e) = it.next() {
                let v = take(e);
                out.push(v);
                n += 1;
                if n > bound {
                    l().violation("endless", "iterator yields more than the capacity".into());
                    return;
                }
            }
            for _ in 0..3 {
                out.push(it.next().map(|e| take(e)).unwrap_or(-1));
            }
        }
        END_FORGET => std::mem::forget(it),
        END_PANIC => {
            let _alive = it;
            std::panic::panic_any(Injected(F_BODY));
        }
        4 => out.push(it.count() as i64),
        5 => {
            let o = it.last();
            out.push(o.map(|e| take(e)).unwrap_or(-1))
        }
        6 => it.for_each(|e| {
            let v = take(e);
            out.push(v)
        }),
        _ => drop(it),
    }
}
/// The exhausted size bounds must never exclude what is left.
fn bounds<I: Iterator>(it: &I, left: usize) {
    let (lo, hi) = it.size_hint();
    if lo > left || hi.map(|h| h < left).unwrap_or(false) {
        l().violation("answer", format!("size_hint ({}, {:?}) excludes the {} elements left", lo, hi, left));
    }
}

struct OptSrc<E: Elem>(std::vec::IntoIter<Option<E>>);
impl<E: Elem> Iterator for OptSrc<E> {
    type Item = Option<E>;
    fn next(&mut self) -> Option<Option<E>> {
        l().tick(F_NEXT);
        self.0.next()
    }
}
struct OptInto<E: Elem>(Vec<Option<E>>);
impl<E: Elem> IntoIterator for OptInto<E> {
    type Item = Option<E>;
    type IntoIter = OptSrc<E>;
    fn into_iter(self) -> OptSrc<E> {
        l().tick(F_INTO);
        OptSrc(self.0.into_iter())
    }
}

impl<E: Elem, const N: usize> R<E, N>
where
    BitsImpl<N>: Bits,
{
    fn new() -> Self {
        let mut sites = vec![];
        for i in 0..SITES {
            let mut s: Box<Slot<SparseChunk<E, N>>> = Slot::boxed();
            Self::make(&mut s, i);
            sites.push(s);
        }
        R { sites, hand: vec![], arg: vec![], fl: vec![] }
    }
    fn make(s: &mut Slot<SparseChunk<E, N>>, how: usize) {
        s.poison();
        l().count_fault(F_DIRTY);
        unsafe {
            match how % 3 {
                0 => ptr::write(s.raw() as *mut SparseChunk<E, N>, SparseChunk::new()),
                1 => ptr::write(s.raw() as *mut SparseChunk<E, N>, SparseChunk::default()),
                _ => SparseChunk::default_uninit(&mut *s.raw()),
            }
        }
    }
    fn c(&mut self, a: usize) -> &mut SparseChunk<E, N> {
        self.sites[a].get_mut()
    }
    fn take(&mut self, a: usize, how: usize) -> SparseChunk<E, N> {
        let s = &mut self.sites[a];
        let c = unsafe { ptr::read(s.get_mut()) };
        Self::make(s, how);
        c
    }
    fn put(&mut self, b: usize, c: SparseChunk<E, N>) {
        let s = &mut self.sites[b];
        unsafe { ptr::drop_in_place(s.get_mut()) };
        s.poison();
        unsafe { ptr::write(s.raw() as *mut SparseChunk<E, N>, c) }
    }
    fn opt(&mut self, o: Option<E>, r: &mut Ret) {
        match o {
            Some(e) => {
                r.n.push(1);
                r.ids.push(e.id());
                self.hand.push(e)
            }
            None => r.n.push(0),
        }
    }
    fn run(&mut self, c: &Call, r: &mut Ret) {
        let (a, b) = (c.a, c.b);
        match c.f {
            F::Mint => {
                let e = E::mint(c.x as i32);
                r.ids.push(e.id());
                self.arg.push(e)
            }
            F::HandToArg => {
                let e = self.hand.remove(c.x);
                self.arg.push(e)
            }
            F::DropArgs => self.arg.clear(),
            F::HandDrop => drop(self.hand.remove(c.x)),
            F::Insert => {
                let e = self.arg.pop().unwrap();
                let o = self.c(a).insert(c.x, e);
                self.opt(o, r)
            }
            F::Remove => {
                let o = self.c(a).remove(c.x);
                self.opt(o, r)
            }
            F::Pop => {
                let o = self.c(a).pop();
                self.opt(o, r)
            }
            F::Get => {
                let cc = self.c(a);
                for o in [cc.get(c.x).map(|e| e.id()), cc.get_mut(c.x).map(|e| e.id())] {
                    r.n.push(o.is_some() as i64);
                    r.ids.extend(o);
                }
            }
            F::GetSet => {
                let e = self.arg.pop().unwrap();
                match self.c(a).get_mut(c.x) {
                    Some(p) => {
                        let o = std::mem::replace(p, e);
                        self.opt(Some(o), r)
                    }
                    None => self.opt(None, r),
                }
            }
            F::Index => {
                let i = self.c(a)[c.x].id();
                r.ids.push(i);
            }
            F::IndexSet => {
                let e = self.arg.pop().unwrap();
                self.c(a)[c.x] = e
            }
            F::Iter => {
                let left = self.c(a).len();
                let cc = self.sites[a].get();
                let mut it = cc.iter();
                bounds(&it, left);
                let mut take = |e: &E| e.id() as i64;
                walk(&mut it, c.z, c.y, &mut r.n, &mut take, false);
                finish(it, c.x, N, &mut r.n, &mut take)
            }
            F::IterMut => {
                let mut it = self.sites[a].get_mut().iter_mut();
                let (arg, hand) = (&mut self.arg, &mut self.hand);
                let mut take = |e: &mut E| {
                    let id = e.id() as i64;
                    if let Some(n) = arg.pop() {
                        hand.push(std::mem::replace(e, n));
                    }
                    id
                };
                walk(&mut it, c.z, c.y, &mut r.n, &mut take, false);
                finish(it, c.x, N, &mut r.n, &mut take)
            }
            F::Entries => {
                let cc = self.sites[a].get();
                let mut it = cc.entries();
                bounds(&it, cc.len());
                let mut take = |e: (usize, &E)| (e.0 as i64) << 32 | e.1.id() as i64;
                walk(&mut it, c.z, c.y, &mut r.n, &mut take, false);
                finish(it, c.x, N, &mut r.n, &mut take);
                let mut it = cc.indices();
                let mut take = |e: usize| e as i64;
                walk(&mut it, c.z, c.y, &mut r.n, &mut take, false);
                r.n.push(cc.first_index().map(|i| i as i64).unwrap_or(-1));
            }
            F::OptIter => {
                let mut it = self.sites[a].get().option_iter();
                let mut take = |e: Option<&E>| e.map(|e| e.id() as i64).unwrap_or(-7);
                walk(&mut it, c.z, c.y, &mut r.n, &mut take, true);
                finish(it, c.x, N, &mut r.n, &mut take)
            }
            F::OptIterMut => {
                let mut it = self.sites[a].get_mut().option_iter_mut();
                let (arg, hand) = (&mut self.arg, &mut self.hand);
                let mut take = |e: Option<&mut E>| {
                    e.map(|e| {
                        let id = e.id() as i64;
                        if let Some(n) = arg.pop() {
                            hand.push(std::mem::replace(e, n));
                        }
                        id
                    })
                    .unwrap_or(-7)
                };
                walk(&mut it, c.z, c.y, &mut r.n, &mut take, true);
                finish(it, c.x, N, &mut r.n, &mut take)
            }
            F::Drain | F::OptDrain => {
                let cc = self.take(a, c.b);
                let hand = &mut self.hand;
                if c.f == F::Drain {
                    let mut it = if c.z & 8 == 0 { cc.drain() } else { cc.into_iter() };
                    let mut take = |e: E| {
                        let id = e.id() as i64;
                        l().yield_hand.push(id as u32);
                        hand.push(e);
                        id
                    };
                    walk(&mut it, c.z, c.y, &mut r.n, &mut take, true);
                    finish(it, c.x, N, &mut r.n, &mut take)
                } else {
                    let mut it = cc.option_drain();
                    let mut take = |e: Option<E>| {
                        e.map(|e| {
                            let id = e.id() as i64;
                            l().yield_hand.push(id as u32);
                            hand.push(e);
                            id
                        })
                        .unwrap_or(-7)
                    };
                    walk(&mut it, c.z, c.y, &mut r.n, &mut take, true);
                    finish(it, c.x, N, &mut r.n, &mut take)
                }
            }
            F::Flight => {
                let cc = self.take(a, c.b);
                self.fl.push(Fl::D(cc.drain()))
            }
            F::FlightOpt => {
                let cc = self.take(a, c.b);
                self.fl.push(Fl::O(cc.option_drain()))
            }
            F::FlightStep => {
                let hand = &mut self.hand;
                match &mut self.fl[c.x] {
                    Fl::D(it) => {
                        let mut take = |e: E| {
                            let id = e.id() as i64;
                            l().yield_hand.push(id as u32);
                            hand.push(e);
                            id
                        };
                        walk(it, c.z, c.y, &mut r.n, &mut take, true)
                    }
                    Fl::O(it) => {
                        let mut take = |e: Option<E>| {
                            e.map(|e| {
                                let id = e.id() as i64;
                                l().yield_hand.push(id as u32);
                                hand.push(e);
                                id
                            })
                            .unwrap_or(-7)
                        };
                        walk(it, c.z, c.y, &mut r.n, &mut take, true)
                    }
                }
            }
            F::FlightEnd => {
                let f = self.fl.remove(c.x);
                if c.y == 0 {
                    drop(f)
                } else {
                    std::mem::forget(f)
                }
            }
            F::Exhaust => {
                let hand = &mut self.hand;
                let mut take = |e: E| {
                    let id = e.id() as i64;
                    l().yield_hand.push(id as u32);
                    hand.push(e);
                    id
                };
                match self.fl.remove(c.x) {
                    Fl::D(it) => finish(it, 1, N, &mut r.n, &mut take),
                    Fl::O(it) => finish(it.flatten(), 1, N, &mut r.n, &mut take),
                }
            }
            F::FromIter => {
                let v: Vec<Option<E>> = c.vals.iter().map(|o| o.map(E::mint)).collect();
                for e in v.iter().flatten() {
                    l().yielded.push(e.id())
                }
                let n: SparseChunk<E, N> = OptInto(v).into_iter().collect();
                self.put(b, n)
            }
            F::CloneTo => {
                let n = self.c(a).clone();
                self.put(b, n)
            }
            F::CloneFrom => {
                let pb: *mut SparseChunk<E, N> = self.c(b);
                let pa: *const SparseChunk<E, N> = self.c(a);
                unsafe { (*pb).clone_from(&*pa) }
            }
            F::PoolClone => {
                unsafe { ptr::drop_in_place(self.sites[b].get_mut()) };
                let src: *const SparseChunk<E, N> = self.sites[a].get();
                let s = &mut self.sites[b];
                s.poison();
                let ok = guarded(|| unsafe { (*src).clone_uninit(&mut *s.raw()) });
                if let Err(p) = ok {
                    // the target stays uninitialised: start over there
                    Self::make(s, 0);
                    match p {
                        Pan::Inj(k) => std::panic::panic_any(Injected(k)),
                        Pan::Lib(m) => panic!("{}", m),
                    }
                }
            }
            F::Eq => {
                let (x, y) = (self.sites[a].get(), self.sites[b].get());
                r.n.push((x == y) as i64);
                r.n.push((y == x) as i64);
                #[allow(clippy::eq_op)]
                r.n.push((x == x) as i64);
            }
            F::EqTree => {
                let m: BTreeMap<usize, E> = c.vals.iter().enumerate().filter_map(|(i, o)| o.map(|v| (i, E::mint(v)))).collect();
                r.n.push((*self.sites[a].get() == m) as i64);
            }
            F::EqHash => {
                // the map's hash keys are part of the simulated randomness
                let keys = crate::rng::mix(c.x as u64 ^ 0x4a5);
                let state: RandomState = unsafe { std::mem::transmute((keys, !keys)) };
                let mut m: HashMap<usize, E> = HashMap::with_hasher(state);
                m.extend(c.vals.iter().enumerate().filter_map(|(i, o)| o.map(|v| (i, E::mint(v)))));
                r.n.push((*self.sites[a].get() == m) as i64);
            }
            F::Dbg => {
                let cc = self.sites[a].get();
                r.n = dbg_ints(cc);
                r.n.push(dbg_hash(cc, false) as i64);
                r.n.push(dbg_hash(cc, true) as i64);
            }
            F::Unit => {
                let e = self.arg.pop().unwrap();
                let n = SparseChunk::unit(c.x, e);
                self.put(b, n)
            }
            F::Pair => {
                let e = self.arg.pop().unwrap();
                let f = self.arg.pop().unwrap();
                let n = SparseChunk::pair(c.x, f, c.y, e);
                self.put(b, n)
            }
            F::MoveSite => {
                let n = self.take(a, c.x);
                self.put(b, n)
            }
            F::DropSite => drop(self.take(a, c.x)),
            F::ForgetSite => std::mem::forget(self.take(a, c.x)),
            F::Reset => {
                unsafe { ptr::drop_in_place(self.sites[a].get_mut()) };
                Self::make(&mut self.sites[a], c.x)
            }
            _ => {}
        }
    }
}
impl<E: Elem, const N: usize> Rig for R<E, N>
where
    BitsImpl<N>: Bits,
{
    fn info(&self) -> Info {
        Info { cap: SparseChunk::<E, N>::CAPACITY, zst: E::ZST, tracked: E::TRACKED, dup: E::DUP }
    }
    fn snap(&mut self, s: usize, deep: bool) -> Snap {
        let c = self.sites[s].get_mut();
        let mut map = vec![];
        if deep || N <= 70 {
            for i in 0..N {
                if let Some(e) = c.get(i) {
                    map.push((i, e.id()))
                }
            }
        } else {
            map = c.entries().take(N + 1).map(|(i, e)| (i, e.id())).collect();
        }
        if deep {
            let bad = |w: &str| l().violation("contents", format!("{} disagrees with lookups {:?}", w, map));
            let e: Vec<(usize, u32)> = c.entries().take(N + 1).map(|(i, e)| (i, e.id())).collect();
            if e != map {
                bad("entries()")
            }
            let v: Vec<u32> = c.iter().take(N + 1).map(|e| e.id()).collect();
            if !v.iter().eq(map.iter().map(|x| &x.1)) {
                bad("iter()")
            }
            let v: Vec<usize> = c.indices().take(N + 1).collect();
            if !v.iter().eq(map.iter().map(|x| &x.0)) {
                bad("indices()")
            }
            let v: Vec<(usize, u32)> =
                c.option_iter().take(N + 2).enumerate().filter_map(|(i, o)| o.map(|e| (i, e.id()))).collect();
            if v != map || c.option_iter().take(N + 2).count() != N {
                bad("option_iter()")
            }
            let v: Vec<u32> = c.iter_mut().take(N + 1).map(|e| e.id()).collect();
            if !v.iter().eq(map.iter().map(|x| &x.1)) {
                bad("iter_mut()")
            }
            let v: Vec<(usize, u32)> =
                c.option_iter_mut().take(N + 2).enumerate().filter_map(|(i, o)| o.map(|e| (i, e.id()))).collect();
            if v != map {
                bad("option_iter_mut()")
            }
            if c.first_index() != map.first().map(|x| x.0) {
                bad("first_index()")
            }
            for (i, id) in &map {
                if unsafe { c.get_unchecked(*i).id() != *id || c.get_unchecked_mut(*i).id() != *id } {
                    bad("unchecked access")
                }
                if c[*i].id() != *id || c.get_mut(*i).map(|e| e.id()) != Some(*id) {
                    bad("indexing")
                }
            }
            for i in [N, N + 1, N * 2, usize::MAX] {
                if c.get(i).is_some() || c.get_mut(i).is_some() {
                    l().violation("accepted", format!("get({}) found something", i))
                }
            }
        }
        Snap { len: c.len(), empty: c.is_empty(), full: c.is_full(), map }
    }
    fn call(&mut self, c: &Call) -> Result<Ret, Pan> {
        let mut r = Ret::default();
        let o = guarded(|| self.run(c, &mut r));
        match o {
            Ok(()) => Ok(r),
            Err(p) => {
                l().yield_n = r.n;
                l().disarm();
                self.arg.clear();
                Err(p)
            }
        }
    }
    fn canary(&self) -> bool {
        self.sites.iter().all(|s| s.ok())
    }
    fn teardown(&mut self) {
        self.hand.clear();
        self.arg.clear();
        self.fl.clear();
        for s in self.sites.iter_mut() {
            unsafe { ptr::drop_in_place(s.get_mut()) };
            // leave something droppable behind
        }
        self.sites.iter_mut().for_each(|s| s.poison());
    }
}

pub struct Cfg {
    pub name: &'static str,
    cap: usize,
    weight: u32,
    make: fn() -> Box<dyn Rig>,
}
fn mk<E: Elem, const N: usize>() -> Box<dyn Rig>
where
    BitsImpl<N>: Bits,
{
    Box::new(R::<E, N>::new())
}
macro_rules! cfgs {
    ($( $w:literal $e:ty , $n:literal );* $(;)?) => {
        vec![ $( Cfg { name: concat!("SparseChunk<", stringify!($e), ", ", stringify!($n), ">"), cap: $n, weight: $w, make: mk::<$e, $n> } ),* ]
    };
}
pub fn all() -> Vec<Cfg> {
    cfgs![
        2 Tok, 1; 3 Tok, 2; 5 Tok, 4; 5 Tok, 7; 3 Tok, 16; 2 Tok, 33; 2 Tok, 64; 2 Tok, 65; 2 Tok, 130; 1 Tok, 256; 1 Tok, 1024;
        3 Odd, 8; 1 Odd, 128; 2 Big, 5; 2 Cop, 12; 1 Pod, 9; 2 Zst, 6; 1 Zal, 5;
    ]
}

struct Flm {
    opt: bool,
    at: usize,
    m: BTreeMap<usize, u32>,
}

/// The iterator a drain should be, over the model.
struct MIter<'a> {
    f: &'a mut Flm,
    cap: usize,
    got: &'a mut Vec<u32>,
}
impl<'a> Iterator for MIter<'a> {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        if self.f.opt {
            if self.f.at >= self.cap {
                return None;
            }
            let i = self.f.at;
            self.f.at += 1;
            Some(match self.f.m.remove(&i) {
                Some(id) => {
                    self.got.push(id);
                    id as i64
                }
                None => -7,
            })
        } else {
            let (k, id) = self.f.m.iter().next().map(|(k, v)| (*k, *v))?;
            self.f.m.remove(&k);
            self.got.push(id);
            Some(id as i64)
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = if self.f.opt { self.cap - self.f.at } else { self.f.m.len() };
        (n, Some(n))
    }
}

struct Out {
    res: Result<Ret, Pan>,
    ids: Vec<u32>,
    n: Vec<i64>,
    fired: bool,
    clones: Vec<u32>,
    yielded: Vec<u32>,
    gave: Vec<u32>,
}
#[derive(PartialEq, Eq, Clone, Copy)]
enum V {
    Ok,
    Reject,
    Inj,
    Bad,
}

pub struct Sim<'s> {
    rig: Box<dyn Rig>,
    info: Info,
    drops: u64,
    m: Vec<BTreeMap<usize, u32>>,
    hand: Vec<u32>,
    fl: Vec<Flm>,
    st: &'s mut Stats,
    config: usize,
    depth: u32,
}

pub fn run(case: &Case, st: &mut Stats) {
    let all = all();
    let cfg = &all[case.config % all.len()];
    let rig = match guarded(|| (cfg.make)()) {
        Ok(r) => r,
        Err(p) => {
            l().violation("spurious-panic", format!("creating an empty container panicked: {:?}", p));
            return;
        }
    };
    let info = rig.info();
    if info.cap != cfg.cap {
        l().violation("contents", format!("advertised capacity {} instead of {}", info.cap, cfg.cap));
        return;
    }
    Sim { rig, info, drops: 0, m: vec![BTreeMap::new(); SITES], hand: vec![], fl: vec![], st, config: case.config % all.len(), depth: 0 }.run(case)
}

impl<'s> Sim<'s> {
    fn run(mut self, case: &Case) {
        for op in &case.ops {
            self.step(op);
            if l().viol.is_some() {
                return;
            }
        }
        for s in 0..SITES {
            self.check(s, true);
        }
        self.totals("end of run");
        if l().viol.is_some() {
            return;
        }
        if let Err(p) = guarded(|| self.rig.teardown()) {
            l().violation("spurious-panic", format!("dropping the containers panicked: {:?}", p));
            return;
        }
        self.m.iter_mut().for_each(|m| m.clear());
        self.hand.clear();
        self.fl.clear();
        self.totals("after dropping everything");
    }
    fn vals(&self, s: usize) -> BTreeMap<usize, i32> {
        self.m[s].iter().map(|(k, v)| (*k, l().val(*v))).collect()
    }
    fn total(&self) -> usize {
        self.m.iter().map(|m| m.len()).sum::<usize>() + self.hand.len() + self.fl.iter().map(|f| f.m.len()).sum::<usize>()
    }
    fn accounted(&self) -> HashSet<u32> {
        let mut s: HashSet<u32> = self.hand.iter().copied().collect();
        for m in &self.m {
            s.extend(m.values());
        }
        for f in &self.fl {
            s.extend(f.m.values());
        }
        s
    }
    fn totals(&mut self, when: &str) {
        if l().viol.is_some() || !self.info.tracked {
            return;
        }
        let drops = l().fault_counts[F_DROP as usize];
        if drops != self.drops {
            // what a panicking destructor cut short may have left elements behind for good
            self.drops = drops;
            self.abandon_rest();
        }
        let want = self.total() as isize;
        let have = if self.info.zst { l().z_live() } else { l().live as isize };
        if want != have {
            let class = if have > want { "leak" } else { "lost" };
            l().violation(class, format!("{}: {} elements alive, {} accounted for", when, have, want));
        }
    }
    fn abandon_rest(&mut self) {
        if self.info.zst {
            let extra = l().z_live() - self.total() as isize;
            if extra > 0 {
                l().z_limbo += extra as usize;
            }
        } else if self.info.tracked {
            let acc = self.accounted();
            l().abandon_except(&|i| acc.contains(&i));
        }
    }
    fn check(&mut self, s: usize, deep: bool) {
        if l().viol.is_some() {
            return;
        }
        let rig = &mut self.rig;
        let sn = match guarded(|| rig.snap(s, deep)) {
            Ok(x) => x,
            Err(p) => {
                l().violation("spurious-panic", format!("reading container {} panicked: {:?}", s, p));
                return;
            }
        };
        if l().viol.is_some() {
            return;
        }
        let want: Vec<(usize, u32)> = self.m[s].iter().map(|(k, v)| (*k, *v)).collect();
        if sn.map != want || sn.len != want.len() || sn.empty != want.is_empty() || sn.full != (want.len() == self.info.cap) {
            let t = |v: &Vec<(usize, u32)>| v.iter().take(20).copied().collect::<Vec<_>>();
            l().violation(
                "contents",
                format!("container {} holds {:?} (len {} empty {} full {}), expected {:?} ({})", s, t(&sn.map), sn.len, sn.empty, sn.full, t(&want), want.len()),
            );
        }
    }
    fn exec(&mut self, c: &Call, op: &Op) -> Out {
        let lg = l();
        lg.yielded.clear();
        lg.clones.clear();
        lg.yield_hand.clear();
        lg.yield_n.clear();
        lg.ev(300 + c.f as u64, (c.a * 4 + c.b) as u64, c.x as u64 ^ (c.y as u64) << 20);
        lg.arm(op.fk, op.fnth as u32);
        let f0: u64 = lg.fault_counts[..F_CHAOS as usize].iter().sum();
        let res = self.rig.call(c);
        let lg = l();
        lg.disarm();
        let fired = lg.fault_counts[..F_CHAOS as usize].iter().sum::<u64>() > f0;
        let (ids, n) = match &res {
            Ok(r) => (r.ids.clone(), r.n.clone()),
            Err(_) => (vec![], lg.yield_n.clone()),
        };
        lg.ev(
            5,
            match &res {
                Ok(_) => 0,
                Err(Pan::Inj(k)) => 16 + *k as u64,
                Err(Pan::Lib(_)) => 1,
            },
            n.len() as u64,
        );
        for i in &ids {
            lg.ev(6, *i as u64, 0);
        }
        if lg.trace {
            eprintln!("call {:?} -> {:?}", c, res);
        }
        self.st.steps += 1;
        Out { res, ids, n, fired, clones: lg.clones.clone(), yielded: lg.yielded.clone(), gave: lg.yield_hand.clone() }
    }
    fn verdict(&mut self, o: &Out, ok: bool, f: F) -> V {
        if l().viol.is_some() {
            return V::Bad;
        }
        match &o.res {
            Ok(_) if ok => V::Ok,
            Ok(_) => {
                l().violation("accepted", format!("{:?} should have been refused", f));
                V::Bad
            }
            Err(Pan::Lib(_)) if !ok => {
                l().count_fault(F_REJECT);
                self.st.rejects += 1;
                V::Reject
            }
            Err(Pan::Lib(m)) => {
                l().violation("spurious-panic", format!("{:?} panicked: {}", f, m));
                V::Bad
            }
            Err(Pan::Inj(_)) => V::Inj,
        }
    }
    fn expect(&mut self, o: &Out, n: &[i64], ids: &[u32], f: F) {
        if l().viol.is_none() && (o.n != n || o.ids != ids) {
            l().violation("answer", format!("{:?} answered {:?} {:?}, expected {:?} {:?}", f, o.n, o.ids, n, ids));
        }
    }
    fn arg(&mut self, op: &Op, salt: u16) -> u32 {
        let k = self.hand.len();
        if k > 0 && (op.z + salt) % 3 == 0 {
            let i = (op.z / 3) as usize % k;
            let _ = self.rig.call(&Call::new(F::HandToArg, 0, 0).x(i));
            self.hand.remove(i)
        } else {
            match self.rig.call(&Call::new(F::Mint, 0, 0).x((op.z.wrapping_add(salt * 5) % VALS) as usize)) {
                Ok(r) => r.ids[0],
                Err(_) => 0,
            }
        }
    }
    fn reset(&mut self, s: usize, how: usize) {
        if let Err(p) = self.rig.call(&Call::new(F::Reset, s, 0).x(how)) {
            l().violation("spurious-panic", format!("dropping a container panicked: {:?}", p));
        }
        self.m[s].clear();
    }
    /// An index: often an occupied one.
    fn idx(&self, x: u16, y: u16, s: usize) -> usize {
        let cap = self.info.cap;
        if x < WILD && y % 5 < 2 && !self.m[s].is_empty() {
            let k = x as usize % self.m[s].len();
            return *self.m[s].keys().nth(k).unwrap();
        }
        if x < WILD && y % 5 == 4 {
            // near the edges of machine words
            let e = [0, 31, 32, 63, 64, 65, 127, 128, 129, cap - 1][x as usize % 10];
            return e.min(cap - 1);
        }
        sel(x, cap, self.m[s].len(), cap)
    }
    fn step(&mut self, op: &Op) {
        if l().viol.is_some() {
            return;
        }
        let f = match ALL.get(op.code as usize) {
            Some(f) => *f,
            None => return,
        };
        let a = op.a as usize % SITES;
        let b = (a + 1 + op.b as usize % (SITES - 1)) % SITES;
        let len0 = self.m[a].len();
        match f {
            F::Fill => self.fill(op, a),
            F::Heal => self.heal(op, a),
            F::Twin => self.twin(op, a, b),
            _ => {}
        }
        if matches!(f, F::Fill | F::Heal | F::Twin) {
            *self.st.per_op.entry(op_name(op.code)).or_insert(0) += 1;
            self.check(a, true);
            self.check(b, true);
            self.totals("after the operation");
            return;
        }
        let o = match self.apply(f, op, a, b) {
            Some(o) => o,
            None => return,
        };
        self.st.ops_effective += 1;
        *self.st.per_op.entry(op_name(op.code)).or_insert(0) += 1;
        if l().viol.is_some() {
            return;
        }
        if !self.rig.canary() {
            l().violation("canary", "memory outside a container was overwritten".into());
            return;
        }
        let deep = o.res.is_err() || op.z % 4 == 0;
        self.check(a, deep);
        self.check(b, deep);
        if o.res.is_err() {
            for s in 0..SITES {
                self.check(s, false)
            }
        }
        self.totals("after the operation");
        let outcome = match &o.res {
            Ok(_) => 1,
            Err(Pan::Inj(k)) => 10 + *k as u64,
            Err(_) => 2,
        };
        let low = self.m[a].keys().next().copied().unwrap_or(0) as u64;
        let h = mix(
            0x5a << 56 ^ (self.config as u64) << 48 ^ (op.code as u64) << 40 ^ (len0.min(200) as u64) << 24 ^ low << 8 ^ outcome
                ^ (if o.fired { op.fnth.min(8) as u64 } else { 0 }) << 36,
        );
        self.st.state(h);
    }
    fn mwalk(f: &mut Flm, cap: usize, pat: u64, steps: usize, how: Option<usize>, hint: bool) -> (Vec<i64>, Vec<u32>) {
        let mut n = vec![];
        let mut got = vec![];
        {
            let mut it = MIter { f, cap, got: &mut got };
            walk(&mut it, pat, steps, &mut n, &mut |v| v, hint);
            if let Some(h) = how {
                if h % SP_ENDS != END_FORGET && h % SP_ENDS != END_PANIC && h % SP_ENDS != 0 {
                    finish(it, h, usize::MAX, &mut n, &mut |v| v)
                }
            }
        }
        (n, got)
    }
    fn apply(&mut self, f: F, op: &Op, a: usize, b: usize) -> Option<Out> {
        let cap = self.info.cap;
        let call = Call::new(f, a, b);
        match f {
            F::HandDrop => {
                if self.hand.is_empty() {
                    return None;
                }
                let k = op.x as usize % self.hand.len();
                self.hand.remove(k);
                let o = self.exec(&call.x(k), op);
                self.verdict(&o, true, f);
                Some(o)
            }
            F::Insert => {
                let i = self.idx(op.x, op.y, a);
                let id = self.arg(op, 0);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, i < cap, f) == V::Ok {
                    match self.m[a].insert(i, id) {
                        Some(old) => {
                            self.expect(&o, &[1], &[old], f);
                            self.hand.push(old)
                        }
                        None => self.expect(&o, &[0], &[], f),
                    }
                }
                Some(o)
            }
            F::Remove => {
                let i = self.idx(op.x, op.y, a);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, i < cap, f) == V::Ok {
                    match self.m[a].remove(&i) {
                        Some(old) => {
                            self.expect(&o, &[1], &[old], f);
                            self.hand.push(old)
                        }
                        None => self.expect(&o, &[0], &[], f),
                    }
                }
                Some(o)
            }
            F::Pop => {
                let o = self.exec(&call, op);
                if self.verdict(&o, true, f) == V::Ok {
                    let k = self.m[a].keys().next().copied();
                    match k {
                        Some(k) => {
                            let id = self.m[a].remove(&k).unwrap();
                            self.expect(&o, &[1], &[id], f);
                            self.hand.push(id)
                        }
                        None => self.expect(&o, &[0], &[], f),
                    }
                }
                Some(o)
            }
            F::Get => {
                let i = self.idx(op.x, op.y, a);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, true, f) == V::Ok {
                    match self.m[a].get(&i).copied() {
                        Some(id) => self.expect(&o, &[1, 1], &[id, id], f),
                        None => {
                            if i >= cap {
                                l().count_fault(F_REJECT);
                            }
                            self.expect(&o, &[0, 0], &[], f)
                        }
                    }
                }
                Some(o)
            }
            F::GetSet => {
                let i = self.idx(op.x, op.y, a);
                let id = self.arg(op, 0);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, true, f) == V::Ok {
                    match self.m[a].get_mut(&i) {
                        Some(p) => {
                            let old = std::mem::replace(p, id);
                            self.expect(&o, &[1], &[old], f);
                            self.hand.push(old)
                        }
                        None => self.expect(&o, &[0], &[], f),
                    }
                }
                Some(o)
            }
            F::Index => {
                let i = self.idx(op.x, op.y, a);
                let o = self.exec(&call.x(i), op);
                let w = self.m[a].get(&i).copied();
                if self.verdict(&o, w.is_some(), f) == V::Ok {
                    self.expect(&o, &[], &[w.unwrap()], f)
                }
                Some(o)
            }
            F::IndexSet => {
                let i = self.idx(op.x, op.y, a);
                let id = self.arg(op, 0);
                let o = self.exec(&call.x(i), op);
                let w = self.m[a].get(&i).copied();
                match self.verdict(&o, w.is_some(), f) {
                    V::Ok => {
                        self.m[a].insert(i, id);
                    }
                    // the old value's destructor panicked: the assignment still happens
                    V::Inj => {
                        self.m[a].insert(i, id);
                    }
                    _ => {}
                }
                Some(o)
            }
            F::Iter | F::Entries | F::OptIter => {
                let (pat, steps, how) = self.wk(op);
                let o = self.exec(&call.x(how).y(steps).z(pat), op);
                match self.verdict(&o, true, f) {
                    V::Ok | V::Inj => {}
                    _ => return Some(o),
                }
                let mut want;
                if f == F::Entries {
                    let v: Vec<i64> = self.m[a].iter().map(|(k, v)| (*k as i64) << 32 | *v as i64).collect();
                    want = vec![];
                    let mut it = v.iter().copied();
                    walk(&mut it, pat, steps, &mut want, &mut |v| v, false);
                    if !matches!(how % SP_ENDS, END_FORGET | END_PANIC) {
                        finish(it, how, usize::MAX, &mut want, &mut |v| v)
                    }
                    if how % SP_ENDS != END_PANIC {
                        let v: Vec<i64> = self.m[a].keys().map(|k| *k as i64).collect();
                        let mut it = v.iter().copied();
                        walk(&mut it, pat, steps, &mut want, &mut |v| v, false);
                        want.push(v.first().copied().unwrap_or(-1));
                    }
                } else {
                    let mut fm = Flm { opt: f == F::OptIter, at: 0, m: self.m[a].clone() };
                    want = Self::mwalk(&mut fm, cap, pat, steps, Some(how), f == F::OptIter).0;
                }
                self.walked(&o, &want, how, f);
                Some(o)
            }
            F::IterMut | F::OptIterMut => {
                let (pat, steps, how) = self.wk(op);
                let k = op.b as usize % 3;
                let ids: Vec<u32> = (0..k).map(|i| self.arg(op, i as u16)).collect();
                let o = self.exec(&call.x(how).y(steps).z(pat), op);
                match self.verdict(&o, true, f) {
                    V::Ok | V::Inj => {}
                    _ => return Some(o),
                }
                // the same walk over the model's keys
                let opt = f == F::OptIterMut;
                let keys: Vec<Option<usize>> = if opt {
                    (0..cap).map(|i| if self.m[a].contains_key(&i) { Some(i) } else { None }).collect()
                } else {
                    self.m[a].keys().map(|k| Some(*k)).collect()
                };
                let mut rest = ids;
                let mut want = vec![];
                {
                    let (m, hand, rest) = (&mut self.m[a], &mut self.hand, &mut rest);
                    let mut take = |k: Option<usize>| match k {
                        None => -7,
                        Some(k) => {
                            let id = m[&k];
                            if let Some(n) = rest.pop() {
                                m.insert(k, n);
                                hand.push(id)
                            }
                            id as i64
                        }
                    };
                    let mut it = keys.into_iter();
                    walk(&mut it, pat, steps, &mut want, &mut take, opt);
                    if !matches!(how % SP_ENDS, 0 | END_FORGET | END_PANIC) {
                        finish(it, how, usize::MAX, &mut want, &mut take)
                    }
                }
                self.walked(&o, &want, how, f);
                let _ = self.rig.call(&Call::new(F::DropArgs, 0, 0));
                Some(o)
            }
            F::Drain | F::OptDrain => {
                let (pat, steps, how) = self.wk(op);
                let o = self.exec(&call.x(how).y(steps).z(pat), op);
                match self.verdict(&o, true, f) {
                    V::Ok | V::Inj => {}
                    _ => return Some(o),
                }
                let mut fm = Flm { opt: f == F::OptDrain, at: 0, m: std::mem::take(&mut self.m[a]) };
                let drop_fault = matches!(o.res, Err(Pan::Inj(F_DROP)));
                let (want, got) = Self::mwalk(&mut fm, cap, pat, steps, Some(how), true);
                // what the loop body received
                let gave: Vec<u32> = o.gave.clone();
                if !drop_fault {
                    self.walked(&o, &want, how, f);
                }
                let allowed: HashSet<u32> = got.iter().copied().collect();
                if !self.info.zst && !gave.iter().all(|g| allowed.contains(g)) {
                    l().violation("answer", format!("{:?} handed over {:?}, expected some of {:?}", f, gave, got));
                }
                self.hand.extend(&gave);
                // (a destructor that panicked in nth() unwound past the forgetting)
                if how % SP_ENDS == END_FORGET && !drop_fault {
                    l().count_fault(F_FORGET);
                    if self.info.zst {
                        l().z_limbo += fm.m.len();
                    } else {
                        fm.m.values().for_each(|v| l().abandon(*v));
                    }
                } else if how % SP_ENDS == 0 && !fm.m.is_empty() {
                    l().count_fault(F_CANCEL);
                }
                if drop_fault {
                    self.abandon_rest()
                }
                Some(o)
            }
            F::Flight | F::FlightOpt => {
                if self.fl.len() >= 3 {
                    return None;
                }
                let o = self.exec(&call, op);
                if self.verdict(&o, true, f) == V::Ok {
                    let m = std::mem::take(&mut self.m[a]);
                    self.fl.push(Flm { opt: f == F::FlightOpt, at: 0, m });
                }
                Some(o)
            }
            F::FlightStep => {
                if self.fl.is_empty() {
                    return None;
                }
                let k = op.x as usize % self.fl.len();
                let pat = mix(op.y as u64) | 1;
                let steps = op.y as usize % 6 + 1;
                let o = self.exec(&call.x(k).y(steps).z(pat), op);
                if self.verdict(&o, true, f) == V::Bad {
                    return Some(o);
                }
                let (want, got) = Self::mwalk(&mut self.fl[k], cap, pat, steps, None, true);
                if matches!(o.res, Err(Pan::Inj(_))) {
                    // a skipped element's destructor panicked inside nth()
                    return self.flight_recover(k, got, o);
                }
                if o.n != want {
                    l().violation("answer", format!("stepping a drain gave {:?}, expected {:?}", o.n, want));
                }
                self.hand.extend(&o.gave);
                Some(o)
            }
            F::FlightEnd | F::Exhaust => {
                if self.fl.is_empty() {
                    return None;
                }
                let k = op.x as usize % self.fl.len();
                let forget = op.y % 6 == 0;
                if op.y % 3 == 1 {
                    let mut fm = self.fl.remove(k);
                    let o = self.exec(&Call::new(F::Exhaust, a, b).x(k), op);
                    if self.verdict(&o, true, f) == V::Ok {
                        fm.opt = false;
                        let (want, _) = Self::mwalk(&mut fm, cap, 0, 0, Some(1), false);
                        self.expect(&o, &want, &[], f);
                        self.hand.extend(&o.gave);
                    }
                    return Some(o);
                }
                let fm = self.fl.remove(k);
                if !forget && !fm.m.is_empty() {
                    l().count_fault(F_CANCEL);
                }
                if forget {
                    l().count_fault(F_FORGET);
                    if self.info.zst {
                        l().z_limbo += fm.m.len();
                    } else {
                        fm.m.values().for_each(|v| l().abandon(*v));
                    }
                }
                let o = self.exec(&call.x(k).y(forget as usize), op);
                if self.verdict(&o, true, f) == V::Inj {
                    self.abandon_rest()
                }
                Some(o)
            }
            F::FromIter => {
                self.reset(b, op.x as usize);
                let over = op.x >= WILD;
                let len = if over { cap + 1 + op.y as usize % 3 } else { op.x as usize % (cap + 1) };
                let v: Vec<Option<i32>> = (0..len)
                    .map(|i| {
                        let h = mix(op.z as u64 ^ (i as u64) << 20);
                        if (h >> 8) % 4 < (op.y as u64 % 5) { Some((h % VALS as u64) as i32) } else { None }
                    })
                    .collect();
                let fits = v.iter().enumerate().all(|(i, o)| o.is_none() || i < cap);
                let o = self.exec(&call.vals(v.clone()), op);
                if self.verdict(&o, fits, f) == V::Ok {
                    let mut it = o.yielded.iter();
                    for (i, x) in v.iter().enumerate() {
                        if x.is_some() {
                            self.m[b].insert(i, *it.next().unwrap());
                        }
                    }
                }
                Some(o)
            }
            F::CloneTo | F::PoolClone => {
                self.reset(b, op.x as usize);
                let o = self.exec(&call, op);
                match self.verdict(&o, true, f) {
                    V::Ok => self.copied(a, b, &o, f),
                    V::Inj if f == F::PoolClone => self.abandon_rest(),
                    _ => {}
                }
                Some(o)
            }
            F::CloneFrom => {
                let o = self.exec(&call, op);
                match self.verdict(&o, true, f) {
                    V::Ok => {
                        self.m[b].clear();
                        self.copied(a, b, &o, f)
                    }
                    V::Inj => {
                        if matches!(o.res, Err(Pan::Inj(F_DROP))) {
                            // replaced all the same; the rest of the old contents may be abandoned
                            self.m[b].clear();
                            self.copied(a, b, &o, f);
                            self.abandon_rest()
                        }
                    }
                    _ => {}
                }
                Some(o)
            }
            F::Eq => {
                let want = (self.vals(a) == self.vals(b)) as i64;
                let o = self.exec(&call, op);
                if self.verdict(&o, true, f) == V::Ok {
                    self.expect(&o, &[want, want, 1], &[], f)
                }
                Some(o)
            }
            F::EqTree | F::EqHash => {
                let mut w = self.vals(a);
                match op.x % 7 {
                    1 => {
                        if let Some(k) = w.keys().nth(op.y as usize % w.len().max(1)).copied() {
                            *w.get_mut(&k).unwrap() += 1 + op.z as i32 % 3
                        }
                    }
                    2 => {
                        w.insert(op.y as usize % cap, 3);
                    }
                    3 => {
                        if let Some(k) = w.keys().nth(op.y as usize % w.len().max(1)).copied() {
                            w.remove(&k);
                        }
                    }
                    4 => {
                        // same size, one key moved outside the container's range
                        if let Some(k) = w.keys().last().copied() {
                            let v = w.remove(&k).unwrap();
                            w.insert(cap + op.y as usize % 3, v);
                        }
                    }
                    5 => {
                        // same size, one key moved inside
                        if let Some(k) = w.keys().nth(op.y as usize % w.len().max(1)).copied() {
                            let v = w.remove(&k).unwrap();
                            w.insert(op.z as usize % cap, v);
                        }
                    }
                    _ => {}
                }
                if self.info.zst {
                    w.values_mut().for_each(|v| *v = 0)
                }
                let want = (w == self.vals(a)) as i64;
                let n = w.keys().last().map(|k| k + 1).unwrap_or(0);
                let vals = (0..n).map(|i| w.get(&i).copied()).collect();
                let o = self.exec(&call.vals(vals), op);
                if self.verdict(&o, true, f) == V::Ok {
                    self.expect(&o, &[want], &[], f)
                }
                Some(o)
            }
            F::Dbg => {
                let o = self.exec(&call, op);
                if self.verdict(&o, true, f) == V::Ok {
                    let want: Vec<i64> = self.vals(a).iter().flat_map(|(k, v)| [*k as i64, *v as i64]).collect();
                    if o.n[..o.n.len() - 2] != want[..] {
                        l().violation("answer", format!("debug output shows {:?}, expected {:?}", o.n, want));
                    }
                }
                Some(o)
            }
            F::Unit => {
                self.reset(b, op.x as usize);
                let i = self.idx(op.x, op.y, a);
                let id = self.arg(op, 0);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, i < cap, f) == V::Ok {
                    self.m[b].insert(i, id);
                }
                Some(o)
            }
            F::Pair => {
                self.reset(b, op.x as usize);
                let i = self.idx(op.x, op.y, a);
                let j = if op.z % 5 == 0 { i } else { self.idx(op.y, op.z, a) };
                let p = self.arg(op, 0);
                let q = self.arg(op, 1);
                let o = self.exec(&call.x(i).y(j), op);
                if self.verdict(&o, i < cap && j < cap, f) == V::Ok {
                    self.m[b].insert(i, p);
                    self.m[b].insert(j, q);
                }
                Some(o)
            }
            F::MoveSite => {
                self.reset(b, op.x as usize);
                let o = self.exec(&call.x(op.x as usize), op);
                if self.verdict(&o, true, f) == V::Ok {
                    self.m[b] = std::mem::take(&mut self.m[a]);
                }
                Some(o)
            }
            F::DropSite => {
                self.m[a].clear();
                let o = self.exec(&call.x(op.x as usize), op);
                if self.verdict(&o, true, f) == V::Inj {
                    self.abandon_rest()
                }
                Some(o)
            }
            F::ForgetSite => {
                let m = std::mem::take(&mut self.m[a]);
                l().count_fault(F_FORGET);
                if self.info.zst {
                    l().z_limbo += m.len();
                } else {
                    m.values().for_each(|v| l().abandon(*v));
                }
                let o = self.exec(&call.x(op.x as usize), op);
                self.verdict(&o, true, f);
                Some(o)
            }
            F::Transfer => {
                // move everything from a to b, shifted, one pop and one insert at a time
                let shift = op.x as usize % cap;
                let mut last = None;
                let n = self.m[a].len().min(op.y as usize % (cap + 1));
                for _ in 0..n {
                    let (k, id) = match self.m[a].iter().next() {
                        Some((k, v)) => (*k, *v),
                        None => break,
                    };
                    let to = (k + shift) % cap;
                    let quiet = Op { fk: 0, ..*op };
                    let o = self.exec(&Call::new(F::Pop, a, b), &quiet);
                    if self.verdict(&o, true, f) != V::Ok {
                        return Some(o);
                    }
                    self.m[a].remove(&k);
                    self.expect(&o, &[1], &[id], f);
                    self.hand.push(id);
                    if l().viol.is_some() {
                        return Some(o);
                    }
                    let at = self.hand.len() - 1;
                    let _ = self.rig.call(&Call::new(F::HandToArg, 0, 0).x(at));
                    self.hand.pop();
                    let o = self.exec(&Call::new(F::Insert, b, a).x(to), &quiet);
                    if self.verdict(&o, true, f) == V::Ok {
                        if let Some(old) = self.m[b].insert(to, id) {
                            self.expect(&o, &[1], &[old], f);
                            self.hand.push(old)
                        } else {
                            self.expect(&o, &[0], &[], f)
                        }
                    }
                    last = Some(o);
                }
                last
            }
            _ => None,
        }
    }
    fn flight_recover(&mut self, k: usize, got: Vec<u32>, o: Out) -> Option<Out> {
        // Stop using this iterator: forget what is left of it.
        let fm = self.fl.remove(k);
        self.hand.extend(&o.gave);
        let _ = got;
        let _ = self.rig.call(&Call::new(F::FlightEnd, 0, 0).x(k).y(0));
        let _ = fm;
        self.totals("after an interrupted step");
        Some(o)
    }
    fn wk(&self, op: &Op) -> (u64, usize, usize) {
        (mix(op.x as u64) , op.x as usize % (self.info.cap.min(24) + 3), op.y as usize % 7)
    }
    fn walked(&mut self, o: &Out, want: &[i64], how: usize, f: F) {
        if l().viol.is_some() {
            return;
        }
        if how % SP_ENDS == END_PANIC {
            l().count_fault(F_BODY);
        }
        if o.n != want {
            l().violation("answer", format!("{:?} ended by {} saw {:?}, expected {:?}", f, how % SP_ENDS, o.n, want));
        }
    }
    fn copied(&mut self, a: usize, b: usize, o: &Out, f: F) {
        if l().viol.is_some() {
            return;
        }
        let src: Vec<(usize, u32)> = self.m[a].iter().map(|(k, v)| (*k, *v)).collect();
        if !self.info.tracked || self.info.zst {
            if !self.info.dup && o.clones.len() != src.len() {
                l().violation("clones", format!("{:?}: {} clone calls for {} elements", f, o.clones.len(), src.len()));
            }
            self.m[b] = self.m[a].clone();
            return;
        }
        let by: HashMap<u32, u32> = o.clones.iter().map(|c| (l().slots[*c as usize].parent, *c)).collect();
        if o.clones.len() != src.len() || by.len() != src.len() || !src.iter().all(|(_, id)| by.contains_key(id)) {
            l().violation("clones", format!("{:?}: clones {:?} of {:?}", f, o.clones, src));
            return;
        }
        self.m[b] = src.iter().map(|(k, id)| (*k, by[id])).collect();
    }
    fn sub(&mut self, f: F, a: usize, x: usize, ok: bool) -> Option<Out> {
        let op = Op::default();
        let o = self.exec(&Call::new(f, a, (a + 1) % SITES).x(x), &op);
        if self.verdict(&o, ok, f) == V::Ok || !ok {
            Some(o)
        } else {
            None
        }
    }
    fn put(&mut self, a: usize, i: usize, v: i32) -> bool {
        let id = match self.rig.call(&Call::new(F::Mint, 0, 0).x(v as usize)) {
            Ok(r) => r.ids[0],
            Err(_) => return false,
        };
        match self.sub(F::Insert, a, i, true) {
            Some(o) => {
                match self.m[a].insert(i, id) {
                    Some(old) => {
                        self.expect(&o, &[1], &[old], F::Insert);
                        self.hand.push(old)
                    }
                    None => self.expect(&o, &[0], &[], F::Insert),
                }
                l().viol.is_none()
            }
            None => false,
        }
    }
    fn shed(&mut self) {
        while self.hand.len() > 6 && l().viol.is_none() {
            self.hand.remove(0);
            self.sub(F::HandDrop, 0, 0, true);
        }
    }
    fn fill(&mut self, op: &Op, a: usize) {
        let cap = self.info.cap;
        let keep = op.x as usize % 4;
        for i in 0..cap {
            if keep != 0 && mix(op.y as u64 ^ i as u64) % 4 < keep as u64 {
                continue;
            }
            if !self.m[a].contains_key(&i) && !self.put(a, i, (mix(op.z as u64 + i as u64) % VALS as u64) as i32) {
                return;
            }
        }
    }
    /// Faults have stopped: every free index takes an element, then everything comes back in order.
    fn heal(&mut self, op: &Op, a: usize) {
        l().probe("sparse_heal");
        let cap = self.info.cap;
        let mut free: Vec<usize> = (0..cap).filter(|i| !self.m[a].contains_key(i)).collect();
        match op.x % 3 {
            1 => free.reverse(),
            2 => free.sort_by_key(|i| mix(op.y as u64 ^ *i as u64)),
            _ => {}
        }
        for i in free {
            if !self.put(a, i, (i % VALS as usize) as i32) {
                return;
            }
        }
        self.check(a, true);
        for bad in [cap, cap + 1 + op.z as usize, usize::MAX] {
            if l().viol.is_some() {
                return;
            }
            let _ = self.rig.call(&Call::new(F::Mint, 0, 0).x(0));
            self.sub(F::Insert, a, bad, false);
            self.sub(F::Remove, a, bad, false);
        }
        self.check(a, false);
        let want: Vec<u32> = self.m[a].values().copied().collect();
        for id in want {
            if l().viol.is_some() {
                return;
            }
            match self.sub(F::Pop, a, 0, true) {
                Some(o) => self.expect(&o, &[1], &[id], F::Pop),
                None => return,
            }
            let k = *self.m[a].keys().next().unwrap();
            self.m[a].remove(&k);
            self.hand.push(id);
        }
        if let Some(o) = self.sub(F::Pop, a, 0, true) {
            self.expect(&o, &[0], &[], F::Pop)
        }
        self.check(a, true);
        self.shed();
    }
    /// Build the same contents another way; the two must be indistinguishable.
    fn twin(&mut self, op: &Op, a: usize, b: usize) {
        l().probe("sparse_twin");
        let cap = self.info.cap;
        self.reset(b, op.x as usize);
        let want = self.vals(a);
        let mut keys: Vec<usize> = want.keys().copied().collect();
        keys.sort_by_key(|i| mix(op.y as u64 ^ *i as u64));
        // junk first
        let junk: Vec<usize> = (0..op.x as usize % 5).map(|i| mix(op.z as u64 + i as u64) as usize % cap).collect();
        for j in &junk {
            if !self.put(b, *j, 5) {
                return;
            }
        }
        for k in &keys {
            if !self.put(b, *k, want[k]) {
                return;
            }
        }
        for j in junk {
            if !want.contains_key(&j) && self.m[b].contains_key(&j) {
                let id = self.m[b].remove(&j).unwrap();
                match self.sub(F::Remove, b, j, true) {
                    Some(o) => self.expect(&o, &[1], &[id], F::Remove),
                    None => return,
                }
                self.hand.push(id);
            }
        }
        self.check(b, true);
        for round in 0..4 {
            if l().viol.is_some() {
                return;
            }
            let op0 = Op::default();
            let o = self.exec(&Call::new(F::Eq, a, b), &op0);
            if self.verdict(&o, true, F::Eq) == V::Ok {
                self.expect(&o, &[1, 1, 1], &[], F::Eq)
            }
            let p = self.exec(&Call::new(F::Dbg, a, b), &op0);
            let q = self.exec(&Call::new(F::Dbg, b, a), &op0);
            if l().viol.is_none() && p.n != q.n {
                l().violation("twin", "equal containers print differently".into());
            }
            // the same request to both
            let h = mix(op.z as u64 ^ (round as u64) << 40);
            let i = (h >> 16) as usize % cap;
            match h % 3 {
                0 => {
                    let v = (h >> 32) as i32 & 7;
                    self.put(a, i, v);
                    self.put(b, i, v);
                }
                1 => {
                    for s in [a, b] {
                        if let Some(o) = self.sub(F::Remove, s, i, true) {
                            match self.m[s].remove(&i) {
                                Some(id) => {
                                    self.expect(&o, &[1], &[id], F::Remove);
                                    self.hand.push(id)
                                }
                                None => self.expect(&o, &[0], &[], F::Remove),
                            }
                        }
                    }
                }
                _ => {
                    for s in [a, b] {
                        if let Some(o) = self.sub(F::Pop, s, 0, true) {
                            match self.m[s].keys().next().copied() {
                                Some(k) => {
                                    let id = self.m[s].remove(&k).unwrap();
                                    self.expect(&o, &[1], &[id], F::Pop);
                                    self.hand.push(id)
                                }
                                None => self.expect(&o, &[0], &[], F::Pop),
                            }
                        }
                    }
                }
            }
            if l().viol.is_none() && self.vals(a) != self.vals(b) {
                l().violation("twin", "the same request on equal containers had different results".into());
            }
        }
        self.shed();
    }
}

// ---------------------------------------------------------------- case generation
const BASE: &[(F, u32)] = &[
    (F::Insert, 20), (F::Remove, 10), (F::Pop, 6), (F::Get, 3), (F::GetSet, 4), (F::Index, 3), (F::IndexSet, 4), (F::Iter, 3),
    (F::IterMut, 4), (F::Entries, 3), (F::OptIter, 3), (F::OptIterMut, 3), (F::Drain, 6), (F::OptDrain, 6), (F::Flight, 4),
    (F::FlightOpt, 4), (F::FlightStep, 6), (F::FlightEnd, 4), (F::FromIter, 6), (F::CloneTo, 4), (F::CloneFrom, 3),
    (F::PoolClone, 3), (F::Eq, 4), (F::EqTree, 4), (F::EqHash, 4), (F::Dbg, 2), (F::Unit, 2), (F::Pair, 2), (F::MoveSite, 2),
    (F::DropSite, 3), (F::ForgetSite, 1), (F::HandDrop, 4), (F::Transfer, 2), (F::Fill, 4),
];
fn boost(prop: &str) -> (&'static [F], u32) {
    use F::*;
    match prop {
        "C03" => (&[Insert, Remove, Get, Index, IndexSet, FromIter, Unit, Pair], 5),
        "C08" => (&[Iter, IterMut, OptIter, OptIterMut, Entries, Drain, OptDrain, Flight, FlightOpt, FlightStep, FlightEnd], 6),
        "C10" => (&[CloneTo, CloneFrom, PoolClone], 10),
        "C11" => (&[DropSite, FlightEnd, FlightStep, Drain, OptDrain, CloneFrom, IndexSet, HandDrop], 8),
        "C12" => (&[Eq, EqTree, EqHash, Dbg], 12),
        _ => (&[], 1),
    }
}
fn faults(f: F) -> &'static [u8] {
    use F::*;
    match f {
        DropSite | FlightEnd | HandDrop | IndexSet | FlightStep | Drain | OptDrain => &[F_DROP],
        CloneTo | PoolClone => &[F_CLONE],
        CloneFrom => &[F_CLONE, F_CLONE, F_DROP],
        Eq | EqTree | EqHash => &[F_EQ],
        Dbg => &[F_FMT],
        FromIter => &[F_NEXT, F_NEXT, F_INTO],
        _ => &[],
    }
}
pub fn generate(prop: &str, seed: u64, index: u64, cfgs: &[Cfg]) -> Case {
    let stream = 0x59a ^ prop.bytes().fold(0u64, |h, b| h.wrapping_mul(131) + b as u64);
    let mut r = Rng::new(seed, stream, index);
    let w: Vec<u32> = cfgs.iter().map(|c| c.weight).collect();
    let config = r.weighted(&w);
    let cap = cfgs[config].cap;
    let (boosted, by) = boost(prop);
    let keep = 400 + r.below(600);
    let mut table: Vec<(u8, u32)> = vec![];
    for (f, w) in BASE {
        let b = boosted.contains(f);
        if *f != F::Insert && !r.chance(if b { keep.max(700) } else { keep }) {
            continue;
        }
        let w = w * if b { by } else { 1 };
        table.push((*f as u8, 1 + w * (4 + r.below(12) as u32)));
    }
    let sum: u32 = table.iter().map(|t| t.1).sum();
    let sp = |x: u32| (sum as u64 * x as u64 / 1000) as u32 + 1;
    let small = cap <= 20;
    table.push((F::Heal as u8, sp(if prop == "C15" { if small { 60 } else { 10 } } else { 4 })));
    table.push((F::Twin as u8, sp(if prop == "C18" { 250 } else { 8 })));
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let fault_free = r.chance(if matches!(prop, "C11" | "C10") { 100 } else { 300 });
    let frate = if fault_free { 0 } else { [150, 350, 600, 850][r.below(4) as usize] };
    let wild = [0, 30, 120, 300][r.below(4) as usize] + if prop == "C03" { 150 } else { 0 };
    let mut enabled = [true; 16];
    for e in enabled.iter_mut() {
        *e = r.chance(750);
    }
    enabled[F_DROP as usize] |= prop == "C11";
    enabled[F_CLONE as usize] |= prop == "C10";
    let span = [10, 30, 50, 80][r.below(4) as usize];
    let nops = 4 + r.below(span) as usize;
    let nsites = if r.chance(400) { 2 } else { 3 };
    let mut ops: Vec<Op> = vec![];
    for _ in 0..nops {
        let code = table[r.weighted(&weights)].0;
        let a = r.below(nsites) as u8;
        let x = if r.chance(wild) { WILD + r.below(12) as u16 } else { r.below(59_900) as u16 };
        let mut op = Op {
            code,
            a,
            b: if nsites == 2 { a } else { r.below(2) as u8 },
            x,
            y: r.below(30_000) as u16,
            z: r.below(30_000) as u16,
            fk: 0,
            fnth: 0,
        };
        if r.chance(frate) {
            let fs: Vec<u8> = faults(ALL[code as usize]).iter().copied().filter(|k| enabled[*k as usize & 15]).collect();
            if !fs.is_empty() {
                op.fk = *r.pick(&fs);
                op.fnth = match r.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => r.below(4),
                    _ => r.below(cap.min(40) as u64 + 2),
                } as u8;
            }
        }
        ops.push(op);
    }
    let heal = if prop == "C15" { 1000 } else if small { 250 } else { 40 };
    if r.chance(heal) {
        ops.push(Op { code: F::Heal as u8, a: r.below(nsites) as u8, b: 0, x: r.below(64) as u16, y: r.below(64) as u16, z: r.below(4096) as u16, fk: 0, fnth: 0 });
    }
    Case { prop: prop.into(), engine: "sparse".into(), config, seed, index, ops }
}
