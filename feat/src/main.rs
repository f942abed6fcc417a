//! One seeded simulation of the library's common API, built once per feature selection. It has no
//! model of its own: it prints what every call did, and `feat.py` compares the histories of the
//! builds. The same seed is the same schedule of operations and faults in every build.
#![allow(clippy::all, unused)]

use std::cmp::Ordering;
use std::ops::Bound;
use std::fmt::{self, Debug, Write as _};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

#[cfg(feature = "ringbuffer")]
use array_ops::{Array, ArrayMut, HasLength};
#[cfg(feature = "ringbuffer")]
use sized_chunks::ring_buffer::{Slice, SliceMut};
#[cfg(feature = "ringbuffer")]
use sized_chunks::RingBuffer;
use sized_chunks::{Chunk, InlineArray, SparseChunk};

// ------------------------------------------------------------------ the world outside
struct World {
    live: i64,
    fault: u8,
    left: u32,
    calls: [u64; 7],
    fired: [u64; 7],
}
static mut W: World = World { live: 0, fault: 0, left: 0, calls: [0; 7], fired: [0; 7] };
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { &mut W }
}
const DROP: u8 = 1;
const CLONE: u8 = 2;
const CMP: u8 = 3;
const EQ: u8 = 4;
const HASH: u8 = 5;
const NEXT: u8 = 6;
const KINDS: [&str; 7] = ["none", "drop", "clone", "cmp", "eq", "hash", "next"];

struct Injected;
fn tick(kind: u8) {
    let w = w();
    w.calls[kind as usize] += 1;
    if w.fault != kind || std::thread::panicking() {
        return;
    }
    if w.left > 0 {
        w.left -= 1;
        return;
    }
    w.fault = 0;
    w.fired[kind as usize] += 1;
    panic_any(Injected)
}

/// An element: a boxed number, counted while it is alive.
struct T(Box<i32>);
fn t(v: i32) -> T {
    w().live += 1;
    T(Box::new(v))
}
impl T {
    fn v(&self) -> i64 {
        *self.0 as i64
    }
}
impl Drop for T {
    fn drop(&mut self) {
        w().live -= 1;
        tick(DROP)
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        tick(CLONE);
        t(*self.0)
    }
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        tick(EQ);
        self.0 == o.0
    }
}
impl Eq for T {}
impl PartialOrd for T {
    fn partial_cmp(&self, o: &T) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for T {
    fn cmp(&self, o: &T) -> Ordering {
        tick(CMP);
        self.0.cmp(&o.0)
    }
}
impl Hash for T {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick(HASH);
        self.0.hash(h)
    }
}
impl Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// A source of elements which may announce a wrong number of them, or panic.
struct Source {
    next: i32,
    left: usize,
    said: usize,
}
impl Iterator for Source {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick(NEXT);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.said = self.said.saturating_sub(1);
        self.next += 1;
        Some(t(self.next))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.said, Some(self.said))
    }
}
impl ExactSizeIterator for Source {}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for b in b {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn hash_of<H: Hash + ?Sized>(h: &H) -> i64 {
    let mut f = Fnv(0xcbf29ce484222325);
    h.hash(&mut f);
    f.0 as i64
}

// ------------------------------------------------------------------ histories
struct Log {
    h: u64,
    trace: bool,
    at: usize,
    calls: u64,
    refused: u64,
    broken: u64,
}
impl Log {
    fn ev(&mut self, what: &str, v: &[i64]) {
        let mut f = Fnv(self.h);
        f.write(what.as_bytes());
        for x in v {
            f.write(&x.to_le_bytes());
        }
        self.h = f.0;
        if self.trace {
            println!("{} {} {:?}", self.at, what, v);
        }
    }
    /// One call into the library, with the fault of `op` armed.
    fn call(&mut self, op: &Op, f: impl FnOnce() -> Vec<i64>) {
        self.calls += 1;
        w().fault = op.fk;
        w().left = op.fnth as u32;
        let r = catch_unwind(AssertUnwindSafe(f));
        w().fault = 0;
        match r {
            Ok(v) => self.ev("answers", &v),
            Err(p) if p.is::<Injected>() => {
                self.broken += 1;
                self.ev("interrupted", &[])
            }
            Err(_) => {
                self.refused += 1;
                self.ev("refuses", &[])
            }
        }
    }
}

#[derive(Clone, Copy)]
struct Op {
    c: u8,
    a: u8,
    b: u8,
    x: u16,
    y: u16,
    fk: u8,
    fnth: u8,
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
struct Case {
    section: usize,
    ops: Vec<Op>,
}
fn generate(seed: u64, index: u64) -> Case {
    let mut r = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ index.wrapping_mul(0xd1342543de82ef95) ^ 0x5eed);
    r.next();
    let section = (r.next() % SECTIONS.len() as u64) as usize;
    let n = 6 + r.next() % 42;
    let faults = r.next() % 4;
    let grow = r.next() % 3;
    let ops = (0..n)
        .map(|k| {
            let z = r.next();
            let q = r.next();
            let faulty = faults > 0 && q % 8 < faults;
            let mut c = (z & 0xff) as u8;
            if grow > 0 && k < n / 3 && q >> 40 & 1 == 0 {
                c = if grow == 1 { 0 } else { 22 };
            }
            Op {
                c,
                a: (z >> 8) as u8,
                b: (z >> 16) as u8,
                x: (z >> 24) as u16,
                y: (z >> 40) as u16,
                fk: if faulty { 1 + (q >> 8) as u8 % 6 } else { 0 },
                fnth: if faulty { (q >> 16) as u8 % [1, 3, 9, 30][(q >> 30) as usize % 4] } else { 0 },
            }
        })
        .collect();
    Case { section, ops }
}

fn walk<I: DoubleEndedIterator>(it: &mut I, pat: u16, steps: usize, mut f: impl FnMut(I::Item) -> i64) -> Vec<i64> {
    let mut out = vec![];
    for k in 0..steps {
        let step = pat.rotate_right(k as u32) & 7;
        let got = match step {
            0 | 1 | 2 => it.next(),
            3 | 4 => it.next_back(),
            5 => it.nth(pat as usize % 3),
            6 => it.nth_back(pat as usize % 2),
            _ => {
                let h = it.size_hint();
                out.push(h.0 as i64);
                out.push(h.1.map(|h| h as i64).unwrap_or(-9));
                continue;
            }
        };
        out.push(got.map(&mut f).unwrap_or(-1));
    }
    out
}

// ------------------------------------------------------------------ sections
macro_rules! deque {
    ($name:ident, $C:ident, $pf:expr, $pb:expr, $sort:expr, $more:expr) => {
        fn $name<const N: usize>(ops: &[Op], log: &mut Log) {
            type C<const N: usize> = $C<T, N>;
            let mut s: Vec<C<N>> = (0..3).map(|_| C::new()).collect();
            let mut v = 0;
            for (k, op) in ops.iter().enumerate() {
                log.at = k;
                let a = op.a as usize % 3;
                let mut b = (a + 1 + op.b as usize % 2) % 3;
                let la = s[a].len();
                let x = op.x as usize % (la + 1 + (op.y as usize % 7 == 0) as usize * 3);
                v += 1;
                let mut other = std::mem::replace(&mut s[b], C::new());
                let c = &mut s[a];
                let pf: fn(&mut C<N>) -> Option<T> = $pf;
                let pb: fn(&mut C<N>) -> Option<T> = $pb;
                let o = &mut other;
                let val = 10 * v + (op.y % 5) as i32;
                let small = (op.y % 6) as i32;
                let lie = match op.x % 9 { 0 => 1, 1 => -1, 2 => 100, _ => 0i64 };
                let cnt = op.y as usize % 6;
                let said = (cnt as i64 + lie).max(0) as usize;
                log.call(op, || match op.c % 40 {
                    0 => { c.push_back(t(val)); vec![] }
                    1 => { c.push_front(t(val)); vec![] }
                    2 => pb(c).map(|e| vec![e.v()]).unwrap_or(vec![-1]),
                    3 => pf(c).map(|e| vec![e.v()]).unwrap_or(vec![-1]),
                    4 => { c.insert(x, t(val)); vec![] }
                    5 => { let e = c.remove(x); vec![e.v()] }
                    6 => { c.insert_from(x, Source { next: val, left: cnt, said }); vec![] }
                    7 => { c.insert_ordered(t(small)); vec![] }
                    8 => { *o = c.split_off(x); vec![] }
                    9 => { c.append(o); vec![] }
                    10 => { c.drain_from_front(o, x); vec![] }
                    11 => { c.drain_from_back(o, x); vec![] }
                    12 => { *o = C::from_front(c, x); vec![] }
                    13 => { *o = C::from_back(c, x); vec![] }
                    14 => { *o = C::drain_from(c); vec![] }
                    15 => {
                        let mut src = Source { next: val, left: cnt, said: cnt };
                        *o = C::collect_from(&mut src, x % 5);
                        vec![src.left as i64]
                    }
                    16 => { c.drop_left(x); vec![] }
                    17 => { c.drop_right(x); vec![] }
                    18 => { c.clear(); vec![] }
                    19 => walk(&mut c.drain(), op.y, op.x as usize % 6, |e| e.v()),
                    20 => walk(&mut std::mem::replace(c, C::new()).into_iter(), op.y, op.x as usize % 6, |e| e.v()),
                    21 => { *o = c.clone(); vec![] }
                    22 => { c.extend(Source { next: val, left: cnt, said }); vec![] }
                    23 => vec![
                        (c == o) as i64, (o == c) as i64, c.cmp(&o) as i64, c.partial_cmp(&o).map(|o| o as i64).unwrap_or(9),
                        hash_of(c), hash_of(o), hash_of(&format!("{:?} {:#?}", c, o)),
                    ],
                    24 => {
                        let mut out = walk(&mut c.iter(), op.y, op.x as usize % 9, |e| e.v());
                        out.push(c[x].v());
                        out
                    }
                    25 => { let f: fn(&mut C<N>) = $sort; f(c); vec![] }
                    26 => { c[x] = t(val); vec![] }
                    27 => { *o = Source { next: small, left: cnt, said }.collect(); vec![] }
                    28 => { o.clone_from(c); vec![] }
                    29 => { *o = if op.x % 2 == 0 { C::unit(t(val)) } else { C::pair(t(val), t(small)) }; vec![] }
                    30 => walk(&mut c.iter_mut(), op.y, op.x as usize % 9, |e| { *e.0 += 1; e.v() }),
                    31 => { *o = C::default(); vec![c.is_empty() as i64, c.is_full() as i64, C::<N>::CAPACITY as i64] }
                    32 => { let e = c.set(x, t(val)).into(); held(e) }
                    33 => vec![c.get(x).map(|e| e.v()).unwrap_or(-1), c.get_mut(x).map(|e| { *e.0 += 1; e.v() }).unwrap_or(-1)],
                    34 => vec![c.first().map(|e| e.v()).unwrap_or(-1), c.last().map(|e| e.v()).unwrap_or(-1)],
                    35 => {
                        let mut out = vec![];
                        for e in &*c { out.push(e.v()) }
                        for e in &mut *c { *e.0 += 1 }
                        out
                    }
                    36 => {
                        let v: Vec<T> = o.iter().map(|e| t(*e.0)).collect();
                        vec![(*c == v) as i64, (*o == v) as i64]
                    }
                    37 => { std::mem::forget(c.drain()); vec![c.len() as i64] }
                    38 => c.binary_search(&t(small)).map(|i| vec![i as i64]).unwrap_or_else(|i| vec![-1 - i as i64]),
                    _ => { let f: fn(&mut C<N>, &C<N>, usize) -> Vec<i64> = $more; f(c, o, x) }
                });
                s[b] = other;
                for c in &s {
                    let all: Vec<i64> = c.iter().map(|e| e.v()).collect();
                    log.ev("holds", &all);
                    log.ev("size", &[c.len() as i64, c.is_full() as i64, w().live]);
                }
            }
        }
    };
}
deque!(chunk, Chunk, |c| if c.is_empty() { None } else { Some(c.pop_front()) }, |c| if c.is_empty() { None } else { Some(c.pop_back()) }, |c| c.sort_unstable(), |c, o, x| {
    let a: &[T] = c.as_ref();
    let b: &[T] = std::borrow::Borrow::borrow(o);
    let mut out = vec![(a == b) as i64, hash_of(a)];
    let m: &mut [T] = std::borrow::BorrowMut::borrow_mut(c);
    m.reverse();
    let m: &mut [T] = c.as_mut();
    m.swap(0, x);
    out.push(c.as_slice().len() as i64);
    out.push(c.as_mut_slice()[x..].len() as i64);
    out
});
#[cfg(feature = "ringbuffer")]
deque!(ring, RingBuffer, |c| c.pop_front(), |c| c.pop_back(), |c| ArrayMut::sort_unstable(c), |c, o, x| {
    if x >= c.len() {
        return vec![-1];
    }
    c.swap(0, x);
    unsafe { *c.get_unchecked_mut(x).0 += 1 };
    vec![(*c == o.slice(..)) as i64, (c.slice(..) == *o) as i64, unsafe { c.get_unchecked(x) }.v()]
});
/// what `set` hands back (always something for a Chunk, perhaps nothing for a RingBuffer)
fn held(e: Option<T>) -> Vec<i64> {
    vec![e.map(|e| e.v()).unwrap_or(-1)]
}

/// Plain elements: bulk copies by reference, and elements without a size.
macro_rules! plain {
    ($name:ident, $C:ty, $z:ty, |$c:ident, $x:ident| $push:expr, $zpush:expr) => {
        fn $name(ops: &[Op], log: &mut Log) {
            let mut s: Vec<$C> = (0..2).map(|_| <$C>::default()).collect();
            let mut z: $z = <$z>::default();
            for (k, op) in ops.iter().enumerate() {
                log.at = k;
                let a = op.a as usize % 2;
                let list: Vec<u16> = (0..op.y % 9).map(|k| op.x.wrapping_add(k)).collect();
                let other: Vec<u16> = s[1 - a].iter().cloned().collect();
                let ($c, $x) = (&mut s[a], op.x);
                let z = &mut z;
                log.call(op, || match op.c % 8 {
                    0 => { $push; vec![] }
                    1 => { $c.extend(list.iter()); vec![] }
                    2 => { $c.extend(other.iter().take(3)); vec![] }
                    3 => $c.drain().map(|e| e as i64).take(list.len()).collect(),
                    4 => vec![(*$c == list) as i64, (*$c == other) as i64, hash_of(&*$c), $c.is_full() as i64],
                    5 => { let f: fn(&mut $z) = $zpush; f(z); vec![z.len() as i64, z.is_full() as i64] }
                    6 => vec![z.iter().count() as i64, z.drain().take(op.y as usize % 4).count() as i64, z.len() as i64],
                    _ => { $c.clear(); vec![$c.clone().len() as i64, hash_of(&format!("{:?}", z))] }
                });
                for c in &s {
                    let all: Vec<i64> = c.iter().map(|e| *e as i64).collect();
                    log.ev("holds", &all);
                }
                log.ev("size", &[z.len() as i64]);
            }
        }
    };
}
plain!(plain_chunk, Chunk<u16, 11>, Chunk<(), 5>, |c, x| c.push_front(x), |z| z.push_back(()));
plain!(plain_inline, InlineArray<u16, [u64; 4]>, InlineArray<(), [u64; 2]>, |c, x| c.insert(x as usize % (c.len() + 1), x), |z| z.push(()));
#[cfg(feature = "ringbuffer")]
plain!(plain_ring, RingBuffer<u16, 11>, RingBuffer<(), 5>, |c, x| c.push_front(x), |z| z.push_back(()));

fn inline<H>(ops: &[Op], log: &mut Log) {
    type I<H> = InlineArray<T, H>;
    let mut s: Vec<I<H>> = (0..3).map(|_| I::new()).collect();
    let mut v = 0;
    for (k, op) in ops.iter().enumerate() {
        log.at = k;
        let a = op.a as usize % 3;
        let b = (a + 1 + op.b as usize % 2) % 3;
        let la = s[a].len();
        let x = op.x as usize % (la + 1 + (op.y as usize % 7 == 0) as usize * 3);
        v += 1;
        let val = 10 * v + (op.y % 5) as i32;
        let cnt = op.y as usize % 4;
        let mut other = std::mem::replace(&mut s[b], I::new());
        let (c, o) = (&mut s[a], &mut other);
        log.call(op, || match op.c % 20 {
            0 | 1 => { c.push(t(val)); vec![] }
            2 => c.pop().map(|e| vec![e.v()]).unwrap_or(vec![-1]),
            3 => { c.insert(x, t(val)); vec![] }
            4 => c.remove(x).map(|e| vec![e.v()]).unwrap_or(vec![-1]),
            5 => { *o = c.split_off(x); vec![] }
            6 => { c.extend(Source { next: val, left: cnt, said: cnt }); vec![] }
            7 => { c.clear(); vec![] }
            8 => walk(&mut c.drain(), op.y, op.x as usize % 6, |e| e.v()),
            9 => walk(&mut std::mem::replace(c, I::new()).into_iter(), op.y, op.x as usize % 6, |e| e.v()),
            10 => { *o = c.clone(); vec![] }
            11 => vec![
                (c == o) as i64, c.cmp(&o) as i64, hash_of(c), hash_of(o), hash_of(&format!("{:?} {:#?}", c, o)),
            ],
            12 => { c.sort_unstable(); vec![] }
            13 => { *o = Source { next: val, left: cnt, said: cnt }.collect(); vec![] }
            14 => {
                let mut chunk: Chunk<T, 4> = if op.x % 2 == 0 { Chunk::from(&mut *c) } else { Chunk::from(std::mem::replace(c, I::new())) };
                let mut out: Vec<i64> = chunk.iter().map(|e| e.v()).collect();
                while !chunk.is_empty() {
                    o.push(chunk.pop_front())
                }
                out
            }
            15 => { c[x] = t(val); vec![c.is_full() as i64, I::<H>::CAPACITY as i64] }
            16 => {
                let mut out = vec![c.partial_cmp(&o).map(|o| o as i64).unwrap_or(9)];
                for e in &*c { out.push(e.v()) }
                for e in &mut *c { *e.0 += 1 }
                out
            }
            17 => {
                let a: &[T] = (*c).as_ref();
                let b: &[T] = std::borrow::Borrow::borrow(&*o);
                let mut out = vec![(a == b) as i64, hash_of(a)];
                let m: &mut [T] = std::borrow::BorrowMut::borrow_mut(c);
                m.reverse();
                let m: &mut [T] = c.as_mut();
                m.swap(0, x);
                out
            }
            18 => { std::mem::forget(c.drain()); *o = I::default(); vec![c.len() as i64, o.is_empty() as i64] }
            _ => {
                let v: Vec<T> = o.iter().map(|e| t(*e.0)).collect();
                vec![(*c == v) as i64, (*o == v) as i64]
            }
        });
        s[b] = other;
        for c in &s {
            let all: Vec<i64> = c.iter().map(|e| e.v()).collect();
            log.ev("holds", &all);
            log.ev("size", &[c.len() as i64, c.is_full() as i64, w().live]);
        }
    }
}

macro_rules! sparse {
    ($name:ident, $n:expr) => {
        fn $name(ops: &[Op], log: &mut Log) {
            const N: usize = $n;
            type S = SparseChunk<T, N>;
            let mut s: Vec<S> = (0..3).map(|_| S::new()).collect();
            let mut v = 0;
            for (k, op) in ops.iter().enumerate() {
                log.at = k;
                let a = op.a as usize % 3;
                let b = (a + 1 + op.b as usize % 2) % 3;
                let x = op.x as usize % (N + (op.y % 9 == 0) as usize * 3);
                let y = op.y as usize % N;
                v += 1;
                let val = 10 * v;
                let mut other = std::mem::replace(&mut s[b], S::new());
                let (c, o) = (&mut s[a], &mut other);
                let opt = |e: Option<T>| e.map(|e| vec![e.v()]).unwrap_or(vec![-1]);
                log.call(op, || match op.c % 24 {
                    0 | 1 | 2 => opt(c.insert(x, t(val))),
                    3 | 4 => opt(c.remove(x)),
                    5 => opt(c.pop()),
                    6 => vec![c.get(x).map(|e| e.v()).unwrap_or(-1), c[y].v()],
                    7 => vec![c.get_mut(x).map(|e| { *e.0 += 1; e.v() }).unwrap_or(-1)],
                    8 => c.iter().map(|e| e.v()).take(y).collect(),
                    9 => c.iter_mut().map(|e| { *e.0 += 1; e.v() }).take(y).collect(),
                    10 => c.entries().flat_map(|(i, e)| [i as i64, e.v()]).collect(),
                    11 => c.option_iter().map(|e| e.map(|e| e.v()).unwrap_or(-1)).collect(),
                    12 => c.option_iter_mut().map(|e| e.map(|e| e.v()).unwrap_or(-1)).take(y).collect(),
                    13 => {
                        let mut it = std::mem::replace(c, S::new()).drain();
                        let mut out: Vec<i64> = it.by_ref().take(y % 5).map(|e| e.v()).collect();
                        out.push(it.size_hint().0 as i64);
                        out
                    }
                    14 => std::mem::replace(c, S::new()).option_drain().take(y).map(|e| e.map(|e| e.v()).unwrap_or(-1)).collect(),
                    15 => { *o = c.clone(); vec![] }
                    16 => vec![(c == o) as i64, (o == c) as i64, hash_of(&format!("{:?} {:#?}", c, o))],
                    17 => {
                        let pat = op.x;
                        *o = Source { next: val, left: y, said: y }.enumerate().map(|(i, e)| if pat >> (i % 16) & 1 == 1 { Some(e) } else { None }).collect();
                        vec![]
                    }
                    18 => { *o = if op.y % 2 == 0 { S::unit(x, t(val)) } else { S::pair(x, t(val), y, t(val + 1)) }; vec![] }
                    19 => {
                        *o = S::default();
                        let mut out = vec![];
                        for e in std::mem::replace(c, S::new()) { out.push(e.v()) }
                        out
                    }
                    20 => {
                        let mut it = c.option_iter();
                        let mut out: Vec<i64> = it.by_ref().skip(y / 2).take(3).map(|e| e.map(|e| e.v()).unwrap_or(-2)).collect();
                        out.push(it.size_hint().0 as i64);
                        out
                    }
                    21 => c.entries().skip(y).map(|(i, e)| e.v() * 1000 + i as i64).collect(),
                    22 => c.indices().skip(y % 4).step_by(2).map(|i| i as i64).collect(),
                    _ => {
                        c[x] = t(val);
                        vec![c.first_index().map(|i| i as i64).unwrap_or(-1), c.is_empty() as i64, c.is_full() as i64]
                    }
                });
                s[b] = other;
                for c in &s {
                    let all: Vec<i64> = c.indices().flat_map(|i| [i as i64, c.get(i).map(|e| e.v()).unwrap_or(-7)]).collect();
                    log.ev("holds", &all);
                    log.ev("size", &[c.len() as i64, c.is_full() as i64, w().live]);
                }
            }
        }
    };
}
sparse!(sparse16, 16);
sparse!(sparse100, 100);

#[cfg(feature = "ringbuffer")]
fn views<const N: usize>(ops: &[Op], log: &mut Log) {
    let mut r: RingBuffer<T, N> = RingBuffer::new();
    let mut v = 0;
    for (k, op) in ops.iter().enumerate() {
        log.at = k;
        v += 1;
        let val = 3 * v % 40;
        let la = r.len();
        let x = op.x as usize % (la + 1);
        let y = x + op.y as usize % (la + 1 - x + (op.b % 8 == 0) as usize * 3);
        let z = op.b as usize % (y - x + 2);
        let c = &mut r;
        log.call(op, || match op.c % 32 {
            0 | 1 => { c.push_back(t(val)); vec![] }
            2 => { c.push_front(t(val)); vec![] }
            3 => c.pop_front().map(|e| vec![e.v()]).unwrap_or_default(),
            4 => walk(&mut c.slice(x..y).iter(), op.y, 7, |e| e.v()),
            5 => walk(&mut c.slice_mut(x..y).iter_mut(), op.y, 7, |e| { *e.0 += 1; e.v() }),
            6 => { c.slice_mut(x..y).sort_unstable(); vec![] }
            7 => {
                let s = c.slice(x..y);
                let (l, r) = s.split_at(z);
                vec![l.len() as i64, r.len() as i64, l.cmp(&r) as i64, (l == r) as i64, hash_of(&l), hash_of(&format!("{:?}{:#?}", l, r))]
            }
            8 => {
                let (mut l, mut r) = c.slice_mut(x..y).split_at(z);
                l[0] = t(val);
                r[0] = t(val + 1);
                vec![]
            }
            9 => vec![c.slice(x..y).binary_search(&t(val)).map(|i| i as i64).unwrap_or_else(|i| -1 - i as i64)],
            10 => { let o = c.slice(x..y).to_owned(); let out = o.iter().map(|e| e.v()).collect(); *c = o; out }
            11 => vec![c.slice(x..=y).slice(z..).len() as i64],
            12 => { c.slice_mut(x..y).swap(0, z); vec![] }
            13 => vec![c.slice(x..y)[z].v(), c.slice(..y).get(x).map(|e| e.v()).unwrap_or(-1)],
            14 => { c.slice_mut(x..y)[z] = t(val); vec![] }
            15 => { for e in &mut c.slice_mut(..) { *e.0 += 1 } vec![] }
            16 => c.slice(x..).into_iter().map(|e| e.v()).collect(),
            17 => { let m = c.slice_mut(x..y); let out: Vec<i64> = (&m).into_iter().map(|e| e.v()).collect(); out }
            18 => {
                let (l, r) = c.slice_mut(x..y).split_at(z);
                vec![
                    (l == r) as i64, l.cmp(&r) as i64, l.partial_cmp(&r).map(|o| o as i64).unwrap_or(9), hash_of(&l), hash_of(&r),
                    hash_of(&format!("{:?}{:#?}", l, r)), l.len() as i64,
                ]
            }
            19 => { let m = c.slice_mut(x..); let o = m.to_owned(); vec![(m == o) as i64, (o == m) as i64, (m == o.slice(..)) as i64, (o.slice(..) == m) as i64] }
            20 => vec![c.slice_mut(x..y).slice(z..)[0].v()],
            21 => vec![c.slice_mut(..).slice(..y).unmut().slice(x..).len() as i64],
            22 => {
                let mut m = c.slice_mut((Bound::Excluded(x), Bound::Included(y)));
                vec![m.len() as i64, m.get(z).map(|e| e.v()).unwrap_or(-1), m.get_mut(z).map(|e| { *e.0 += 1; e.v() }).unwrap_or(-1)]
            }
            23 => vec![c.slice((Bound::Excluded(x), Bound::Unbounded)).slice((Bound::Excluded(z), Bound::Included(y))).len() as i64],
            24 => { let v: Vec<T> = c.iter().map(|e| t(*e.0)).collect(); vec![(c.slice(..) == v) as i64, (c.slice_mut(x..) == v) as i64, (*c == v) as i64] }
            25 => { let s: Slice<T, N> = (&*c).into(); let d = s.clone(); vec![(s == d) as i64, s.partial_cmp(&d).map(|o| o as i64).unwrap_or(9), (s == *c) as i64] }
            26 => { let mut m: SliceMut<T, N> = c.into(); vec![m.set(x, t(val)).is_some() as i64, m.first().map(|e| e.v()).unwrap_or(-1), m.last().map(|e| e.v()).unwrap_or(-1)] }
            27 => { let m: SliceMut<T, N> = c.slice_mut(x..y); let s: Slice<T, N> = m.into(); vec![s.len() as i64, if z < s.len() { unsafe { s.get_unchecked(z) }.v() } else { -1 }] }
            28 => { c.slice_mut(x..).sort_unstable_by(|a, b| b.cmp(a)); vec![] }
            29 => vec![c.slice_mut(x..).binary_search_by(|e| e.0.cmp(&Box::new(val))).map(|i| i as i64).unwrap_or_else(|i| -1 - i as i64)],
            30 => walk(&mut c.slice_mut(..y).iter(), op.x, 6, |e| e.v()),
            _ => { c.extend((0..op.y % 5).map(|k| t(val + k as i32))); vec![] }
        });
        let all: Vec<i64> = r.iter().map(|e| e.v()).collect();
        log.ev("holds", &all);
        log.ev("size", &[r.len() as i64, w().live]);
    }
}

#[cfg(feature = "refpool")]
macro_rules! pooled {
    ($name:ident, $C:ty, $push:expr, $pop:expr) => {
        fn $name(ops: &[Op], log: &mut Log) {
            use refpool::{Pool, PoolRef};
            let pool: Pool<$C> = Pool::new(3);
            let mut s: Vec<PoolRef<$C>> = (0..4).map(|_| PoolRef::default(&pool)).collect();
            let mut v = 0;
            for (k, op) in ops.iter().enumerate() {
                log.at = k;
                let (a, b) = (op.a as usize % 4, op.b as usize % 4);
                v += 1;
                let push: fn(&mut $C, usize, T) = $push;
                let pop: fn(&mut $C) -> Option<T> = $pop;
                let sp = &mut s;
                log.call(op, || match op.c % 10 {
                    0 | 1 | 2 => { push(PoolRef::make_mut(&pool, &mut sp[a]), op.x as usize, t(v)); vec![] }
                    3 => pop(PoolRef::make_mut(&pool, &mut sp[a])).map(|e| vec![e.v()]).unwrap_or_default(),
                    4 => { sp[b] = sp[a].clone(); vec![] }
                    5 => { sp[b] = PoolRef::cloned(&pool, &sp[a]); vec![] }
                    6 => { sp[b] = PoolRef::default(&pool); vec![] }
                    7 => { let c: $C = (*sp[a]).clone(); sp[b] = PoolRef::new(&pool, c); vec![] }
                    8 => vec![(sp[a] == sp[b]) as i64, PoolRef::ptr_eq(&sp[a], &sp[b]) as i64],
                    _ => { pool.fill(); sp[b] = PoolRef::default(&pool); vec![] }
                });
                for c in &s {
                    let all: Vec<i64> = c.iter().map(|e| e.v()).collect();
                    log.ev("holds", &all);
                }
            }
        }
    };
}
#[cfg(feature = "refpool")]
pooled!(pool_chunk, Chunk<T, 6>, |c, i, e| if i % 2 == 0 { c.push_back(e) } else { c.push_front(e) }, |c| if c.is_empty() { None } else { Some(c.pop_front()) });
#[cfg(feature = "refpool")]
pooled!(pool_sparse, SparseChunk<T, 12>, |c, i, e| drop(c.insert(i % 13, e)), |c| c.pop());
#[cfg(all(feature = "refpool", feature = "ringbuffer"))]
pooled!(pool_ring, RingBuffer<T, 6>, |c, i, e| if i % 2 == 0 { c.push_back(e) } else { c.push_front(e) }, |c| c.pop_front());

#[cfg(feature = "arbitrary")]
macro_rules! generated {
    ($name:ident, $($C:ty),*) => {
        fn $name(ops: &[Op], log: &mut Log) {
            use arbitrary::{Arbitrary, Unstructured};
            let mut bytes = vec![];
            for (k, op) in ops.iter().enumerate() {
                log.at = k;
                bytes.extend_from_slice(&[op.c, op.a, op.b]);
                let n = op.x as usize % (bytes.len() + 1);
                let data = &bytes[n..];
                $(
                    log.call(op, || {
                        let mut u = Unstructured::new(data);
                        let r = <$C>::arbitrary(&mut u);
                        vec![hash_of(&format!("{:?}", r)), u.len() as i64]
                    });
                    log.call(op, || vec![hash_of(&format!("{:?}", <$C>::arbitrary_take_rest(Unstructured::new(data))))]);
                    log.call(op, || {
                        let (l, h) = <$C as Arbitrary>::size_hint(0);
                        vec![l as i64, h.map(|h| h as i64).unwrap_or(-1)]
                    });
                )*
            }
        }
    };
}
#[cfg(feature = "arbitrary")]
generated!(arb, Chunk<u16, 5>, InlineArray<u8, [u64; 3]>, SparseChunk<u8, 9>, Chunk<Vec<u8>, 4>);
#[cfg(all(feature = "arbitrary", feature = "ringbuffer"))]
generated!(arb_ring, RingBuffer<u16, 5>, RingBuffer<bool, 40>);

#[cfg(feature = "std")]
macro_rules! piped {
    ($name:ident, $C:ty) => {
        fn $name(ops: &[Op], log: &mut Log) {
            use std::io::{Read, Write};
            let mut c: $C = <$C>::new();
            let mut v = 0u8;
            for (k, op) in ops.iter().enumerate() {
                log.at = k;
                let n = op.x as usize % 14;
                let mut buf: Vec<u8> = (0..n).map(|k| v.wrapping_add(k as u8)).collect();
                v = v.wrapping_add(n as u8);
                let c = &mut c;
                log.call(op, || match op.c % 8 {
                    0 | 1 => vec![c.write(&buf).map(|n| n as i64).unwrap_or(-1)],
                    2 | 3 => {
                        let n = c.read(&mut buf).map(|n| n as i64).unwrap_or(-1);
                        let mut out = vec![n];
                        out.extend(buf.iter().map(|b| *b as i64));
                        out
                    }
                    4 => vec![c.write_all(&buf).is_ok() as i64],
                    5 => vec![c.read_exact(&mut buf).is_ok() as i64, hash_of(&buf)],
                    6 => { let mut out = vec![]; let r = Read::by_ref(c).take(n as u64).read_to_end(&mut out).is_ok(); vec![r as i64, hash_of(&out)] }
                    _ => { c.push_front(op.a); vec![c.flush().is_ok() as i64] }
                });
                let all: Vec<i64> = c.iter().map(|e| *e as i64).collect();
                log.ev("holds", &all);
            }
        }
    };
}
#[cfg(feature = "std")]
piped!(io_chunk, Chunk<u8, 17>);
#[cfg(all(feature = "std", feature = "ringbuffer"))]
piped!(io_ring, RingBuffer<u8, 17>);

#[cfg(feature = "std")]
fn maps(ops: &[Op], log: &mut Log) {
    use std::collections::{BTreeMap, HashMap};
    let mut c: SparseChunk<T, 20> = SparseChunk::new();
    let mut b: BTreeMap<usize, T> = BTreeMap::new();
    let mut h: HashMap<usize, T> = HashMap::new();
    for (k, op) in ops.iter().enumerate() {
        log.at = k;
        let i = op.x as usize % 20;
        let v = op.y as i32 % 3;
        let (c, b, h) = (&mut c, &mut b, &mut h);
        // (one comparison counts as one event whatever order the hash map is walked in)
        let quiet = Op { fk: 0, ..*op };
        log.call(&quiet, || {
            match op.c % 5 {
                0 | 1 => {
                    c.insert(i, t(v));
                    b.insert(i, t(v));
                    h.insert(i, t(v));
                }
                2 => {
                    b.remove(&i);
                }
                3 => {
                    h.remove(&i);
                }
                _ => {
                    c.remove(i);
                }
            }
            vec![(*c == *b) as i64, (*c == *h) as i64]
        });
    }
}

type Run = Option<fn(&[Op], &mut Log)>;
macro_rules! when {
    ($f:meta, $e:expr) => {{
        #[cfg($f)]
        let r: Run = Some($e);
        #[cfg(not($f))]
        let r: Run = None;
        r
    }};
}
const SECTIONS: [&str; 28] = [
    "chunk-0", "chunk-1", "chunk-7", "chunk-16", "chunk-64", "inline-1", "inline-4", "inline-13", "sparse-16", "sparse-100",
    "ring-0", "ring-1", "ring-7", "ring-16", "ring-64", "views-8", "views-30", "pool-chunk", "pool-sparse", "pool-ring",
    "generate", "generate-ring", "io-chunk", "io-ring", "maps", "plain-chunk", "plain-inline", "plain-ring",
];
fn section(i: usize) -> Run {
    match SECTIONS[i] {
        "chunk-0" => Some(chunk::<0>),
        "chunk-1" => Some(chunk::<1>),
        "chunk-7" => Some(chunk::<7>),
        "chunk-16" => Some(chunk::<16>),
        "chunk-64" => Some(chunk::<64>),
        "inline-1" => Some(inline::<[usize; 2]>),
        "inline-4" => Some(inline::<[u8; 47]>),
        "inline-13" => Some(inline::<[u128; 7]>),
        "sparse-16" => Some(sparse16),
        "sparse-100" => Some(sparse100),
        "ring-0" => when!(feature = "ringbuffer", ring::<0>),
        "ring-1" => when!(feature = "ringbuffer", ring::<1>),
        "ring-7" => when!(feature = "ringbuffer", ring::<7>),
        "ring-16" => when!(feature = "ringbuffer", ring::<16>),
        "ring-64" => when!(feature = "ringbuffer", ring::<64>),
        "views-8" => when!(feature = "ringbuffer", views::<8>),
        "views-30" => when!(feature = "ringbuffer", views::<30>),
        "pool-chunk" => when!(feature = "refpool", pool_chunk),
        "pool-sparse" => when!(feature = "refpool", pool_sparse),
        "pool-ring" => when!(all(feature = "refpool", feature = "ringbuffer"), pool_ring),
        "generate" => when!(feature = "arbitrary", arb),
        "generate-ring" => when!(all(feature = "arbitrary", feature = "ringbuffer"), arb_ring),
        "io-chunk" => when!(feature = "std", io_chunk),
        "io-ring" => when!(all(feature = "std", feature = "ringbuffer"), io_ring),
        "plain-chunk" => Some(plain_chunk),
        "plain-inline" => Some(plain_inline),
        "plain-ring" => when!(feature = "ringbuffer", plain_ring),
        "maps" => when!(feature = "std", maps),
        _ => None,
    }
}

fn run(case: &Case, trace: bool) -> Option<Log> {
    let f = section(case.section)?;
    let mut log = Log { h: 0xcbf29ce484222325, trace, at: 0, calls: 0, refused: 0, broken: 0 };
    w().live = 0;
    f(&case.ops, &mut log);
    if !SECTIONS[case.section].starts_with("pool") {
        // (a pool gives up what an interrupted copy had made)
        log.ev("left alive", &[w().live]);
    }
    Some(log)
}

fn text(c: &Case) -> String {
    let mut s = format!("section {}\n", SECTIONS[c.section]);
    for o in &c.ops {
        writeln!(s, "op {} {} {} {} {} {} {}", o.c, o.a, o.b, o.x, o.y, o.fk, o.fnth).unwrap();
    }
    s
}
fn parse(s: &str) -> Case {
    let mut case = Case { section: 0, ops: vec![] };
    for l in s.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f.first().copied() {
            Some("section") => case.section = SECTIONS.iter().position(|s| *s == f[1]).unwrap_or(0),
            Some("op") if f.len() >= 8 => {
                let n = |i: usize| f[i].parse::<u16>().unwrap_or(0);
                case.ops.push(Op { c: n(1) as u8, a: n(2) as u8, b: n(3) as u8, x: n(4), y: n(5), fk: n(6) as u8 % 7, fnth: n(7) as u8 })
            }
            _ => {}
        }
    }
    case
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| args.get(i).and_then(|a| a.parse::<u64>().ok()).unwrap_or(0);
    match args.get(1).map(|a| a.as_str()) {
        // sweep SEED FIRST LAST: one line per run
        Some("sweep") => {
            let mut out = String::new();
            let (mut calls, mut refused, mut broken) = (0, 0, 0);
            for i in num(3)..num(4) {
                let case = generate(num(2), i);
                if let Some(l) = run(&case, false) {
                    writeln!(out, "{} {} {:016x} {} {}", i, case.section, l.h, l.broken, l.refused).unwrap();
                    calls += l.calls;
                    refused += l.refused;
                    broken += l.broken;
                }
            }
            print!("{}", out);
            let f = &w().fired;
            println!(
                "total calls {} refused {} interrupted {} {}",
                calls, refused, broken,
                (1..7).map(|k| format!("{} {}", KINDS[k], f[k])).collect::<Vec<_>>().join(" ")
            );
        }
        Some("gen") => print!("{}", text(&generate(num(2), num(3)))),
        // one FILE: the history of one case
        Some("one") => {
            let s = std::fs::read_to_string(&args[2]).unwrap_or_default();
            match run(&parse(&s), true) {
                Some(l) => println!("history {:016x}", l.h),
                None => println!("absent"),
            }
        }
        Some("sections") => SECTIONS.iter().for_each(|s| println!("{}", s)),
        _ => std::process::exit(2),
    }
}
