//! Containers as keys: hash maps and ordered maps keyed by containers, whose keys are looked up,
//! replaced, ordered and taken out again by slices, by equal containers with another history, and
//! by near misses, with hashing, equality and ordering interrupted at any callback. The reference
//! is an ordered map from element values to (identities, number).
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use crate::seq::config::Block;
use crate::seq::rig::{Kind, SeqC};
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::hash::BuildHasher;
use std::ops::Bound;

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! { Make, Push, PushFront, InsertAt, RemoveAt, SetAt, Rotate, CopyKey, Put, PutIfAbsent, Find, FindPair, Update, Take, Rekey,
      Range, Split, Retain, Contract, DropLoose }
pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("keys {}", s)).unwrap_or_else(|| "?".into())
}

type Hm<K> = HashMap<K, u32, RandomState>;
type Bm<K> = BTreeMap<K, u32>;
type Q<'a, K> = &'a [<K as SeqC>::E];

/// What the two maps offer for this key type, given the elements asked for.
pub trait Key: SeqC {
    fn h_get(m: &Hm<Self>, q: Q<Self>) -> Option<u32>;
    fn h_pair(m: &Hm<Self>, q: Q<Self>) -> Option<(Vec<u32>, u32)>;
    fn h_mut<'m>(m: &'m mut Hm<Self>, q: Q<Self>) -> Option<&'m mut u32>;
    fn h_take(m: &mut Hm<Self>, q: Q<Self>) -> Option<(Self, u32)>;
    fn b_get(m: &Bm<Self>, q: Q<Self>) -> Option<u32>;
    fn b_pair(m: &Bm<Self>, q: Q<Self>) -> Option<(Vec<u32>, u32)>;
    fn b_mut<'m>(m: &'m mut Bm<Self>, q: Q<Self>) -> Option<&'m mut u32>;
    fn b_take(m: &mut Bm<Self>, q: Q<Self>) -> Option<(Self, u32)>;
    fn b_split(m: &mut Bm<Self>, q: Q<Self>) -> Bm<Self>;
    fn b_range(m: &Bm<Self>, lo: Q<Self>, hi: Q<Self>, how: usize) -> Vec<u32>;
    /// Things the borrowing contract promises about a container and a slice; names what fails.
    fn contract(&self, q: Q<Self>, s: &RandomState) -> Vec<&'static str>;
}
fn ids<C: SeqC>(c: &C) -> Vec<u32> {
    c.it().map(|e| e.id()).collect()
}
fn bounds<T: ?Sized>(lo: T, hi: T, how: usize) -> (Bound<T>, Bound<T>)
where
    T: Sized,
{
    match how % 4 {
        0 => (Bound::Included(lo), Bound::Included(hi)),
        1 => (Bound::Included(lo), Bound::Excluded(hi)),
        2 => (Bound::Unbounded, Bound::Excluded(hi)),
        _ => (Bound::Excluded(lo), Bound::Unbounded),
    }
}
macro_rules! lookups {
    ($via:ty, |$q:ident| $make:expr) => {
        fn h_get(m: &Hm<Self>, $q: Q<Self>) -> Option<u32> {
            m.get::<$via>($make).copied()
        }
        fn h_pair(m: &Hm<Self>, $q: Q<Self>) -> Option<(Vec<u32>, u32)> {
            m.get_key_value::<$via>($make).map(|(k, v)| (ids(k), *v))
        }
        fn h_mut<'m>(m: &'m mut Hm<Self>, $q: Q<Self>) -> Option<&'m mut u32> {
            m.get_mut::<$via>($make)
        }
        fn h_take(m: &mut Hm<Self>, $q: Q<Self>) -> Option<(Self, u32)> {
            m.remove_entry::<$via>($make)
        }
        fn b_get(m: &Bm<Self>, $q: Q<Self>) -> Option<u32> {
            m.get::<$via>($make).copied()
        }
        fn b_pair(m: &Bm<Self>, $q: Q<Self>) -> Option<(Vec<u32>, u32)> {
            m.get_key_value::<$via>($make).map(|(k, v)| (ids(k), *v))
        }
        fn b_mut<'m>(m: &'m mut Bm<Self>, $q: Q<Self>) -> Option<&'m mut u32> {
            m.get_mut::<$via>($make)
        }
        fn b_take(m: &mut Bm<Self>, $q: Q<Self>) -> Option<(Self, u32)> {
            m.remove_entry::<$via>($make)
        }
        fn b_split(m: &mut Bm<Self>, $q: Q<Self>) -> Bm<Self> {
            m.split_off::<$via>($make)
        }
        fn b_range(m: &Bm<Self>, $q: Q<Self>, hi: Q<Self>, how: usize) -> Vec<u32> {
            let lo: &$via = $make;
            let $q = hi;
            let hi: &$via = $make;
            let b = bounds(lo, hi, how);
            let mut v: Vec<u32> = m.range::<$via, _>(b).map(|(_, v)| *v).collect();
            let back: Vec<u32> = m.range::<$via, _>(b).rev().map(|(_, v)| *v).collect();
            if !back.iter().rev().eq(v.iter()) {
                v.push(u32::MAX)
            }
            v
        }
    };
}
macro_rules! by_slice {
    ($t:ty, [$($g:tt)*]) => {
        impl<E: crate::seq::rig::RefExtend, $($g)*> Key for $t {
            lookups!([E], |q| q);
            fn contract(&self, q: &[E], s: &RandomState) -> Vec<&'static str> {
                let own: &[E] = self.borrow();
                let mut bad = vec![];
                let mut want = |ok: bool, what: &'static str| if !ok { bad.push(what) };
                want(own.len() == self.clen(), "length of the borrowed slice");
                want(own.iter().map(|e| e.id()).eq(self.it().map(|e| e.id())), "elements of the borrowed slice");
                want(s.hash_one(self) == s.hash_one(own), "hash of the borrowed slice");
                want((own == q) == (*self == q.to_vec()), "equality with a list");
                let other: Self = q.iter().cloned().collect();
                want((own == q) == (*self == other), "equality");
                want(own.cmp(q) == self.cmp(&other), "ordering");
                want(own.partial_cmp(q) == self.partial_cmp(&other), "partial ordering");
                want(own.cmp(q).reverse() == other.cmp(self), "reversed ordering");
                want(own != q || s.hash_one(self) == s.hash_one(&other), "hash of an equal container");
                want(own != q || s.hash_one(self) == s.hash_one(q), "hash of an equal slice");
                bad
            }
        }
    };
}
by_slice!(Chunk<E, N>, [const N: usize]);
by_slice!(InlineArray<E, T>, [T: 'static]);

/// An equal ring buffer whose contents lie elsewhere.
fn turned<E: crate::seq::rig::RefExtend, const N: usize>(q: &[E]) -> RingBuffer<E, N> {
    let mut r = RingBuffer::new();
    let mid = q.len() * 2 / 3;
    for e in q[..mid].iter().rev() {
        r.push_front(e.clone())
    }
    for e in &q[mid..] {
        r.push_back(e.clone())
    }
    r
}
impl<E: crate::seq::rig::RefExtend, const N: usize> Key for RingBuffer<E, N> {
    lookups!(RingBuffer<E, N>, |q| &turned::<E, N>(q));
    fn contract(&self, q: &[E], s: &RandomState) -> Vec<&'static str> {
        let own: Vec<&E> = self.it().collect();
        let qs: Vec<&E> = q.iter().collect();
        let other = turned::<E, N>(q);
        let mut bad = vec![];
        let mut want = |ok: bool, what: &'static str| if !ok { bad.push(what) };
        want((own == qs) == (*self == q.to_vec()), "equality with a list");
        want((own == qs) == (*self == other), "equality");
        want(own.cmp(&qs) == self.cmp(&other), "ordering");
        want(own.partial_cmp(&qs) == self.partial_cmp(&other), "partial ordering");
        want(own.cmp(&qs).reverse() == other.cmp(self), "reversed ordering");
        want(own != qs || s.hash_one(self) == s.hash_one(&other), "hash of an equal container");
        bad
    }
}

struct Row {
    name: &'static str,
    weight: u32,
    run: fn(&Case, &mut Stats, usize),
}
macro_rules! rows {
    ($( $w:literal $t:ty ),* $(,)?) => {
        const ROWS: &[Row] = &[$( Row { name: stringify!($t), weight: $w, run: |c, s, i| Sim::<$t>::new(c, s, i).run(c) } ),*];
    };
}
rows![
    3 Chunk<Tok, 2>, 4 Chunk<Tok, 4>, 4 Chunk<Tok, 7>, 2 Chunk<Odd, 3>, 2 Chunk<Big, 4>, 2 Chunk<Cop, 5>, 1 Chunk<Zst, 4>, 1 Chunk<Tok, 64>,
    4 InlineArray<Tok, [u64; 4]>, 4 InlineArray<Tok, [u64; 8]>, 2 InlineArray<Odd, [u8; 27]>, 2 InlineArray<Big, [Block; 4]>,
    2 InlineArray<Cop, [u64; 6]>, 1 InlineArray<Zst, [u64; 2]>, 1 InlineArray<Zal, [crate::seq::config::Block; 2]>,
    3 RingBuffer<Tok, 2>, 4 RingBuffer<Tok, 4>, 4 RingBuffer<Tok, 7>, 2 RingBuffer<Odd, 3>, 2 RingBuffer<Big, 4>, 2 RingBuffer<Cop, 5>,
    1 RingBuffer<Zst, 4>, 1 RingBuffer<Tok, 64>,
];
pub fn config_name(c: usize) -> String {
    format!("keys {}", ROWS[c % ROWS.len()].name)
}
pub fn run(case: &Case, st: &mut Stats) {
    let i = case.config % ROWS.len();
    (ROWS[i].run)(case, st, i)
}

type Model = BTreeMap<Vec<i32>, (Vec<u32>, u32)>;
fn vals(ids: &[u32]) -> Vec<i32> {
    ids.iter().map(|i| l().val(*i)).collect()
}
struct Sim<'s, K: Key> {
    loose: Vec<K>,
    mloose: Vec<Vec<u32>>,
    h: Hm<K>,
    mh: Model,
    b: Bm<K>,
    mb: Model,
    state: RandomState,
    next: u32,
    st: &'s mut Stats,
    config: usize,
}
const MAXLOOSE: usize = 5;
const MAXKEYS: usize = 24;

impl<'s, K: Key> Sim<'s, K> {
    fn new(case: &Case, st: &'s mut Stats, config: usize) -> Self {
        let keys = mix(case.seed ^ case.index.rotate_left(20) ^ 0x9e1);
        // the maps' hash keys are part of the simulated randomness
        let state: RandomState = unsafe { std::mem::transmute((keys, mix(keys))) };
        Sim {
            loose: vec![],
            mloose: vec![],
            h: HashMap::with_capacity_and_hasher(4, state.clone()),
            mh: Model::new(),
            b: BTreeMap::new(),
            mb: Model::new(),
            state,
            next: 1,
            st,
            config,
        }
    }
    fn limit() -> usize {
        K::cap().min(70)
    }
    fn mint(v: i32) -> K::E {
        K::E::mint(v % 3)
    }
    /// Elements to ask for: those of a key or loose container, or a near miss, or anything.
    fn query(&self, how: usize, x: usize, y: usize) -> Vec<K::E> {
        let all: Vec<Vec<i32>> = self.mh.keys().chain(self.mb.keys()).cloned().chain(self.mloose.iter().map(|i| vals(i))).collect();
        let mut v = if all.is_empty() { vec![] } else { all[x % all.len()].clone() };
        match how % 8 {
            0..=3 => {}
            4 => v.truncate(y % (v.len() + 1)),
            5 => v.push(y as i32 % 3),
            6 => {
                if !v.is_empty() {
                    let i = y % v.len();
                    v[i] = (v[i] + 1 + (y / 7 % 2) as i32) % 3
                }
            }
            _ => v = (0..y % 5).map(|i| (mix((x + i) as u64) % 3) as i32).collect(),
        }
        v.truncate(Self::limit());
        v.into_iter().map(K::E::mint).collect()
    }
    fn bad(&self, class: &str, msg: String) {
        l().violation(class, format!("{}: {}", ROWS[self.config].name, msg))
    }
    /// An operation that may have been interrupted: the result if it ran through.
    fn done<T>(&mut self, f: F, op: &Op, r: Result<T, Pan>) -> Option<T> {
        let fired = l().disarm();
        self.st.steps += 1;
        let n = self.h.len() as u64 ^ ((self.b.len() as u64) << 8);
        match r {
            Ok(t) => {
                self.st.state(mix(n ^ ((f as u64) << 16) ^ ((self.config as u64) << 24)));
                self.st.ops_effective += 1;
                Some(t)
            }
            Err(Pan::Inj(k)) if fired && k == op.fk => {
                self.st.state(mix(n ^ ((f as u64) << 16) ^ ((self.config as u64) << 24) ^ ((k as u64) << 32) ^ ((op.fnth as u64) << 40)));
                None
            }
            Err(p) => {
                self.bad("spurious-panic", format!("{:?} panicked: {:?}", f, p));
                None
            }
        }
    }
    fn put(&mut self, i: usize, into_b: bool, keep: bool, op: &Op) {
        let k = self.loose.swap_remove(i);
        let id = self.mloose.swap_remove(i);
        let v = vals(&id);
        let n = self.next;
        self.next += 1;
        if !into_b {
            // growing asks every key for its hash; that is not the place to panic
            self.h.reserve(1)
        }
        l().arm(op.fk, op.fnth as u32);
        let (h, b) = (&mut self.h, &mut self.b);
        let r = guarded(|| match (into_b, keep) {
            (false, false) => h.insert(k, n),
            (true, false) => b.insert(k, n),
            (false, true) => {
                let e = h.entry(k);
                let old = match &e {
                    std::collections::hash_map::Entry::Occupied(o) => Some(*o.get()),
                    _ => None,
                };
                e.or_insert(n);
                old
            }
            (true, true) => {
                let e = b.entry(k);
                let old = match &e {
                    std::collections::btree_map::Entry::Occupied(o) => Some(*o.get()),
                    _ => None,
                };
                e.or_insert(n);
                old
            }
        });
        let got = self.done(if keep { F::PutIfAbsent } else { F::Put }, op, r);
        let m = if into_b { &mut self.mb } else { &mut self.mh };
        let Some(got) = got else { return };
        let want = m.get(&v).map(|x| x.1);
        match m.get_mut(&v) {
            Some(x) => {
                if !keep {
                    x.1 = n
                }
            }
            None => {
                m.insert(v.clone(), (id, n));
            }
        }
        if got != want {
            self.bad("key-lookup", format!("putting a key with elements {:?} into the {} map found {:?}, the model {:?}", v, if into_b { "ordered" } else { "hash" }, got, want))
        }
    }
    fn op(&mut self, op: &Op) {
        let f = ALL[op.code as usize % ALL.len()];
        *self.st.per_op.entry(op_name(f as u8)).or_insert(0) += 1;
        let (x, y, z) = (op.x as usize, op.y as usize, op.z as usize);
        let into_b = op.a & 1 == 1;
        let side = if into_b { "ordered" } else { "hash" };
        let full_b = into_b && self.b.len() >= MAXKEYS;
        let full_h = !into_b && self.h.len() >= MAXKEYS;
        let nl = self.loose.len();
        match f {
            F::Make => {
                if nl >= MAXLOOSE {
                    return;
                }
                let n = match y % 8 {
                    7 => Self::limit(),
                    n => n.min(Self::limit()),
                };
                let n = n.saturating_sub(y / 8 % 2);
                let (mut c, mut m) = (K::make(), vec![]);
                for i in 0..n {
                    let e = Self::mint((mix((x + i) as u64) % 3) as i32);
                    if (z >> (i % 13)) & 1 == 1 {
                        m.insert(0, e.id());
                        c.insert_at(0, e)
                    } else {
                        m.push(e.id());
                        c.push_back(e)
                    }
                }
                self.loose.push(c);
                self.mloose.push(m);
                self.st.ops_effective += 1;
            }
            F::Push | F::PushFront | F::InsertAt | F::RemoveAt | F::SetAt | F::Rotate => {
                if nl == 0 {
                    return;
                }
                let i = x % nl;
                let (c, m) = (&mut self.loose[i], &mut self.mloose[i]);
                edit(c, m, f, y, z, Self::limit());
                self.st.ops_effective += 1;
            }
            F::CopyKey => {
                let n = self.h.len() + self.b.len() + nl;
                if n == 0 || nl >= MAXLOOSE {
                    return;
                }
                let mut all: Vec<&K> = self.b.keys().chain(&self.loose).collect();
                // hash maps iterate in no particular order: pick by contents
                let want: Vec<&Vec<i32>> = self.mh.keys().collect();
                let mut pick = x % n;
                if pick < want.len() {
                    all = self.h.keys().filter(|k| k.it().map(|e| e.val()).eq(want[pick].iter().copied())).collect();
                    pick = 0
                } else {
                    pick -= want.len()
                }
                let Some(k) = all.get(pick) else { return };
                let src = ids(*k);
                l().clones.clear();
                l().arm(op.fk, op.fnth as u32);
                let r = guarded(|| (*k).clone());
                if let Some(c) = self.done(f, op, r) {
                    let id = ids(&c);
                    if vals(&id) != vals(&src) {
                        self.bad("copy", format!("a copy of a key holds {:?}, not {:?}", vals(&id), vals(&src)))
                    }
                    self.loose.push(c);
                    self.mloose.push(id);
                }
            }
            F::Put | F::PutIfAbsent => {
                if nl == 0 || full_b || full_h {
                    return;
                }
                self.put(x % nl, into_b, f == F::PutIfAbsent, op)
            }
            F::Find | F::FindPair | F::Update => {
                let q = self.query(op.b as usize, x, y);
                let v: Vec<i32> = q.iter().map(|e| e.val()).collect();
                let want = if into_b { self.mb.get(&v) } else { self.mh.get(&v) }.cloned();
                let (h, b) = (&mut self.h, &mut self.b);
                l().arm(op.fk, op.fnth as u32);
                match f {
                    F::Find => {
                        let r = guarded(|| if into_b { K::b_get(b, &q) } else { K::h_get(h, &q) });
                        let chaos = op.fk == F_CHAOS && l().fired;
                        if let Some(got) = self.done(f, op, r) {
                            l().ev(70, got.unwrap_or(0) as u64, v.len() as u64);
                            if got != want.as_ref().map(|w| w.1) && !chaos {
                                self.bad("key-lookup", format!("looking up {:?} in the {} map found {:?}, the model {:?}", v, side, got, want))
                            }
                        }
                    }
                    F::FindPair => {
                        let r = guarded(|| if into_b { K::b_pair(b, &q) } else { K::h_pair(h, &q) });
                        let chaos = op.fk == F_CHAOS && l().fired;
                        if let Some(got) = self.done(f, op, r) {
                            if got != want && !chaos {
                                self.bad("key-lookup", format!("looking up {:?} in the {} map found key and number {:?}, the model {:?}", v, side, got, want))
                            }
                        }
                    }
                    _ => {
                        let n = self.next;
                        self.next += 1;
                        let r = guarded(|| if into_b { K::b_mut(b, &q) } else { K::h_mut(h, &q) }.map(|p| std::mem::replace(p, n)));
                        if let Some(got) = self.done(f, op, r) {
                            if got != want.map(|w| w.1) {
                                self.bad("key-lookup", format!("updating {:?} in the {} map found {:?}", v, side, got))
                            }
                            let m = if into_b { &mut self.mb } else { &mut self.mh };
                            if let Some(w) = m.get_mut(&v) {
                                w.1 = n
                            }
                        }
                    }
                }
            }
            F::Take | F::Rekey => {
                if nl >= MAXLOOSE {
                    return;
                }
                let q = self.query(op.b as usize, x, y);
                let v: Vec<i32> = q.iter().map(|e| e.val()).collect();
                l().arm(op.fk, op.fnth as u32);
                let (h, b) = (&mut self.h, &mut self.b);
                let r = guarded(|| if into_b { K::b_take(b, &q) } else { K::h_take(h, &q) });
                let Some(got) = self.done(f, op, r) else { return };
                let m = if into_b { &mut self.mb } else { &mut self.mh };
                let want = m.remove(&v);
                let have = got.as_ref().map(|(k, n)| (ids(k), *n));
                if have != want {
                    self.bad("key-lookup", format!("taking {:?} out of the {} map gave {:?}, the model {:?}", v, side, have, want))
                }
                let Some((mut k, _)) = got else { return };
                let mut m = have.unwrap().0;
                if f == F::Rekey {
                    let e = [F::Push, F::PushFront, F::InsertAt, F::RemoveAt, F::SetAt, F::Rotate][z % 6];
                    edit(&mut k, &mut m, e, y, z / 6, Self::limit());
                }
                self.loose.push(k);
                self.mloose.push(m);
                if f == F::Rekey {
                    let i = self.loose.len() - 1;
                    self.put(i, into_b, false, &Op { fk: 0, ..*op })
                }
            }
            F::Range => {
                let mut lo = self.query(op.b as usize, x, y);
                let mut hi = self.query(op.b as usize / 8, z, x);
                let (mut vl, mut vh): (Vec<i32>, Vec<i32>) = (lo.iter().map(|e| e.val()).collect(), hi.iter().map(|e| e.val()).collect());
                if vl > vh {
                    std::mem::swap(&mut lo, &mut hi);
                    std::mem::swap(&mut vl, &mut vh);
                }
                let how = z / 7;
                l().arm(op.fk, op.fnth as u32);
                let b = &self.b;
                let r = guarded(|| K::b_range(b, &lo, &hi, how));
                if let Some(got) = self.done(f, op, r) {
                    let want: Vec<u32> = self.mb.range(bounds(vl.clone(), vh.clone(), how)).map(|(_, v)| v.1).collect();
                    if got != want {
                        self.bad("key-order", format!("the keys between {:?} and {:?} are numbers {:?}, the model says {:?}", vl, vh, got, want))
                    }
                }
            }
            F::Split => {
                let q = self.query(op.b as usize, x, y);
                let v: Vec<i32> = q.iter().map(|e| e.val()).collect();
                let b = &mut self.b;
                let r = guarded(|| {
                    let mut high = K::b_split(b, &q);
                    let n = high.len();
                    b.append(&mut high);
                    (n, high.len())
                });
                if let Some((n, rest)) = self.done(f, op, r) {
                    let want = self.mb.range(v.clone()..).count();
                    if n != want || rest != 0 {
                        self.bad("key-order", format!("{} keys are not below {:?}, the model says {}", n, v, want))
                    }
                }
            }
            F::Retain => {
                let keep = |v: &[i32]| v.len() % 3 != x % 3 || v.first().copied().unwrap_or(0) as usize == y % 3;
                let (h, b) = (&mut self.h, &mut self.b);
                let by = |k: &K| keep(&k.it().map(|e| e.val()).collect::<Vec<_>>());
                let r = guarded(|| if into_b { b.retain(|k, _| by(k)) } else { h.retain(|k, _| by(k)) });
                if self.done(f, op, r).is_some() {
                    let m = if into_b { &mut self.mb } else { &mut self.mh };
                    m.retain(|v, _| keep(v));
                }
            }
            F::Contract => {
                if nl == 0 {
                    return;
                }
                let q = self.query(op.b as usize, z, y);
                let c = &self.loose[x % nl];
                let s = &self.state;
                l().arm(op.fk, op.fnth as u32);
                let r = guarded(|| c.contract(&q, s));
                if let Some(bad) = self.done(f, op, r) {
                    if !bad.is_empty() {
                        let v = vals(&self.mloose[x % nl]);
                        let w: Vec<i32> = q.iter().map(|e| e.val()).collect();
                        self.bad("borrowed-form", format!("container {:?} against slice {:?}: they disagree about {:?}", v, w, bad))
                    }
                }
            }
            F::DropLoose => {
                if nl == 0 {
                    return;
                }
                let c = self.loose.swap_remove(x % nl);
                self.mloose.swap_remove(x % nl);
                let r = guarded(|| drop(c));
                self.done(f, op, r);
            }
        }
        self.check("after the operation");
    }
    fn check(&mut self, when: &str) {
        if l().viol.is_some() {
            return;
        }
        let mut count = 0;
        for (c, m) in self.loose.iter().zip(&self.mloose) {
            count += m.len();
            if ids(c) != *m || c.clen() != m.len() {
                self.bad("contents", format!("{}: a container holds {:?}, the model {:?}", when, ids(c), m));
                return;
            }
        }
        if self.h.len() != self.mh.len() || self.b.len() != self.mb.len() {
            self.bad("key-lookup", format!("{}: the maps hold {} and {} keys, the model {} and {}", when, self.h.len(), self.b.len(), self.mh.len(), self.mb.len()));
            return;
        }
        for (k, n) in &self.h {
            let i = ids(k);
            count += i.len();
            if self.mh.get(&vals(&i)) != Some(&(i.clone(), *n)) {
                self.bad("contents", format!("{}: the hash map holds key {:?} with number {}, the model {:?}", when, i, n, self.mh.get(&vals(&i))));
                return;
            }
        }
        for ((k, n), (v, m)) in self.b.iter().zip(&self.mb) {
            let i = ids(k);
            count += i.len();
            if (&i, n) != (&m.0, &m.1) {
                self.bad("key-order", format!("{}: the ordered map holds key {:?} with number {} where the model has {:?} {:?}", when, i, n, v, m));
                return;
            }
        }
        let live = if K::E::ZST { l().z_live() } else { l().live as isize };
        if K::E::TRACKED && live != count as isize {
            self.bad("leak", format!("{}: {} elements are alive, {} are in containers", when, live, count))
        }
    }
    fn run(mut self, case: &Case) {
        for op in &case.ops {
            let r = guarded(|| self.op(op));
            if let Err(p) = r {
                l().disarm();
                self.bad("spurious-panic", format!("{} panicked: {:?}", op_name(op.code), p))
            }
            if l().viol.is_some() {
                std::mem::forget(std::mem::take(&mut self.loose));
                std::mem::forget(std::mem::take(&mut self.b));
                std::mem::forget(std::mem::replace(&mut self.h, HashMap::with_hasher(self.state.clone())));
                return;
            }
        }
        // finally every key is found and taken out once more
        let all: Vec<(bool, Vec<i32>)> =
            self.mh.keys().map(|k| (false, k.clone())).chain(self.mb.keys().map(|k| (true, k.clone()))).collect();
        for (into_b, v) in all {
            let q: Vec<K::E> = v.iter().map(|v| K::E::mint(*v)).collect();
            let (h, b) = (&mut self.h, &mut self.b);
            let r = guarded(|| if into_b { K::b_take(b, &q) } else { K::h_take(h, &q) });
            let want = if into_b { self.mb.remove(&v) } else { self.mh.remove(&v) };
            match r {
                Ok(got) => {
                    let have = got.as_ref().map(|(k, n)| (ids(k), *n));
                    if have != want {
                        self.bad("key-lookup", format!("in the end, taking {:?} gave {:?}, the model {:?}", v, have, want));
                        return;
                    }
                }
                Err(p) => {
                    self.bad("spurious-panic", format!("taking a key out panicked: {:?}", p));
                    return;
                }
            }
        }
        self.loose.clear();
        self.mloose.clear();
        self.check("after everything was dropped");
    }
}
fn edit<K: Key>(c: &mut K, m: &mut Vec<u32>, f: F, y: usize, z: usize, limit: usize) {
    let n = m.len();
    match f {
        F::Push | F::PushFront | F::InsertAt => {
            if n >= limit {
                return;
            }
            let e = K::E::mint((z % 3) as i32);
            let i = match f {
                F::Push => n,
                F::PushFront => 0,
                _ => y % (n + 1),
            };
            m.insert(i, e.id());
            match f {
                F::Push => c.push_back(e),
                F::PushFront if K::KIND != Kind::Inline => c.push_front(e),
                _ => c.insert_at(i, e),
            }
        }
        F::RemoveAt | F::SetAt => {
            if n == 0 {
                return;
            }
            let i = y % n;
            if f == F::RemoveAt {
                m.remove(i);
                drop(c.remove_at(i))
            } else {
                let e = K::E::mint((z % 3) as i32);
                m[i] = e.id();
                drop(c.set_at(i, e))
            }
        }
        _ => {
            for _ in 0..y % (n + 1) {
                let e = c.remove_at(0).expect("an element at index 0");
                c.push_back(e);
                m.rotate_left(1);
            }
        }
    }
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, 0x6e75 ^ prop.len() as u64, index);
    let weights: Vec<u32> = ROWS.iter().map(|r| r.weight).collect();
    let config = r.weighted(&weights);
    let mut s = |w: u32| if r.chance(250) { 0 } else { w };
    let table = [
        (F::Make, 8), (F::Push, s(4)), (F::PushFront, s(4)), (F::InsertAt, s(3)), (F::RemoveAt, s(3)), (F::SetAt, s(3)), (F::Rotate, s(4)),
        (F::CopyKey, s(4)), (F::Put, 14), (F::PutIfAbsent, s(5)), (F::Find, 10), (F::FindPair, s(5)), (F::Update, s(4)), (F::Take, s(6)),
        (F::Rekey, s(6)), (F::Range, s(5)), (F::Split, s(2)), (F::Retain, s(1)), (F::Contract, s(6)), (F::DropLoose, s(2)),
    ];
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let bad = [0, 150, 350][r.below(3) as usize];
    let nops = 8 + r.below(60) as usize;
    let mut ops = vec![];
    for n in 0..nops {
        let f = if n < 2 { F::Make } else { table[r.weighted(&weights)].0 };
        let mut op = Op {
            code: f as u8,
            a: r.below(256) as u8,
            b: r.below(256) as u8,
            x: r.below(60_000) as u16,
            y: r.below(60_000) as u16,
            z: r.below(60_000) as u16,
            fk: 0,
            fnth: 0,
        };
        if r.chance(bad) {
            let on_b = op.a & 1 == 1;
            op.fk = match f {
                F::Find | F::FindPair if on_b => *r.pick(&[F_CMP, F_CMP, F_CHAOS]),
                F::Update | F::Take | F::Put | F::PutIfAbsent if on_b => F_CMP,
                F::Find | F::FindPair | F::Update | F::Take => *r.pick(&[F_HASH, F_EQ]),
                F::Put | F::PutIfAbsent => F_EQ,
                F::Range => F_CMP,
                F::CopyKey => F_CLONE,
                F::Contract => *r.pick(&[F_HASH, F_EQ, F_CMP, F_CLONE]),
                _ => 0,
            };
            op.fnth = match r.below(3) {
                0 => 0,
                1 => r.below(4),
                _ => r.below(12),
            } as u8;
        }
        ops.push(op);
    }
    Case { prop: prop.into(), engine: "keys".into(), config, seed, index, ops }
}
