//! Elements which are not equal to themselves or not ordered at all (as floating-point NaN is), and
//! elements which are equal but differ (as the two zeros do): comparing containers of such elements
//! with themselves, with copies, near misses, lists, views and maps, under equality and ordering
//! interrupted at any callback. The reference is the same comparison on plain lists.
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use array_ops::HasLength;
use sized_chunks::ring_buffer::{Slice, SliceMut};
use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
use std::cmp::Ordering;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! { Put, PutFront, PutAt, TakeAt, SetAt, Rotate, Copy, CopyFrom, Rebuild, Near, Compare, CompareList, CompareViews, CompareMutViews, Empty }
pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("loose {}", s)).unwrap_or_else(|| "?".into())
}

/// 0 is like nothing, not even itself; 1 and 2 are equal; the others are ordinary.
fn class(v: i32) -> i32 {
    if v == 2 {
        1
    } else {
        v
    }
}
fn like(a: i32, b: i32) -> bool {
    a != 0 && b != 0 && class(a) == class(b)
}
fn rank(a: i32, b: i32) -> Option<Ordering> {
    if a == 0 || b == 0 {
        None
    } else {
        Some(class(a).cmp(&class(b)))
    }
}
/// The same element in the reference lists.
#[derive(Clone, Copy, Debug)]
pub struct M(i32);
impl PartialEq for M {
    fn eq(&self, o: &M) -> bool {
        like(self.0, o.0)
    }
}
impl PartialOrd for M {
    fn partial_cmp(&self, o: &M) -> Option<Ordering> {
        rank(self.0, o.0)
    }
}

pub trait LE: Clone + PartialEq + PartialOrd + std::fmt::Debug + 'static {
    const TRACKED: bool;
    fn mk(v: i32) -> Self;
    fn key(&self) -> u64;
    fn v(&self) -> i32;
}
#[derive(Clone)]
pub struct Loose(Tok);
impl LE for Loose {
    const TRACKED: bool = true;
    fn mk(v: i32) -> Self {
        Loose(Tok::mint(v))
    }
    fn key(&self) -> u64 {
        self.0.id() as u64
    }
    fn v(&self) -> i32 {
        self.0.val()
    }
}
impl std::fmt::Debug for Loose {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl PartialEq for Loose {
    fn eq(&self, o: &Loose) -> bool {
        let (a, b) = (self.v(), o.v());
        l().tick(F_EQ);
        like(a, b)
    }
}
impl PartialOrd for Loose {
    fn partial_cmp(&self, o: &Loose) -> Option<Ordering> {
        let (a, b) = (self.v(), o.v());
        l().tick(F_CMP);
        rank(a, b)
    }
}
impl LE for f64 {
    const TRACKED: bool = false;
    fn mk(v: i32) -> f64 {
        match v {
            0 => f64::NAN,
            1 => -0.0,
            2 => 0.0,
            3 => f64::INFINITY,
            v => 1.0 / v as f64,
        }
    }
    fn key(&self) -> u64 {
        self.to_bits()
    }
    fn v(&self) -> i32 {
        (0..8).find(|v| f64::mk(*v).to_bits() == self.to_bits()).unwrap_or(-1)
    }
}
// the reference order of the f64 values above follows their values, not their numbers
fn order_of<E: LE>(v: i32) -> i32 {
    if E::TRACKED {
        v
    } else {
        match v {
            3 => 9,
            v if v > 3 => 11 - v,
            v => v,
        }
    }
}
const VALUES: i32 = 6;

type Answers = [i8; 7];
fn code(o: Option<Ordering>) -> i8 {
    o.map(|o| o as i8).unwrap_or(9)
}
fn all_of<A: PartialEq<B> + PartialOrd<B>, B>(a: &A, b: &B) -> Answers {
    [(a == b) as i8, (a != b) as i8, code(a.partial_cmp(b)), (a < b) as i8, (a <= b) as i8, (a > b) as i8, (a >= b) as i8]
}
fn equal<A: PartialEq<B>, B>(a: &A, b: &B) -> Answers {
    let mut r = [-1; 7];
    r[0] = (a == b) as i8;
    r[1] = (a != b) as i8;
    r
}
fn blank(mut a: Answers) -> Answers {
    a[2..].fill(-1);
    a
}

/// A container of such elements: entries are (index, element); a list's indices are 0, 1, 2..
pub trait Con: Sized + Clone {
    type E: LE;
    const SPARSE: bool;
    const RING: bool = false;
    fn cap() -> usize;
    fn make() -> Self;
    fn rebuild(v: Vec<(usize, Self::E)>, how: usize) -> Self;
    fn size(&self) -> usize;
    fn entries(&self) -> Vec<(usize, u64)>;
    fn elems(&self) -> Vec<(usize, Self::E)>;
    fn put(&mut self, i: usize, e: Self::E);
    fn take(&mut self, i: usize) -> Option<Self::E>;
    fn set(&mut self, i: usize, e: Self::E);
    fn compare(&self, o: &Self) -> Answers;
    fn compare_list(&self, o: Vec<(usize, Self::E)>, how: usize) -> Answers;
    fn views(&self, _o: &Self, _r: [usize; 4], _how: usize) -> Answers {
        [-1; 7]
    }
    fn mut_views(&mut self, _o: Option<&mut Self>, _r: [usize; 4], _how: usize) -> Answers {
        [-1; 7]
    }
}
fn plain<E>(v: Vec<(usize, E)>) -> Vec<E> {
    v.into_iter().map(|x| x.1).collect()
}
macro_rules! list {
    ($t:ty, [$($g:tt)*], $cap:expr, |$c:ident, $i:ident, $e:ident| $set:expr, |$tc:ident, $ti:ident| $take:expr, |$pc:ident, $pe:ident| $front:expr, $ring:expr, { $($more:tt)* }) => {
        impl<E: LE, $($g)*> Con for $t {
            type E = E;
            const SPARSE: bool = false;
            const RING: bool = $ring;
            fn cap() -> usize {
                $cap
            }
            fn make() -> Self {
                Self::new()
            }
            fn rebuild(v: Vec<(usize, E)>, how: usize) -> Self {
                let v = plain(v);
                let n = v.len();
                match how % 3 {
                    0 => v.into_iter().collect(),
                    1 => {
                        let mut c = Self::new();
                        c.extend(v);
                        c
                    }
                    _ => {
                        // from the middle outwards
                        let mut c = Self::new();
                        let mut back = vec![];
                        for (i, e) in v.into_iter().enumerate() {
                            if i < n / 2 {
                                back.push(e)
                            } else {
                                c.extend(Some(e))
                            }
                        }
                        while let Some($pe) = back.pop() {
                            let $pc = &mut c;
                            $front
                        }
                        c
                    }
                }
            }
            fn size(&self) -> usize {
                self.len()
            }
            fn entries(&self) -> Vec<(usize, u64)> {
                self.iter().map(|e| e.key()).enumerate().collect()
            }
            fn elems(&self) -> Vec<(usize, E)> {
                self.iter().cloned().enumerate().collect()
            }
            fn put(&mut self, i: usize, e: E) {
                if i == 0 {
                    let ($pc, $pe) = (self, e);
                    $front
                } else if i == self.len() {
                    self.extend(Some(e))
                } else {
                    self.insert(i, e)
                }
            }
            fn take(&mut self, $ti: usize) -> Option<E> {
                let $tc = self;
                $take
            }
            fn set(&mut self, $i: usize, $e: E) {
                let $c = self;
                $set
            }
            fn compare(&self, o: &Self) -> Answers {
                all_of(self, o)
            }
            fn compare_list(&self, o: Vec<(usize, E)>, how: usize) -> Answers {
                let v = plain(o);
                match (how % 3, v.len()) {
                    (0, 2) => {
                        let mut v = v.into_iter();
                        equal(self, &[v.next().unwrap(), v.next().unwrap()])
                    }
                    (1, _) => equal(self, &v.into_boxed_slice()),
                    _ => equal(self, &v),
                }
            }
            $($more)*
        }
    };
}
list!(Chunk<E, N>, [const N: usize], N, |c, i, e| c[i] = e, |c, i| Some(c.remove(i)), |c, e| c.push_front(e), false, {});
list!(InlineArray<E, T>, [T: 'static], InlineArray::<E, T>::CAPACITY, |c, i, e| c[i] = e, |c, i| c.remove(i), |c, e| c.insert(0, e), false, {});
list!(RingBuffer<E, N>, [const N: usize], N, |c, i, e| c[i] = e, |c, i| Some(c.remove(i)), |c, e| c.push_front(e), true, {
    fn views(&self, o: &Self, r: [usize; 4], how: usize) -> Answers {
        let (a, b): (Slice<'_, E, N>, Slice<'_, E, N>) = (self.slice(r[0]..r[1]), o.slice(r[2]..r[3]));
        match how % 4 {
            0 => equal(&a, &b.iter().cloned().collect::<Vec<E>>()),
            1 if r[2] == 0 && r[3] == o.len() => equal(&a, o),
            2 if r[0] == 0 && r[1] == self.len() => equal(self, &b),
            _ => all_of(&a, &b),
        }
    }
    fn mut_views(&mut self, o: Option<&mut Self>, r: [usize; 4], how: usize) -> Answers {
        let Some(o) = o else {
            // two disjoint views of one buffer
            let (a, rest) = self.slice_mut(..).split_at(r[1]);
            let a = if r[0] == 0 { a } else { a.split_at(r[0]).1 };
            let b: SliceMut<'_, E, N> = rest.slice(r[2] - r[1]..r[3] - r[1]);
            return all_of(&a, &b);
        };
        let (la, lo) = (self.len(), o.len());
        match how % 7 {
            0 => equal(&self.slice_mut(r[0]..r[1]), &o.iter().skip(r[2]).take(r[3] - r[2]).cloned().collect::<Vec<E>>()),
            1 if r[2] == 0 && r[3] == lo => equal(&self.slice_mut(r[0]..r[1]), o),
            2 if r[0] == 0 && r[1] == la => equal(self, &o.slice_mut(r[2]..r[3])),
            3 => {
                let (a, b) = (self.slice_mut(r[0]..r[1]), o.slice(r[2]..r[3]));
                equal(&a, &b)
            }
            4 => {
                let (a, b) = (self.slice(r[0]..r[1]), o.slice_mut(r[2]..r[3]));
                equal(&a, &b)
            }
            5 => {
                let (a, b) = (self.slice_mut(r[0]..r[1]), o.slice_mut(r[2]..r[3]));
                all_of(&a.unmut(), &b.unmut())
            }
            _ => all_of(&self.slice_mut(r[0]..r[1]), &o.slice_mut(r[2]..r[3])),
        }
    }
});
impl<E: LE, const N: usize> Con for SparseChunk<E, N>
where
    bitmaps::BitsImpl<N>: bitmaps::Bits,
{
    type E = E;
    const SPARSE: bool = true;
    fn cap() -> usize {
        N
    }
    fn make() -> Self {
        SparseChunk::new()
    }
    fn rebuild(v: Vec<(usize, E)>, how: usize) -> Self {
        if how % 2 == 0 {
            let mut list: Vec<Option<E>> = (0..N).map(|_| None).collect();
            for (i, e) in v {
                list[i] = Some(e)
            }
            return list.into_iter().collect();
        }
        let mut c = SparseChunk::new();
        for (i, e) in v.into_iter().rev() {
            c.insert(i, e);
        }
        c
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn entries(&self) -> Vec<(usize, u64)> {
        SparseChunk::entries(self).map(|(i, e)| (i, e.key())).collect()
    }
    fn elems(&self) -> Vec<(usize, E)> {
        SparseChunk::entries(self).map(|(i, e)| (i, e.clone())).collect()
    }
    fn put(&mut self, i: usize, e: E) {
        self.insert(i, e);
    }
    fn take(&mut self, i: usize) -> Option<E> {
        self.remove(i)
    }
    fn set(&mut self, i: usize, e: E) {
        self[i] = e
    }
    fn compare(&self, o: &Self) -> Answers {
        equal(self, o)
    }
    fn compare_list(&self, o: Vec<(usize, E)>, how: usize) -> Answers {
        if how % 2 == 0 {
            equal(self, &o.into_iter().collect::<BTreeMap<usize, E>>())
        } else {
            let state: RandomState = unsafe { std::mem::transmute((7u64, 9u64)) };
            let mut m: HashMap<usize, E, RandomState> = HashMap::with_hasher(state);
            m.extend(o);
            equal(self, &m)
        }
    }
}

struct Row {
    name: &'static str,
    weight: u32,
    run: fn(&Case, &mut Stats, usize),
}
macro_rules! rows {
    ($( $w:literal $t:ty ),* $(,)?) => {
        const ROWS: &[Row] = &[$( Row { name: stringify!($t), weight: $w, run: |c, s, i| Sim::<$t>::new(s, i).run(c) } ),*];
    };
}
rows![
    2 Chunk<Loose, 1>, 4 Chunk<Loose, 4>, 4 Chunk<Loose, 7>, 1 Chunk<Loose, 64>, 2 Chunk<f64, 5>,
    2 InlineArray<Loose, [u64; 2]>, 4 InlineArray<Loose, [u64; 5]>, 1 InlineArray<Loose, [u64; 40]>, 2 InlineArray<f64, [u64; 6]>,
    2 RingBuffer<Loose, 1>, 6 RingBuffer<Loose, 4>, 6 RingBuffer<Loose, 7>, 1 RingBuffer<Loose, 64>, 3 RingBuffer<f64, 5>,
    2 SparseChunk<Loose, 1>, 5 SparseChunk<Loose, 4>, 4 SparseChunk<Loose, 7>, 2 SparseChunk<Loose, 64>, 1 SparseChunk<Loose, 130>,
    2 SparseChunk<f64, 5>,
];
pub fn config_name(c: usize) -> String {
    format!("loose {}", ROWS[c % ROWS.len()].name)
}
pub fn run(case: &Case, st: &mut Stats) {
    let i = case.config % ROWS.len();
    (ROWS[i].run)(case, st, i)
}

/// (index, identity, value)
type Model = Vec<(usize, u64, i32)>;
const SITES: usize = 3;
struct Sim<'s, C: Con> {
    c: Vec<C>,
    m: Vec<Model>,
    st: &'s mut Stats,
    config: usize,
}
impl<'s, C: Con> Sim<'s, C> {
    fn new(st: &'s mut Stats, config: usize) -> Self {
        Sim { c: (0..SITES).map(|_| C::make()).collect(), m: vec![vec![]; SITES], st, config }
    }
    fn limit() -> usize {
        C::cap().min(66)
    }
    fn bad(&self, class: &str, msg: String) {
        l().violation(class, format!("{}: {}", ROWS[self.config].name, msg))
    }
    fn reference(m: &[(usize, u64, i32)]) -> Vec<M> {
        m.iter().map(|x| M(order_of::<C::E>(x.2))).collect()
    }
    fn want(a: &[(usize, u64, i32)], b: &[(usize, u64, i32)]) -> Answers {
        if C::SPARSE {
            let map = |m: &[(usize, u64, i32)]| m.iter().map(|x| (x.0, M(order_of::<C::E>(x.2)))).collect::<BTreeMap<usize, M>>();
            equal(&map(a), &map(b))
        } else {
            all_of(&Self::reference(a), &Self::reference(b))
        }
    }
    fn adopt(c: &C) -> Model {
        c.elems().iter().zip(c.entries()).map(|((_, e), (i, k))| (i, k, e.v())).collect()
    }
    fn judge(&mut self, f: F, op: &Op, what: &str, r: Result<Answers, Pan>, want: Answers) {
        let fired = l().disarm();
        self.st.steps += 1;
        let n = (self.m[0].len() * 81 + self.m[1].len() * 9 + self.m[2].len()) as u64 ^ ((f as u64) << 16) ^ ((self.config as u64) << 24);
        match r {
            Ok(got) => {
                self.st.ops_effective += 1;
                self.st.state(mix(n ^ (want[2] as u8 as u64) << 32));
                let want = if got[2] == -1 && got[6] == -1 { blank(want) } else { want };
                l().ev(80, f as u64, got.iter().fold(0, |a, g| a * 12 + (*g + 1) as u64));
                if got != want {
                    self.bad("comparison", format!("{}: [==, !=, order, <, <=, >, >=] is {:?}, on plain lists {:?}", what, got, want))
                }
            }
            Err(Pan::Inj(k)) if fired && k == op.fk => self.st.state(mix(n ^ ((k as u64) << 40) ^ ((op.fnth as u64) << 48))),
            Err(p) => self.bad("spurious-panic", format!("{} panicked: {:?}", what, p)),
        }
    }
    fn op(&mut self, op: &Op) {
        let f = ALL[op.code as usize % ALL.len()];
        *self.st.per_op.entry(op_name(f as u8)).or_insert(0) += 1;
        let (x, y, z) = (op.x as usize, op.y as usize, op.z as usize);
        let (a, b) = (op.a as usize % SITES, op.b as usize % SITES);
        let n = self.m[a].len();
        match f {
            F::Put | F::PutFront | F::PutAt => {
                if n >= Self::limit() {
                    return;
                }
                let e = C::E::mk(x as i32 % VALUES);
                let k = e.key();
                let i = if C::SPARSE {
                    // the y-th free index
                    let free: Vec<usize> = (0..C::cap()).filter(|i| self.m[a].iter().all(|x| x.0 != *i)).collect();
                    free[if f == F::PutFront { 0 } else { y % free.len() }]
                } else {
                    match f {
                        F::Put => n,
                        F::PutFront => 0,
                        _ => y % (n + 1),
                    }
                };
                self.c[a].put(i, e);
                let m = &mut self.m[a];
                let at = if C::SPARSE { m.iter().filter(|x| x.0 < i).count() } else { i };
                m.insert(at, (i, k, x as i32 % VALUES));
                renumber::<C>(m);
                self.st.ops_effective += 1;
            }
            F::TakeAt | F::SetAt => {
                if n == 0 {
                    return;
                }
                let at = y % n;
                let i = self.m[a][at].0;
                if f == F::TakeAt {
                    drop(self.c[a].take(i));
                    self.m[a].remove(at);
                    renumber::<C>(&mut self.m[a]);
                } else {
                    let e = C::E::mk(x as i32 % VALUES);
                    self.m[a][at] = (i, e.key(), x as i32 % VALUES);
                    self.c[a].set(i, e);
                }
                self.st.ops_effective += 1;
            }
            F::Rotate => {
                if n == 0 || C::SPARSE {
                    return;
                }
                for _ in 0..y % (n + 1) {
                    let e = self.c[a].take(0).expect("an element at index 0");
                    self.c[a].put(n - 1, e);
                    self.m[a].rotate_left(1);
                }
                renumber::<C>(&mut self.m[a]);
            }
            F::Copy | F::CopyFrom => {
                if a == b {
                    return;
                }
                l().arm(op.fk, op.fnth as u32);
                let (c, d) = two(&mut self.c, a, b);
                let r = guarded(|| {
                    if f == F::Copy {
                        *d = c.clone();
                        true
                    } else {
                        d.clone_from(c);
                        true
                    }
                });
                let fired = l().disarm();
                match r {
                    Ok(_) => {
                        let m = Self::adopt(d);
                        let same = m.iter().map(|x| (x.0, x.2)).eq(self.m[a].iter().map(|x| (x.0, x.2)));
                        if !same {
                            self.bad("copy", format!("a copy holds {:?}, the original {:?}", m, self.m[a]));
                        }
                        self.m[b] = m
                    }
                    Err(Pan::Inj(k)) if fired && k == op.fk => {
                        // an interrupted assignment may leave the target with nothing or with the beginning
                        if f == F::CopyFrom {
                            self.m[b] = Self::adopt(d)
                        }
                    }
                    Err(p) => self.bad("spurious-panic", format!("copying panicked: {:?}", p)),
                }
            }
            F::Rebuild | F::Near => {
                if a == b {
                    return;
                }
                let mut v = self.c[a].elems();
                if f == F::Near {
                    near::<C>(&mut v, x, y, z)
                }
                let d = C::rebuild(v, z);
                self.c[b] = d;
                self.m[b] = Self::adopt(&self.c[b]);
                if f == F::Rebuild && !self.m[b].iter().map(|x| (x.0, x.2)).eq(self.m[a].iter().map(|x| (x.0, x.2))) {
                    self.bad("contents", format!("a container rebuilt from {:?} holds {:?}", self.m[a], self.m[b]))
                }
            }
            F::Compare => {
                let want = Self::want(&self.m[a], &self.m[b]);
                let what = format!("containers {:?} and {:?}{}", vals(&self.m[a]), vals(&self.m[b]), if a == b { " (the same one)" } else { "" });
                l().arm(op.fk, op.fnth as u32);
                let c = &self.c;
                let r = guarded(|| c[a].compare(&c[b]));
                self.judge(f, op, &what, r, want)
            }
            F::CompareList => {
                let mut v = self.c[b].elems();
                if x % 3 == 0 {
                    near::<C>(&mut v, x / 3, y, z)
                }
                let m: Model = v.iter().map(|(i, e)| (*i, e.key(), e.v())).collect();
                let want = Self::want(&self.m[a], &m);
                let what = format!("container {:?} and list {:?}", vals(&self.m[a]), vals(&m));
                l().arm(op.fk, op.fnth as u32);
                let c = &self.c;
                let r = guarded(|| c[a].compare_list(v, z));
                self.judge(f, op, &what, r, want)
            }
            F::CompareViews | F::CompareMutViews => {
                if !C::RING {
                    return;
                }
                let (na, nb) = (n, self.m[b].len());
                let cut = |k: usize, n: usize| if k % 4 == 0 { (0, n) } else { ord(k / 4 % (n + 1), k / 40 % (n + 1)) };
                let (mut r0, mut r1) = cut(x, na);
                let (mut r2, mut r3) = cut(y, nb);
                let within = f == F::CompareMutViews && a == b;
                if within {
                    // one buffer, two disjoint parts
                    let mut p = [r0, r1, r2, r3];
                    p.sort_unstable();
                    [r0, r1, r2, r3] = p
                }
                let r = [r0, r1, r2, r3];
                let want = Self::want(&self.m[a][r0..r1], &self.m[b][r2..r3]);
                let what = format!("views {}..{} of {:?} and {}..{} of {:?}", r0, r1, vals(&self.m[a]), r2, r3, vals(&self.m[b]));
                l().arm(op.fk, op.fnth as u32);
                let c = &mut self.c;
                let r = guarded(|| {
                    if f == F::CompareViews {
                        c[a].views(&c[b], r, z)
                    } else if a == b {
                        c[a].mut_views(None, r, z)
                    } else {
                        let (p, q) = two(c, a, b);
                        p.mut_views(Some(q), r, z)
                    }
                });
                self.judge(f, op, &what, r, want)
            }
            F::Empty => {
                self.c[a] = C::make();
                self.m[a].clear();
            }
        }
        self.check("after the operation");
    }
    fn check(&mut self, when: &str) {
        if l().viol.is_some() {
            return;
        }
        let mut count = 0;
        for (c, m) in self.c.iter().zip(&self.m) {
            count += m.len();
            let have = c.entries();
            if c.size() != m.len() || !have.iter().copied().eq(m.iter().map(|x| (x.0, x.1))) {
                self.bad("contents", format!("{}: a container holds {:?}, the model {:?}", when, have, m));
                return;
            }
        }
        if C::E::TRACKED && l().live as usize != count {
            self.bad("leak", format!("{}: {} elements are alive, {} are in containers", when, l().live, count))
        }
    }
    fn run(mut self, case: &Case) {
        for op in &case.ops {
            if let Err(p) = guarded(|| self.op(op)) {
                l().disarm();
                self.bad("spurious-panic", format!("{} panicked: {:?}", op_name(op.code), p))
            }
            if l().viol.is_some() {
                std::mem::forget(std::mem::take(&mut self.c));
                return;
            }
        }
        self.c.clear();
        self.m.clear();
        self.check("after everything was dropped");
    }
}
fn ord(a: usize, b: usize) -> (usize, usize) {
    (a.min(b), a.max(b))
}
fn vals(m: &[(usize, u64, i32)]) -> Vec<(usize, i32)> {
    m.iter().map(|x| (x.0, x.2)).collect()
}
fn renumber<C: Con>(m: &mut Model) {
    if !C::SPARSE {
        for (i, x) in m.iter_mut().enumerate() {
            x.0 = i
        }
    }
}
/// Change one element, drop one, or add one.
fn near<C: Con>(v: &mut Vec<(usize, C::E)>, x: usize, y: usize, z: usize) {
    let e = C::E::mk((x / 5) as i32 % VALUES);
    let n = v.len();
    match x % 5 {
        0 | 1 if n > 0 => v[y % n].1 = e,
        2 if n > 0 => drop(v.remove(y % n)),
        3 if n < Sim::<C>::limit() => {
            let used: Vec<usize> = v.iter().map(|x| x.0).collect();
            let free: Vec<usize> = (0..C::cap().min(66)).filter(|i| !used.contains(i)).collect();
            let i = if C::SPARSE { free[z / 7 % free.len()] } else { n };
            v.push((i, e));
            v.sort_by_key(|x| x.0);
        }
        _ if n > 1 && !C::SPARSE => v.rotate_left(1),
        _ => {}
    }
}
fn two<T>(v: &mut [T], a: usize, b: usize) -> (&mut T, &mut T) {
    if a < b {
        let (p, q) = v.split_at_mut(b);
        (&mut p[a], &mut q[0])
    } else {
        let (p, q) = v.split_at_mut(a);
        (&mut q[0], &mut p[b])
    }
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, 0x105e ^ prop.len() as u64, index);
    let weights: Vec<u32> = ROWS.iter().map(|r| r.weight).collect();
    let config = r.weighted(&weights);
    let ring = ROWS[config].name.starts_with("Ring");
    let mut s = |w: u32| if r.chance(250) { 0 } else { w };
    let views = if ring { 8 } else { 0 };
    let table = [
        (F::Put, 10), (F::PutFront, s(5)), (F::PutAt, s(4)), (F::TakeAt, s(4)), (F::SetAt, s(4)), (F::Rotate, s(4)), (F::Copy, s(3)),
        (F::CopyFrom, s(2)), (F::Rebuild, s(4)), (F::Near, s(4)), (F::Compare, 12), (F::CompareList, s(6)), (F::CompareViews, s(views)),
        (F::CompareMutViews, s(views)), (F::Empty, s(1)),
    ];
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let bad = [0, 150, 350][r.below(3) as usize];
    // few distinct values make equal prefixes common
    let palette: Vec<u16> = (0..1 + r.below(3)).map(|_| r.below(VALUES as u64) as u16).collect();
    let nops = 10 + r.below(60) as usize;
    let mut ops = vec![];
    for n in 0..nops {
        let f = if n < 3 { F::Put } else { table[r.weighted(&weights)].0 };
        let mut op = Op {
            code: f as u8,
            a: r.below(256) as u8,
            b: r.below(256) as u8,
            x: r.below(60_000) as u16,
            y: r.below(60_000) as u16,
            z: r.below(60_000) as u16,
            fk: 0,
            fnth: 0,
        };
        if matches!(f, F::Put | F::PutFront | F::PutAt | F::SetAt) && !r.chance(100) {
            op.x = *r.pick(&palette)
        }
        if r.chance(bad) {
            op.fk = match f {
                F::Compare | F::CompareViews | F::CompareMutViews => *r.pick(&[F_EQ, F_CMP]),
                F::CompareList => F_EQ,
                F::Copy | F::CopyFrom => F_CLONE,
                _ => 0,
            };
            if op.fk != 0 {
                op.fnth = match r.below(3) {
                    0 => 0,
                    1 => r.below(4),
                    _ => r.below(12),
                } as u8
            }
        }
        ops.push(op);
    }
    Case { prop: prop.into(), engine: "loose".into(), config, seed, index, ops }
}
