//! Containers generated from unreliable byte sources (`Arbitrary`). The reference is an independent
//! decode of the same bytes: "is there another one?", then one element, until the source says stop
//! or the capacity is reached. Elements log when they are decoded; decoding can fail or panic at
//! any element.
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use crate::seq::config::Block;
#[allow(unused_imports)]
use array_ops::{Array, HasLength};
use arbitrary::{Arbitrary, Error, Result as ARes, Unstructured};
use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
use std::cell::Cell;

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! { Source, Truncate, Draw, DrawRest, Again, Use, Copy, Drop, Peek, Several, Hint }
pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("gen {}", s)).unwrap_or_else(|| "?".into())
}

// ---------------------------------------------------------------- decoding elements
const STYLES: usize = 6;
const STYLE_NAMES: [&str; STYLES] = [
    "one padded byte",
    "two strict bytes",
    "nothing consumed",
    "rejects some values",
    "varying length",
    "a slice choice",
];
thread_local! {
    static STYLE: Cell<usize> = const { Cell::new(0) };
    /// The reference decode counts elements down to its own copy of the planned fault.
    static REF_LEFT: Cell<i64> = const { Cell::new(-1) };
    static REF_KIND: Cell<u8> = const { Cell::new(0) };
}
fn raw(u: &mut Unstructured) -> ARes<i32> {
    Ok(match STYLE.with(|s| s.get()) {
        0 => u.arbitrary::<u8>()? as i32,
        1 => {
            let b = u.bytes(2)?;
            b[0] as i32 * 256 + b[1] as i32
        }
        2 => 5,
        3 => {
            let b = u.arbitrary::<u8>()?;
            if b % 23 == 7 {
                return Err(Error::IncorrectFormat);
            }
            if b % 61 == 9 {
                return Err(Error::EmptyChoose);
            }
            b as i32
        }
        4 => {
            let n = u.arbitrary::<u8>()? as usize % 4;
            u.bytes(n)?.iter().fold(n as i32, |h, b| h * 31 + *b as i32)
        }
        _ => *u.choose(&[3, 1, 4, 1, 5, 9, 2, 6])?,
    })
}
/// One element decoded by the library's caller: may be told to fail.
fn decode(u: &mut Unstructured) -> ARes<i32> {
    let v = raw(u)?;
    l().tick(F_ARBPANIC);
    if l().arb_fails() {
        return Err(Error::NotEnoughData);
    }
    Ok(v)
}
macro_rules! arb {
    ($($t:ty),*) => { $(
        impl<'a> Arbitrary<'a> for $t {
            fn arbitrary(u: &mut Unstructured<'a>) -> ARes<Self> {
                let v = decode(u)?;
                let e = <$t>::mint(v);
                l().yielded.push(e.id());
                Ok(e)
            }
            fn size_hint(_: usize) -> (usize, Option<usize>) {
                (0, Some(4))
            }
        }
    )* };
}
arb!(Tok, Odd, Big, Zst, Zal, Cop);

#[derive(Debug, PartialEq, Clone)]
enum Stop {
    Err(String),
    Panic,
}
/// What decoding the same bytes should give.
#[derive(Debug, PartialEq, Clone)]
enum Tree {
    Leaf(i32),
    Node(Vec<(usize, Tree)>),
}
impl Tree {
    fn leaves(&self, out: &mut Vec<i32>) {
        match self {
            Tree::Leaf(v) => out.push(*v),
            Tree::Node(k) => k.iter().for_each(|(_, t)| t.leaves(out)),
        }
    }
}
fn ref_leaf(u: &mut Unstructured, zst: bool) -> Result<Tree, Stop> {
    let v = raw(u).map_err(|e| Stop::Err(format!("{:?}", e)))?;
    let n = REF_LEFT.with(|c| c.replace(c.get() - 1));
    if n == 0 {
        return Err(match REF_KIND.with(|k| k.get()) {
            F_ARB => Stop::Err(format!("{:?}", Error::NotEnoughData)),
            _ => Stop::Panic,
        });
    }
    Ok(Tree::Leaf(if zst { 0 } else { v }))
}
fn ref_many(u: &mut Unstructured, cap: usize, one: &mut dyn FnMut(&mut Unstructured) -> Result<Option<Tree>, Stop>) -> Result<Tree, Stop> {
    let mut kids = vec![];
    for n in 0..cap {
        if !u.arbitrary::<bool>().unwrap_or(false) {
            break;
        }
        if let Some(t) = one(u)? {
            kids.push((n, t))
        }
    }
    Ok(Tree::Node(kids))
}

// ---------------------------------------------------------------- what can be generated
pub trait Gen: for<'a> Arbitrary<'a> + Clone + PartialEq + 'static {
    fn reference(u: &mut Unstructured) -> Result<Tree, Stop>;
    fn tree(&self) -> Tree;
    fn ids(&self, out: &mut Vec<u32>);
    fn fresh(n: i32) -> Self;
    /// Exercise a generated container: fill it up, then empty it down to its first `keep`.
    fn exercise(&mut self, n: usize);
    fn hinted() -> bool {
        true
    }
}
macro_rules! leaf {
    ($($t:ty),*) => { $(
        impl Gen for $t {
            fn reference(u: &mut Unstructured) -> Result<Tree, Stop> {
                ref_leaf(u, <$t>::ZST)
            }
            fn tree(&self) -> Tree {
                Tree::Leaf(self.val())
            }
            fn ids(&self, out: &mut Vec<u32>) {
                out.push(self.id())
            }
            fn fresh(n: i32) -> Self {
                <$t>::mint(n)
            }
            fn exercise(&mut self, _: usize) {}
        }
    )* };
}
leaf!(Tok, Odd, Big, Zst, Zal, Cop);

fn expect(ok: bool, what: &str) {
    if !ok {
        l().violation("generated", what.to_string())
    }
}
macro_rules! sequence {
    ($t:ty, $cap:expr, $new:expr, [$($g:tt)*], [$($w:tt)*], $pop:expr) => {
        impl<P: Gen, $($g)*> Gen for $t $($w)* {
            fn reference(u: &mut Unstructured) -> Result<Tree, Stop> {
                ref_many(u, $cap, &mut |u| P::reference(u).map(Some))
            }
            fn tree(&self) -> Tree {
                let v: Vec<(usize, Tree)> = self.iter().map(|e| e.tree()).enumerate().collect();
                expect(v.len() == self.len(), "a generated container's length and contents disagree");
                expect(v.len() <= $cap, "a generated container exceeds its capacity");
                expect(self.is_full() == (v.len() == $cap), "a generated container's fullness is wrong");
                for (i, t) in &v {
                    expect(self.get(*i).map(|e| e.tree()).as_ref() == Some(t), "a generated container's elements are not at their indices");
                }
                expect(self.get(v.len()).is_none(), "a generated container has an element past its end");
                Tree::Node(v)
            }
            fn ids(&self, out: &mut Vec<u32>) {
                self.iter().for_each(|e| e.ids(out))
            }
            fn fresh(n: i32) -> Self {
                let mut c: Self = $new;
                if $cap > 0 && n % 3 > 0 {
                    c.push(P::fresh(n / 2));
                }
                c
            }
            fn exercise(&mut self, n: usize) {
                let Tree::Node(old) = self.tree() else { return };
                let limit = $cap.min(old.len() + 70);
                let mut want = old.clone();
                while want.len() < limit {
                    let e = P::fresh((n + want.len()) as i32);
                    want.push((want.len(), e.tree()));
                    self.push(e);
                }
                expect(self.tree() == Tree::Node(want.clone()), "a generated container filled to capacity holds something else");
                let keep = n % (limit + 1);
                while want.len() > keep {
                    let (_, t) = want.pop().unwrap();
                    let e: Option<P> = $pop(self);
                    expect(e.map(|e| e.tree()) == Some(t), "a generated container gave back another element");
                }
                for k in 0..want.len() {
                    if (n >> (k % 8)) & 1 == 1 {
                        let e = P::fresh(n as i32 ^ k as i32);
                        want[k].1 = e.tree();
                        self[k] = e;
                    } else {
                        self[k].exercise(n / 3 + k);
                        want[k].1 = self[k].tree();
                    }
                }
                expect(self.tree() == Tree::Node(want), "a generated container edited in place holds something else");
            }
        }
    };
}
trait Push<A> {
    fn push(&mut self, a: A);
}
impl<A, const N: usize> Push<A> for Chunk<A, N> {
    fn push(&mut self, a: A) {
        self.push_back(a)
    }
}
impl<A, const N: usize> Push<A> for RingBuffer<A, N> {
    fn push(&mut self, a: A) {
        self.push_back(a)
    }
}
sequence!(Chunk<P, N>, N, Chunk::new(), [const N: usize], [where bitmaps::BitsImpl<N>: bitmaps::Bits], |c: &mut Chunk<P, N>| if c.is_empty() { None } else { Some(c.pop_back()) });
sequence!(RingBuffer<P, N>, N, RingBuffer::new(), [const N: usize], [where bitmaps::BitsImpl<N>: bitmaps::Bits], |c: &mut RingBuffer<P, N>| c.pop_back());
sequence!(InlineArray<P, T>, InlineArray::<P, T>::CAPACITY, InlineArray::new(), [T: 'static], [], |c: &mut InlineArray<P, T>| c.pop());

impl<P: Gen, const N: usize> Gen for SparseChunk<P, N>
where
    bitmaps::BitsImpl<N>: bitmaps::Bits,
{
    fn reference(u: &mut Unstructured) -> Result<Tree, Stop> {
        ref_many(u, N, &mut |u| {
            if u.arbitrary::<bool>().map_err(|e| Stop::Err(format!("{:?}", e)))? {
                P::reference(u).map(Some)
            } else {
                Ok(None)
            }
        })
    }
    fn tree(&self) -> Tree {
        let v: Vec<(usize, Tree)> = self.entries().map(|(i, e)| (i, e.tree())).collect();
        expect(v.len() == self.len(), "a generated sparse chunk's length and contents disagree");
        expect(v.iter().all(|(i, _)| *i < N), "a generated sparse chunk has an index beyond its capacity");
        expect(self.is_full() == (v.len() == N), "a generated sparse chunk's fullness is wrong");
        let mut got = vec![];
        for i in 0..N {
            if let Some(e) = self.get(i) {
                got.push((i, e.tree()))
            }
        }
        expect(got == v, "a generated sparse chunk's entries and lookups disagree");
        Tree::Node(v)
    }
    fn ids(&self, out: &mut Vec<u32>) {
        self.iter().for_each(|e| e.ids(out))
    }
    fn fresh(n: i32) -> Self {
        let mut c = SparseChunk::new();
        c.insert(n as usize % N, P::fresh(n / 2));
        c
    }
    fn exercise(&mut self, n: usize) {
        let Tree::Node(old) = self.tree() else { return };
        let mut want: std::collections::BTreeMap<usize, Tree> = old.into_iter().collect();
        for i in 0..N {
            if self.get(i).is_some() != want.contains_key(&i) {
                expect(false, "a generated sparse chunk's presence is inconsistent")
            }
            if !want.contains_key(&i) {
                let e = P::fresh((n + i) as i32);
                want.insert(i, e.tree());
                expect(self.insert(i, e).is_none(), "inserting at a free index of a generated sparse chunk displaced something");
            }
        }
        expect(self.is_full(), "a generated sparse chunk cannot be filled");
        for i in 0..N {
            if (n >> (i % 11)) & 1 == 1 {
                let t = want.remove(&i);
                expect(self.remove(i).map(|e| e.tree()) == t, "a generated sparse chunk gave back another element");
            }
        }
        expect(self.tree() == Tree::Node(want.into_iter().collect()), "a generated sparse chunk holds something else after use");
    }
}

/// Elements which contain their own container again: a tree. Decoding is cut at a few levels (here, by the
/// element), so that looking at the whole tree stays cheap; the size hint is not.
thread_local!(static LEVEL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
struct Deeper;
impl Deeper {
    fn go() -> Option<Deeper> {
        LEVEL.with(|n| (n.get() < 4).then(|| n.set(n.get() + 1))).map(|_| Deeper)
    }
}
impl Drop for Deeper {
    fn drop(&mut self) {
        LEVEL.with(|n| n.set(n.get() - 1))
    }
}
macro_rules! recursive {
    ($($name:ident, $c:ty;)*) => { $(
        #[derive(Clone, PartialEq)]
        pub enum $name {
            Leaf(Tok),
            Node(Box<$c>),
        }
        impl<'a> Arbitrary<'a> for $name {
            fn arbitrary(u: &mut Unstructured<'a>) -> ARes<Self> {
                if let Some(_d) = Deeper::go() {
                    if u.arbitrary()? {
                        return Ok($name::Node(Box::new(u.arbitrary()?)));
                    }
                }
                Ok($name::Leaf(u.arbitrary()?))
            }
            fn size_hint(depth: usize) -> (usize, Option<usize>) {
                arbitrary::size_hint::recursion_guard(depth, |depth| {
                    let kids = arbitrary::size_hint::or(<$c>::size_hint(depth), Tok::size_hint(depth));
                    arbitrary::size_hint::and((0, Some(1)), kids)
                })
            }
        }
        impl Gen for $name {
            fn reference(u: &mut Unstructured) -> Result<Tree, Stop> {
                if let Some(_d) = Deeper::go() {
                    if u.arbitrary::<bool>().map_err(|e| Stop::Err(format!("{:?}", e)))? {
                        return <$c>::reference(u);
                    }
                }
                Tok::reference(u)
            }
            fn tree(&self) -> Tree {
                match self {
                    $name::Leaf(t) => t.tree(),
                    $name::Node(c) => c.tree(),
                }
            }
            fn ids(&self, out: &mut Vec<u32>) {
                match self {
                    $name::Leaf(t) => t.ids(out),
                    $name::Node(c) => c.ids(out),
                }
            }
            fn fresh(n: i32) -> Self {
                if n % 4 == 2 {
                    $name::Node(Box::new(<$c>::fresh(n / 2)))
                } else {
                    $name::Leaf(Tok::fresh(n))
                }
            }
            fn exercise(&mut self, n: usize) {
                if let $name::Node(c) = self {
                    c.exercise(n / 2)
                }
            }
        }
    )* };
}
recursive! {
    TreeC, Chunk<TreeC, 3>;
    TreeR, RingBuffer<TreeR, 3>;
    TreeS, SparseChunk<TreeS, 3>;
    TreeI, InlineArray<TreeI, [u64; 8]>;
}

/// A generated container kept alive while other runs of the decoder fail around it.
trait Held {
    fn check(&self) -> bool;
    fn ids(&self) -> &[u32];
    fn using(&mut self, n: usize);
    fn copy(&self) -> Box<dyn Held>;
    fn name(&self) -> &'static str;
}
struct Keep<C: Gen> {
    c: C,
    t: Tree,
    ids: Vec<u32>,
    name: &'static str,
}
impl<C: Gen> Keep<C> {
    fn boxed(c: C, name: &'static str) -> Box<dyn Held> {
        let t = c.tree();
        let mut ids = vec![];
        c.ids(&mut ids);
        Box::new(Keep { c, t, ids, name })
    }
}
impl<C: Gen> Held for Keep<C> {
    fn check(&self) -> bool {
        let mut ids = vec![];
        self.c.ids(&mut ids);
        self.c.tree() == self.t && ids == self.ids
    }
    fn ids(&self) -> &[u32] {
        &self.ids
    }
    fn using(&mut self, n: usize) {
        self.c.exercise(n);
        self.t = self.c.tree();
        self.ids.clear();
        self.c.ids(&mut self.ids);
    }
    fn copy(&self) -> Box<dyn Held> {
        let c = self.c.clone();
        expect(c.tree() == self.t && c == self.c && self.c == c, "a copy of a generated container differs from it");
        Self::boxed(c, self.name)
    }
    fn name(&self) -> &'static str {
        self.name
    }
}

struct Sim<'s> {
    src: Vec<u8>,
    pos: usize,
    held: Vec<Box<dyn Held>>,
    st: &'s mut Stats,
    style: usize,
}
type DrawFn = fn(&mut Sim, &Op, &'static str, bool, bool);
struct KindRow {
    name: &'static str,
    draw: DrawFn,
    hint: fn() -> (usize, Option<usize>),
    weight: u32,
}
macro_rules! kinds {
    ($( $w:literal $t:ty ),* $(,)?) => {
        const KINDS: &[KindRow] = &[$( KindRow { name: stringify!($t), draw: draw::<$t>, hint: || <$t as Arbitrary>::size_hint(0), weight: $w } ),*];
    };
}
kinds![
    3 Chunk<Tok, 1>, 4 Chunk<Tok, 4>, 3 Chunk<Odd, 3>, 2 Chunk<Big, 5>, 2 Chunk<Zst, 4>, 2 Chunk<Cop, 8>, 3 Chunk<Tok, 64>,
    3 RingBuffer<Tok, 1>, 4 RingBuffer<Tok, 4>, 3 RingBuffer<Odd, 3>, 2 RingBuffer<Big, 5>, 2 RingBuffer<Zst, 4>,
    2 RingBuffer<Cop, 8>, 3 RingBuffer<Tok, 64>,
    3 SparseChunk<Tok, 1>, 4 SparseChunk<Tok, 4>, 3 SparseChunk<Odd, 7>, 2 SparseChunk<Big, 5>, 2 SparseChunk<Zst, 4>, 3 SparseChunk<Tok, 64>,
    3 SparseChunk<Tok, 130>,
    3 InlineArray<Tok, [u64; 2]>, 4 InlineArray<Tok, [u64; 5]>, 2 InlineArray<Odd, [u8; 27]>, 2 InlineArray<Big, [Block; 4]>,
    2 InlineArray<Cop, [u64; 7]>, 3 InlineArray<Tok, [u64; 40]>, 1 InlineArray<Tok, [u8; 12]>, 1 InlineArray<Zst, [u64; 2]>, 1 InlineArray<Zal, [crate::seq::config::Block; 2]>,
    2 Chunk<Chunk<Tok, 3>, 4>, 2 Chunk<InlineArray<Tok, [u64; 4]>, 3>, 2 RingBuffer<SparseChunk<Odd, 3>, 3>, 2 SparseChunk<RingBuffer<Tok, 2>, 5>,
    2 InlineArray<Chunk<Tok, 2>, [u64; 20]>, 1 Chunk<RingBuffer<SparseChunk<Tok, 2>, 2>, 3>, 1 Chunk<Tok, 300>, 1 RingBuffer<Tok, 300>, 1 SparseChunk<Tok, 300>,
    1 InlineArray<Tok, [u64; 301]>,
    1 Chunk<TreeC, 4>, 1 RingBuffer<TreeR, 4>, 1 SparseChunk<TreeS, 4>, 1 InlineArray<TreeI, [u64; 8]>,
];

fn draw<C: Gen>(sim: &mut Sim, op: &Op, name: &'static str, rest: bool, keep: bool) {
    let bytes = sim.src[sim.pos..].to_vec();
    // reference first: it touches nothing but the bytes
    REF_KIND.with(|k| k.set(op.fk));
    REF_LEFT.with(|c| c.set(if matches!(op.fk, F_ARB | F_ARBPANIC) { op.fnth as i64 } else { -1 }));
    let mut u = Unstructured::new(&bytes);
    let want = C::reference(&mut u);
    let want_left = u.len();
    let live = (l().live, l().z_live());
    l().yielded.clear();
    l().arm(op.fk, op.fnth as u32);
    let mut left = 0;
    let got = guarded(|| {
        if rest {
            C::arbitrary_take_rest(Unstructured::new(&bytes))
        } else {
            let mut u = Unstructured::new(&bytes);
            let r = C::arbitrary(&mut u);
            left = u.len();
            r
        }
    });
    let dropfault = l().disarm() && op.fk == F_DROP;
    sim.st.steps += 1;
    let mut outcome = 0u64;
    match (&got, &want) {
        (Ok(Ok(c)), Ok(t)) => {
            let have = c.tree();
            if have != *t {
                l().violation("generated", format!("{} from {:?}: holds {:?}, the source says {:?}", name, &bytes[..bytes.len().min(80)], have, t));
            }
            let mut ids = vec![];
            c.ids(&mut ids);
            let log = l().yielded.clone();
            if ids != log {
                l().violation("generated", format!("{}: holds tokens {:?}, decoded {:?}", name, ids, log));
            }
            let (mut a, mut b) = (vec![], vec![]);
            have.leaves(&mut a);
            t.leaves(&mut b);
            if a.len() != ids.len() || a != b {
                l().violation("generated", format!("{}: {} elements from {} decoded", name, a.len(), b.len()));
            }
            if !rest && left != want_left {
                l().violation("source-position", format!("{}: left {} bytes of the source, expected {}", name, left, want_left));
            }
            // every container this type can produce fits the input length it announces
            if !rest {
                let (_, hi) = C::size_hint(0);
                let used = bytes.len() - left;
                if hi.map_or(false, |h| used > h) {
                    l().violation("size-hint", format!("{} of {} elements took {} bytes, announced at most {}", name, a.len(), used, hi.unwrap_or(0)));
                }
            }
            l().ev(60, a.len() as u64, left as u64);
            outcome = 1 + a.len() as u64;
            sim.st.ops_effective += 1;
        }
        (Ok(Err(e)), Err(Stop::Err(w))) => {
            if format!("{:?}", e) != *w {
                l().violation("error-lost", format!("{}: decoding failed with {} but the container reported {:?}", name, w, e));
            }
            l().ev(61, l().yielded.len() as u64, 0);
            outcome = 1000 + l().yielded.len() as u64;
            if op.fk == 0 {
                l().count_fault(F_ARB)
            }
            sim.st.ops_effective += 1;
        }
        (Err(Pan::Inj(F_ARBPANIC)), Err(Stop::Panic)) => {
            outcome = 2000 + l().yielded.len() as u64;
        }
        // a destructor may panic while the partial container is cleaned up: nothing may be
        // destroyed twice
        (Err(Pan::Inj(F_DROP)), Err(_)) if dropfault => {
            outcome = 3000;
            let mut ids: std::collections::HashSet<u32> = Default::default();
            let mut zs = 0;
            for h in &sim.held {
                zs += h.ids().iter().filter(|i| **i == 0).count() as isize;
                ids.extend(h.ids().iter().copied());
            }
            l().abandon_except(&|id| ids.contains(&id));
            let extra = l().z_live() - zs;
            if extra < 0 {
                l().violation("double-destroy", format!("{}: elements of other containers destroyed", name))
            } else {
                l().z_limbo += extra as usize
            }
        }
        (g, w) => {
            let g = match g {
                Ok(Ok(_)) => "a container".to_string(),
                Ok(Err(e)) => format!("error {:?}", e),
                Err(p) => format!("panic {:?}", p),
            };
            l().violation("generated", format!("{}: got {}, the source says {:?}", name, g, w));
        }
    }
    let kind = KINDS.iter().position(|k| k.name == name).unwrap_or(99) as u64;
    sim.st.state(mix(outcome ^ (kind << 32) ^ ((sim.style as u64) << 40) ^ ((rest as u64) << 50)));
    if !matches!(&got, Ok(Ok(_))) && !dropfault && l().viol.is_none() {
        let now = (l().live, l().z_live());
        if now != live {
            l().violation("leak", format!("{}: decoding failed and {} elements remain (were {})", name, now.0 as isize + now.1, live.0 as isize + live.1));
        }
    }
    if keep {
        sim.pos = if rest { sim.src.len() } else { sim.src.len() - if matches!(&got, Ok(_)) { left } else { want_left } };
        if sim.pos >= sim.src.len() && !bytes.is_empty() {
            l().count_fault(F_TRUNC)
        }
    }
    if let Ok(Ok(c)) = got {
        if keep {
            sim.held.push(Keep::boxed(c, name))
        } else {
            drop(c)
        }
    }
}

impl Sim<'_> {
    fn op(&mut self, op: &Op) {
        let f = ALL[op.code as usize % ALL.len()];
        *self.st.per_op.entry(op_name(f as u8)).or_insert(0) += 1;
        let k = op.a as usize % KINDS.len();
        let row = &KINDS[k];
        match f {
            F::Source => {
                // odd bytes mean "another one": bias them so runs reach capacity
                let len = match op.y % 7 {
                    0 => 0,
                    1 => op.y as usize / 7 % 4,
                    2 | 3 => op.y as usize / 7 % 20,
                    4 | 5 => op.y as usize / 7 % 90,
                    _ => op.y as usize / 7 % 1500,
                };
                let bias = [0u64, 1, 2, 3, 5, 30][op.z as usize % 6];
                self.src = (0..len)
                    .map(|i| {
                        let h = mix(op.x as u64 * 1031 + i as u64);
                        let b = (h >> 8) as u8;
                        if bias > 0 && h % (bias + 1) != 0 {
                            b | 1
                        } else {
                            b
                        }
                    })
                    .collect();
                self.pos = 0;
            }
            F::Truncate => {
                let rest = self.src.len() - self.pos;
                if rest > 0 {
                    self.src.truncate(self.pos + op.x as usize % rest);
                    l().count_fault(F_TRUNC);
                }
            }
            F::Draw => (row.draw)(self, op, row.name, false, true),
            F::DrawRest => (row.draw)(self, op, row.name, true, true),
            // the same bytes again: the first result is thrown away, the second kept
            F::Again => {
                (row.draw)(self, op, row.name, op.b & 1 == 1, false);
                (row.draw)(self, &Op { fk: 0, ..*op }, row.name, op.b & 1 == 1, true)
            }
            F::Peek => (row.draw)(self, op, row.name, op.b & 1 == 1, false),
            F::Several => {
                for n in 0..3usize {
                    let r = &KINDS[(k + n * (op.b as usize + 1)) % KINDS.len()];
                    (r.draw)(self, op, r.name, n == 2, true);
                }
            }
            F::Hint => {
                if let Err(p) = guarded(|| {
                    let (lo, hi) = (row.hint)();
                    expect(hi.map_or(true, |h| lo <= h), "a container's size hint is empty");
                    expect(lo == 0, "a container claims to need bytes, though an empty source makes an empty container");
                }) {
                    l().violation("spurious-panic", format!("size_hint of {} panicked: {:?}", row.name, p))
                }
            }
            F::Use | F::Copy | F::Drop => {
                if self.held.is_empty() {
                    return;
                }
                let i = op.x as usize % self.held.len();
                let h = &mut self.held[i];
                let r = match f {
                    F::Use => guarded(|| h.using(op.y as usize)),
                    F::Copy => {
                        let mut new = None;
                        let r = guarded(|| new = Some(h.copy()));
                        self.held.extend(new);
                        r
                    }
                    _ => {
                        let h = self.held.swap_remove(i);
                        guarded(|| drop(h))
                    }
                };
                if let Err(p) = r {
                    l().violation("spurious-panic", format!("using a generated container panicked: {:?}", p))
                }
                self.st.ops_effective += 1;
            }
        }
        while self.held.len() > 6 {
            let h = self.held.remove(0);
            if let Err(p) = guarded(|| drop(h)) {
                l().violation("spurious-panic", format!("dropping a generated container panicked: {:?}", p))
            }
        }
        self.check("after the operation");
    }
    fn check(&mut self, when: &str) {
        if l().viol.is_some() {
            return;
        }
        for h in &self.held {
            match guarded(|| h.check()) {
                Ok(true) => {}
                r => l().violation("generated", format!("{}: a {} generated earlier changed ({:?})", when, h.name(), r)),
            }
        }
    }
    fn totals(&mut self) {
        if l().viol.is_some() {
            return;
        }
        if l().live != 0 || l().z_live() != 0 {
            l().violation("leak", format!("{} elements alive after everything was dropped", l().live as isize + l().z_live()));
        }
    }
}

pub fn config_name(c: usize) -> String {
    format!("generated; elements decode: {}", STYLE_NAMES[c % STYLES])
}
pub fn run(case: &Case, st: &mut Stats) {
    let style = case.config % STYLES;
    STYLE.with(|s| s.set(style));
    let mut sim = Sim { src: vec![], pos: 0, held: vec![], st, style };
    for op in &case.ops {
        sim.op(op);
        if l().viol.is_some() {
            std::mem::forget(std::mem::take(&mut sim.held));
            return;
        }
    }
    let h = std::mem::take(&mut sim.held);
    if let Err(p) = guarded(|| drop(h)) {
        l().violation("spurious-panic", format!("dropping generated containers panicked: {:?}", p));
    }
    sim.totals();
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, 0xa4b1 ^ prop.len() as u64, index);
    let config = r.below(STYLES as u64) as usize;
    let kw: Vec<u32> = KINDS.iter().map(|k| k.weight * (r.below(6) as u32)).collect();
    let table = [
        (F::Source, 4 + r.below(8) as u32), (F::Truncate, r.below(4) as u32), (F::Draw, 16), (F::DrawRest, r.below(9) as u32), (F::Again, r.below(6) as u32),
        (F::Use, r.below(8) as u32), (F::Copy, r.below(4) as u32), (F::Drop, r.below(4) as u32), (F::Peek, r.below(6) as u32),
        (F::Several, r.below(6) as u32), (F::Hint, 1),
    ];
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let bad = [0, 300, 600][r.below(3) as usize];
    let nops = 3 + r.below(22) as usize;
    let mut ops = vec![];
    for n in 0..nops {
        let f = if n == 0 { F::Source } else { table[r.weighted(&weights)].0 };
        let mut op = Op {
            code: f as u8,
            a: r.weighted(&kw) as u8,
            b: r.below(256) as u8,
            x: r.below(60_000) as u16,
            y: r.below(60_000) as u16,
            z: r.below(60_000) as u16,
            fk: 0,
            fnth: 0,
        };
        if r.chance(bad) && matches!(f, F::Draw | F::DrawRest | F::Again | F::Peek | F::Several) {
            op.fk = *r.pick(&[F_ARB, F_ARB, F_ARBPANIC, F_ARBPANIC, F_DROP]);
            op.fnth = match r.below(4) {
                0 => 0,
                1 => r.below(4),
                2 => r.below(10),
                _ => r.below(66),
            } as u8;
        }
        ops.push(op);
    }
    Case { prop: prop.into(), engine: "gen".into(), config, seed, index, ops }
}
