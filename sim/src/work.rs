//! Work: what an operation does besides giving the right answer. Time is simulated: one unit per
//! element that changes its address, per call into element code and per element asked of a source.
//! The documentation gives each operation a bound; a history of interrupted and refused operations
//! brings the containers into every position first.
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use crate::seq::config::Block;
use crate::seq::rig::{Kind, SeqC};
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::collections::HashMap;

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! { PushBack, PushFront, PopBack, PopFront, Insert, Remove, Set, DropLeft, DropRight, SplitOff, Append, DrainFront, DrainBack,
      FromFront, FromBack, Clear, Extend, InsertMany, InsertOrdered, Search, Sort, Copy, Refill, Look }
pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("work {}", s)).unwrap_or_else(|| "?".into())
}

struct Row {
    name: &'static str,
    weight: u32,
    run: fn(&Case, &mut Stats, usize),
}
macro_rules! rows {
    ($( $w:literal $t:ty ),* $(,)?) => {
        const ROWS: &[Row] = &[$( Row { name: stringify!($t), weight: $w, run: |c, s, i| Sim::<$t>::new(s, i).run(c) } ),*];
    };
}
rows![
    2 Chunk<Tok, 3>, 3 Chunk<Tok, 8>, 4 Chunk<Tok, 24>, 2 Chunk<Odd, 16>, 2 Chunk<Big, 12>, 3 Chunk<Tok, 100>, 1 Chunk<Tok, 600>,
    2 RingBuffer<Tok, 3>, 3 RingBuffer<Tok, 8>, 4 RingBuffer<Tok, 24>, 2 RingBuffer<Odd, 16>, 2 RingBuffer<Big, 12>, 3 RingBuffer<Tok, 100>,
    1 RingBuffer<Tok, 600>,
    2 InlineArray<Tok, [u64; 4]>, 4 InlineArray<Tok, [u64; 25]>, 2 InlineArray<Odd, [u8; 99]>, 2 InlineArray<Big, [Block; 9]>,
    3 InlineArray<Tok, [u64; 101]>,
];
pub fn config_name(c: usize) -> String {
    format!("work {}", ROWS[c % ROWS.len()].name)
}
pub fn run(case: &Case, st: &mut Stats) {
    let i = case.config % ROWS.len();
    (ROWS[i].run)(case, st, i)
}

const SLOTS: usize = 2;
type Places = HashMap<u32, usize>;
struct Sim<'s, C: SeqC> {
    c: Vec<Box<C>>,
    /// Offset of the first storage place in a chunk.
    base: usize,
    st: &'s mut Stats,
    config: usize,
}
fn places<C: SeqC>(c: &C) -> Places {
    c.it().map(|e| (e.id(), e as *const C::E as usize)).collect()
}
/// The work done between two looks at a container, in elements that were there before and after.
fn moved(a: &Places, b: &Places) -> usize {
    a.iter().filter(|(k, p)| b.get(k).is_some_and(|q| q != *p)).count()
}
fn log2(n: usize) -> u64 {
    64 - (n as u64).leading_zeros() as u64
}

/// What an operation may cost: `None` where nothing is promised.
#[derive(Default)]
struct Bound {
    /// relocations in the container itself and in the other one
    own: Option<usize>,
    other: Option<usize>,
    compares: u64,
    clones: u64,
    drops: Option<u64>,
    asks: u64,
}

impl<'s, C: SeqC> Sim<'s, C> {
    fn new(st: &'s mut Stats, config: usize) -> Self {
        let mut c: Vec<Box<C>> = (0..SLOTS).map(|_| Box::new(C::make())).collect();
        // a full chunk begins at the first place
        for i in 0..C::cap() {
            c[0].push_back(C::E::mint(i as i32))
        }
        let base = c[0].get_at(0).map(|e| e as *const C::E as usize - &*c[0] as *const C as usize).unwrap_or(0);
        c[0].clear_all();
        Sim { c, base, st, config }
    }
    fn bad(&self, class: &str, msg: String) {
        l().violation(class, format!("{}: {}", ROWS[self.config].name, msg))
    }
    /// Free places before the first and behind the last element.
    fn room(&self, k: usize) -> (usize, usize) {
        let c = &self.c[k];
        let n = c.clen();
        match C::KIND {
            Kind::Chunk if n > 0 => {
                let size = std::mem::size_of::<C::E>();
                let first = c.get_at(0).unwrap() as *const C::E as usize;
                let left = first.wrapping_sub(&**c as *const C as usize + self.base) / size;
                let left = left.min(C::cap() - n);
                (left, C::cap() - n - left)
            }
            _ => (C::cap() - n, C::cap() - n),
        }
    }
    fn op(&mut self, op: &Op) {
        let f = ALL[op.code as usize % ALL.len()];
        let inline = C::KIND == Kind::Inline;
        if inline
            && matches!(
                f,
                F::PushFront | F::PopFront | F::DropLeft | F::DropRight | F::Append | F::DrainFront | F::DrainBack | F::FromFront | F::FromBack
                    | F::InsertMany | F::InsertOrdered
            )
        {
            return;
        }
        *self.st.per_op.entry(op_name(f as u8)).or_insert(0) += 1;
        let (k, j) = (op.a as usize % SLOTS, (op.a as usize + 1) % SLOTS);
        let (x, y, z) = (op.x as usize, op.y as usize, op.z as usize);
        let n = self.c[k].clen();
        let (cap, on) = (C::cap(), self.c[j].clen());
        let (front, back) = self.room(k);
        let ring = C::KIND == Kind::Ring;
        let free = cap - n;
        let i = sel(op.x, n + 1, n, cap);
        let count = y % (n + 1);
        let (before, obefore) = (places(&*self.c[k]), places(&*self.c[j]));
        let mut b = Bound { own: Some(0), other: Some(0), drops: Some(0), ..Default::default() };
        let mut ordered = true;
        if matches!(f, F::InsertOrdered | F::Search | F::Sort) {
            let v: Vec<i32> = self.c[k].it().map(|e| e.val()).collect();
            ordered = v.windows(2).all(|w| w[0] <= w[1])
        }
        let mut new: Option<C> = None;
        let val = (mix(z as u64) % 50) as i32;
        let wave = y % 5;
        let extra = wave.min(free) + (z % 11 == 0) as usize * 2;
        let items: std::collections::VecDeque<C::E> = match f {
            F::Extend | F::InsertMany => (0..extra).map(|d| C::E::mint(val + d as i32)).collect(),
            _ => Default::default(),
        };
        let one = match f {
            F::PushBack | F::PushFront | F::Insert | F::Set | F::InsertOrdered | F::Search => Some(C::E::mint(val)),
            _ => None,
        };
        let spec = IterSpec { actual: items.len(), report: items.len(), report2: items.len(), endless: false };
        let calls = l().calls;
        l().arm(op.fk, op.fnth as u32);
        let (lo, hi) = self.c.split_at_mut(1);
        let (c, o) = if k == 0 { (&mut *lo[0], &mut *hi[0]) } else { (&mut *hi[0], &mut *lo[0]) };
        let r = guarded(|| match f {
            F::PushBack => c.push_back(one.unwrap()),
            F::PushFront => c.push_front(one.unwrap()),
            // an element handed back is kept: destroying it is not the library's work
            F::PopBack => std::mem::forget(c.pop_back()),
            F::PopFront => std::mem::forget(c.pop_front()),
            F::Insert => c.insert_at(i, one.unwrap()),
            F::Remove => std::mem::forget(c.remove_at(i)),
            F::Set => std::mem::forget(c.set_at(i, one.unwrap())),
            F::DropLeft => c.drop_l(i),
            F::DropRight => c.drop_r(i),
            F::SplitOff => new = Some(c.split(i)),
            F::Append => c.append_all(o),
            F::DrainFront => c.dff(o, y % (on + 1).min(free + 1)),
            F::DrainBack => c.dfb(o, y % (on + 1).min(free + 1)),
            F::FromFront => new = Some(C::from_f(c, count)),
            F::FromBack => new = Some(C::from_b(c, count)),
            F::Clear => c.clear_all(),
            F::Extend => c.extend(SimIter::new(items, spec)),
            F::InsertMany => c.insert_many(i, SimIter::new(items, spec)),
            F::InsertOrdered => c.insert_ord(one.unwrap()),
            F::Search => {
                let e = one.unwrap();
                let _ = c.bsearch(&e);
                std::mem::forget(e)
            }
            F::Sort => c.sort_it(0),
            F::Copy => new = Some(c.clone()),
            F::Refill => {
                let mut k = 0;
                while !c.cfull() && k < y % (cap + 1) {
                    c.push_back(C::E::mint(k as i32));
                    k += 1
                }
            }
            F::Look => {
                let mut s = c.clen() + c.cempty() as usize + c.cfull() as usize;
                if n > 0 {
                    s += (c.get_at(x % n).is_some() && c.get_mut_at(y % n).is_some()) as usize;
                    let _ = (c.index_at(x % n), c.first_last());
                    c.swap_at(x % n, x % n);
                }
                s += c.it().len();
                s += c.it_mut().rev().count();
                std::hint::black_box(s);
            }
        });
        let fired = l().disarm();
        let after = l().calls;
        let done = |kind: u8| after[kind as usize] - calls[kind as usize];
        self.st.steps += 1;
        let state = mix((f as u64) ^ (n as u64) << 8 ^ (front as u64) << 20 ^ (self.config as u64) << 32 ^ (op.fk as u64) << 40 ^ r.is_ok() as u64);
        self.st.state(state);
        match r {
            Err(Pan::Inj(_)) if fired => {
                return;
            }
            Err(_) => {
                l().count_fault(F_REJECT);
                self.st.rejects += 1;
                // a refusal may have to give up what it was handed, but has no reason to move anything
                b.drops = None;
                b.asks = 600;
                b.compares = 0;
                if matches!(f, F::Extend | F::InsertMany | F::Refill) {
                    b.own = None
                }
            }
            Ok(()) => {
                self.st.ops_effective += 1;
                match f {
                    F::PushBack if back == 0 => b.own = None,
                    F::PushFront if front == 0 => b.own = None,
                    // a chunk may first move everything to where there is room
                    F::Insert => b.own = match back {
                        _ if C::KIND == Kind::Chunk => None,
                        0 => None,
                        _ => Some(i.max(n.saturating_sub(i))),
                    },
                    F::Remove => b.own = Some(i.max(n.saturating_sub(i))),
                    // a place that is not there cannot keep the new element
                    F::Set => b.drops = Some((i >= n) as u64),
                    F::DropLeft => b.drops = Some(i as u64),
                    F::DropRight => b.drops = Some((n - i) as u64),
                    F::Append | F::DrainFront | F::DrainBack if !ring => b.own = None,
                    F::Clear => b.drops = Some(n as u64),
                    F::Extend => {
                        b.asks = extra as u64 + 4;
                        if C::KIND == Kind::Chunk && back < extra {
                            b.own = None
                        }
                    }
                    F::InsertMany => {
                        b.asks = extra as u64 + 4;
                        b.own = None
                    }
                    F::InsertOrdered => {
                        b.own = None;
                        b.compares = 4 * log2(n) + 6
                    }
                    F::Search => b.compares = 4 * log2(n) + 6,
                    F::Sort => {
                        b.own = None;
                        b.compares = u64::MAX
                    }
                    F::Copy => b.clones = n as u64,
                    F::Refill => b.own = if C::KIND == Kind::Chunk { None } else { Some(0) },
                    _ => {}
                }
                if !ordered {
                    b.compares = u64::MAX
                }
            }
        }
        let (own, other) = (moved(&before, &places(&*self.c[k])), moved(&obefore, &places(&*self.c[j])));
        let units = own as u64 + other as u64 + done(F_CLONE) + done(F_DROP) + done(F_CMP) + done(F_EQ) + done(F_NEXT);
        self.st.steps += units;
        l().ev(90, f as u64, units);
        let at = format!("{:?} with {} of {} elements ({} places free before, {} behind; index {}, count {})", f, n, cap, front, back, i, count);
        if b.own.is_some_and(|m| own > m) {
            self.bad("relocation", format!("{}: {} elements changed place, at most {} need to", at, own, b.own.unwrap()))
        }
        if b.other.is_some_and(|m| other > m) {
            self.bad("relocation", format!("{}: {} elements changed place that stay in the other container", at, other))
        }
        // comparison goes through equality, order or both
        if b.compares != u64::MAX && done(F_CMP) + done(F_EQ) > b.compares {
            self.bad("comparisons", format!("{}: {} comparisons, at most {} are needed", at, done(F_CMP) + done(F_EQ), b.compares))
        }
        if done(F_CLONE) > b.clones {
            self.bad("clones", format!("{}: {} elements were cloned, at most {} need to be", at, done(F_CLONE), b.clones))
        }
        if b.drops.is_some_and(|m| done(F_DROP) > m) {
            self.bad("drops", format!("{}: {} elements were destroyed, at most {} need to be", at, done(F_DROP), b.drops.unwrap()))
        }
        if done(F_NEXT) > b.asks {
            self.bad("asks", format!("{}: the source was asked {} times for {} elements", at, done(F_NEXT), extra))
        }
        if done(F_HASH) + done(F_FMT) > 0 {
            self.bad("calls", format!("{}: elements were hashed or printed", at))
        }
        match (f, new) {
            // what was split off goes on as the other container
            (F::SplitOff | F::FromFront | F::FromBack, Some(c)) => *self.c[j] = c,
            (_, new) => drop(new),
        }
    }
    fn run(mut self, case: &Case) {
        for op in &case.ops {
            let r = guarded(|| self.op(op));
            l().disarm();
            if let Err(p) = r {
                self.bad("spurious-panic", format!("{} panicked: {:?}", op_name(op.code), p))
            }
            if l().viol.is_some() {
                std::mem::forget(self.c);
                return;
            }
        }
    }
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, 0x3042 ^ prop.len() as u64, index);
    let weights: Vec<u32> = ROWS.iter().map(|r| r.weight).collect();
    let config = r.weighted(&weights);
    let mut s = |w: u32| if r.chance(300) { 0 } else { w };
    let table = [
        (F::PushBack, 8), (F::PushFront, s(7)), (F::PopBack, s(4)), (F::PopFront, s(5)), (F::Insert, s(5)), (F::Remove, s(5)), (F::Set, s(2)),
        (F::DropLeft, s(3)), (F::DropRight, s(3)), (F::SplitOff, s(3)), (F::Append, s(3)), (F::DrainFront, s(4)), (F::DrainBack, s(4)),
        (F::FromFront, s(3)), (F::FromBack, s(3)), (F::Clear, s(1)), (F::Extend, s(4)), (F::InsertMany, s(3)), (F::InsertOrdered, s(4)),
        (F::Search, s(3)), (F::Sort, s(4)), (F::Copy, s(2)), (F::Refill, 3), (F::Look, s(1)),
    ];
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let (wild, bad) = ([0, 30, 150][r.below(3) as usize], [0, 100, 250][r.below(3) as usize]);
    let nops = 8 + r.below(50) as usize;
    let mut ops = vec![];
    for n in 0..nops {
        let f = if n == 0 { F::Refill } else { table[r.weighted(&weights)].0 };
        let mut op = Op {
            code: f as u8,
            a: r.below(256) as u8,
            b: 0,
            x: if r.chance(wild) { WILD + r.below(5000) as u16 } else { r.below(60_000) as u16 },
            y: r.below(60_000) as u16,
            z: r.below(60_000) as u16,
            fk: 0,
            fnth: 0,
        };
        if f != F::Look && r.chance(300) {
            // small indices and the last ones are where an operation has least to do
            op.x = r.below(4) as u16
        }
        if r.chance(bad) {
            op.fk = match f {
                F::DropLeft | F::DropRight | F::Clear => F_DROP,
                F::InsertOrdered | F::Search | F::Sort => F_CMP,
                F::Copy => F_CLONE,
                F::Extend | F::InsertMany => F_NEXT,
                _ => 0,
            };
            op.fnth = r.below(6) as u8;
        }
        ops.push(op);
    }
    Case { prop: prop.into(), engine: "work".into(), config, seed, index, ops }
}
