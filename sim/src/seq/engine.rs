//! Interprets a case's operations against a real container world (through `RigDyn`) and against a
//! plain list model, and checks every outcome. Contains all expectations for sequence containers.
use super::rig::*;
use crate::case::*;
use crate::ledger::*;
use crate::rng::mix;
use std::collections::{HashMap, HashSet, VecDeque};

/// Operation codes above the plain calls.
pub const OP_FILL: u8 = 100;
pub const OP_ROTATE: u8 = 101;
pub const OP_HEAL: u8 = 102;
pub const OP_TWIN: u8 = 103;
pub const OP_SORTED: u8 = 104;
pub const OP_RESET: u8 = 105;

pub const ALL_F: [F; 56] = [
    F::Mint, F::HandToArg, F::HandDrop, F::Reset, F::PushBack, F::PushFront, F::PopBack, F::PopFront,
    F::Insert, F::Remove, F::Set, F::Get, F::IndexAt, F::IndexMutAt, F::FirstLast, F::Swap, F::Clear,
    F::DropLeft, F::DropRight, F::Split, F::Append, F::DrainFromFront, F::DrainFromBack, F::FromFront,
    F::FromBack, F::DrainFrom, F::CollectFrom, F::FromIter, F::Extend, F::ExtendRefs, F::ExtendRefsOf,
    F::InsertFrom, F::InsertOrdered, F::CloneTo, F::CloneFrom, F::PoolClone, F::SubCopy, F::Rel, F::EqVec,
    F::Sort, F::BSearch, F::View, F::Drain, F::DrainInto, F::IterWalk, F::IterMutWalk, F::IntoIter,
    F::FlightStep, F::FlightEnd, F::FlightTo, F::Unit, F::Pair, F::FromInline, F::MoveSite, F::DropSite,
    F::ForgetSite,
];

pub fn op_name(code: u8) -> String {
    match code {
        OP_FILL => "fill".into(),
        OP_ROTATE => "rotate".into(),
        OP_HEAL => "heal".into(),
        OP_TWIN => "twin".into(),
        OP_SORTED => "sorted".into(),
        OP_RESET => "reset".into(),
        c => ALL_F.get(c as usize).map(|f| format!("{:?}", f)).unwrap_or_else(|| format!("op{}", c)),
    }
}

pub fn supported(k: Kind, f: F) -> bool {
    use F::*;
    match k {
        Kind::Chunk => true,
        Kind::Ring => !matches!(f, FromInline),
        Kind::Inline => !matches!(
            f,
            PushFront | PopFront | DropLeft | DropRight | Append | DrainFromFront | DrainFromBack | FromFront
                | FromBack | DrainFrom | CollectFrom | InsertFrom | InsertOrdered | PoolClone | Unit | Pair | FromInline
        ),
    }
}

pub const VALS: u16 = 12;
const SOFT: usize = 40;

struct Out {
    res: Result<Ret, Pan>,
    fired: bool,
    fk: u8,
    chaos: bool,
    yielded: Vec<u32>,
    clones: Vec<u32>,
    ids: Vec<u32>,
    n: Vec<i64>,
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
enum V {
    Ok,
    Reject,
    Inj,
    Bad,
}

pub struct Sim<'s> {
    rig: Box<dyn RigDyn>,
    info: Info,
    m: Vec<Vec<u32>>,
    hand: Vec<u32>,
    fl: Vec<VecDeque<u32>>,
    st: &'s mut Stats,
    config: usize,
    depth: u32,
    limbo_z: bool,
    drops: u64,
}

struct ModelIter<'a>(&'a mut VecDeque<u32>);
impl<'a> Iterator for ModelIter<'a> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        self.0.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.len(), Some(self.0.len()))
    }
}
impl<'a> DoubleEndedIterator for ModelIter<'a> {
    fn next_back(&mut self) -> Option<u32> {
        self.0.pop_back()
    }
}
impl<'a> ExactSizeIterator for ModelIter<'a> {}

/// Run the same walk over the model. Returns what was recorded and what was taken.
fn model_walk(q: &mut VecDeque<u32>, pat: u64, steps: usize, how: Option<usize>) -> (Vec<i64>, Vec<u32>) {
    let mut n = vec![];
    let mut got = vec![];
    {
        let mut it = ModelIter(q);
        let mut take = |e: u32| {
            got.push(e);
            e as i64
        };
        walk(&mut it, pat, steps, &mut n, &mut take);
        if let Some(h) = how {
            let h = h % N_ENDS;
            if h != END_PANIC && h != END_FORGET {
                finish(it, h, usize::MAX, &mut n, &mut take);
            }
        }
    }
    (n, got)
}

fn is_subseq(sub: &[u32], of: &[u32]) -> bool {
    let mut i = 0;
    for x in of {
        if i < sub.len() && sub[i] == *x {
            i += 1;
        }
    }
    i == sub.len()
}

fn short(v: &[u32]) -> String {
    if v.len() > 24 {
        format!("{:?}..({})", &v[..24], v.len())
    } else {
        format!("{:?}", v)
    }
}

impl<'s> Sim<'s> {
    pub fn new(rig: Box<dyn RigDyn>, st: &'s mut Stats, config: usize) -> Self {
        let info = rig.info();
        Sim { rig, info, m: vec![vec![]; SITES], hand: vec![], fl: vec![], st, config, depth: 0, limbo_z: false, drops: 0 }
    }

    /// Runs the whole case. Any violation is left in the ledger.
    pub fn run(mut self, case: &Case) {
        for op in &case.ops {
            self.step(op);
            if l().viol.is_some() {
                return;
            }
        }
        for s in 0..SITES {
            self.check(s, true);
        }
        self.totals("end of run");
        if l().viol.is_some() {
            return;
        }
        if let Err(p) = guarded(|| self.rig.teardown()) {
            l().violation("spurious-panic", format!("dropping the containers panicked: {:?}", p));
            return;
        }
        for s in 0..SITES {
            self.m[s].clear();
        }
        self.hand.clear();
        self.fl.clear();
        self.totals("after dropping everything");
        if !self.rig.canary() {
            l().violation("canary", "memory outside a container was overwritten".into());
        }
    }

    // ------------------------------------------------------------ bookkeeping
    fn val(&self, id: u32) -> i32 {
        l().val(id)
    }
    fn vals(&self, s: usize) -> Vec<i32> {
        self.m[s].iter().map(|i| self.val(*i)).collect()
    }
    fn room(&self, s: usize) -> usize {
        self.info.cap - self.m[s].len()
    }
    fn total(&self) -> usize {
        self.m.iter().map(|v| v.len()).sum::<usize>() + self.hand.len() + self.fl.iter().map(|v| v.len()).sum::<usize>()
    }
    fn totals(&mut self, when: &str) {
        if l().viol.is_some() || !self.info.tracked {
            return;
        }
        let drops = l().fault_counts[F_DROP as usize];
        if drops != self.drops {
            // what a panicking destructor cut short may have left elements behind for good
            self.drops = drops;
            self.abandon_rest();
        }
        let want = self.total() as isize;
        let have = if self.info.zst { l().z_live() } else { l().live as isize };
        if have != want {
            let class = if have > want { "leak" } else { "lost" };
            let mut msg = format!("{}: {} elements alive, {} accounted for", when, have, want);
            if !self.info.zst {
                let acc: HashSet<u32> = self.accounted();
                let un: Vec<u32> = (1..l().slots.len() as u32)
                    .filter(|i| l().slots[*i as usize].st == St::Live && l().slots[*i as usize].tracked && !acc.contains(i))
                    .collect();
                let dead: Vec<u32> = acc.iter().copied().filter(|i| l().is_dead(*i)).collect();
                msg = format!("{}; leaked {} destroyed-but-listed {}", msg, short(&un), short(&dead));
            }
            l().violation(class, msg);
        }
    }
    fn accounted(&self) -> HashSet<u32> {
        let mut s: HashSet<u32> = HashSet::new();
        for v in &self.m {
            s.extend(v.iter());
        }
        s.extend(self.hand.iter());
        for v in &self.fl {
            s.extend(v.iter());
        }
        s
    }
    /// Elements the property allows to be abandoned here become tolerated leaks.
    fn abandon_rest(&mut self) {
        if self.info.zst {
            let extra = l().z_live() - self.total() as isize;
            if extra > 0 {
                l().z_limbo += extra as usize;
                self.limbo_z = true;
            }
        } else if self.info.tracked {
            let acc = self.accounted();
            l().abandon_except(&|i| acc.contains(&i));
        }
    }
    fn snap(&mut self, s: usize, deep: bool) -> Option<Snap> {
        let rig = &mut self.rig;
        match guarded(|| rig.snap(s, deep)) {
            Ok(sn) => {
                if l().viol.is_some() {
                    None
                } else {
                    Some(sn)
                }
            }
            Err(p) => {
                l().violation("spurious-panic", format!("reading container {} panicked: {:?}", s, p));
                None
            }
        }
    }
    fn check(&mut self, s: usize, deep: bool) {
        if l().viol.is_some() {
            return;
        }
        let sn = match self.snap(s, deep) {
            Some(x) => x,
            None => return,
        };
        let m = &self.m[s];
        if sn.ids != *m || sn.len != m.len() {
            l().violation(
                "contents",
                format!("container {} holds {} (len {}), expected {}", s, short(&sn.ids), sn.len, short(m)),
            );
            return;
        }
        if sn.empty != m.is_empty() || sn.full != (m.len() == self.info.cap) {
            l().violation(
                "contents",
                format!("container {} with {} of {}: is_empty {} is_full {}", s, m.len(), self.info.cap, sn.empty, sn.full),
            );
        }
    }
    /// Re-read a site whose exact contents the model does not dictate; `of` is what it may hold.
    fn resync(&mut self, s: usize, of: &[u32], what: &str) -> bool {
        let sn = match self.snap(s, true) {
            Some(x) => x,
            None => return false,
        };
        if sn.ids.len() != sn.len {
            l().violation("contents", format!("{}: length {} but {} elements", what, sn.len, sn.ids.len()));
            return false;
        }
        let ok = if self.info.zst { sn.ids.len() <= of.len() } else { is_subseq(&sn.ids, of) };
        if !ok {
            l().violation("contents", format!("{}: container {} holds {}, not an ordered part of {}", what, s, short(&sn.ids), short(of)));
            return false;
        }
        self.m[s] = sn.ids;
        true
    }
    fn exec(&mut self, c: &Call, op: &Op) -> Out {
        let lg = l();
        lg.yielded.clear();
        lg.clones.clear();
        lg.yield_hand.clear();
        lg.yield_n.clear();
        lg.ev(100 + c.f as u64, (c.a * 4 + c.b) as u64, c.x as u64 ^ (c.y as u64) << 20);
        lg.arm(op.fk, op.fnth as u32);
        let res = self.rig.call(c);
        let lg = l();
        let chaos = lg.fault == F_CHAOS && lg.fired;
        let fired = lg.disarm();
        let (ids, n) = match &res {
            Ok(r) => (r.ids.clone(), r.n.clone()),
            Err(_) => (lg.yield_hand.clone(), lg.yield_n.clone()),
        };
        lg.ev(
            5,
            match &res {
                Ok(_) => 0,
                Err(Pan::Inj(k)) => 16 + *k as u64,
                Err(Pan::Lib(_)) => 1,
            },
            n.len() as u64,
        );
        for i in &ids {
            lg.ev(6, *i as u64, 0);
        }
        if lg.trace {
            eprintln!("call {:?} -> {:?}", c, res);
        }
        self.st.steps += 1;
        Out { res, fired, fk: op.fk, chaos, yielded: lg.yielded.clone(), clones: lg.clones.clone(), ids, n }
    }
    fn verdict(&mut self, o: &Out, ok: bool, what: &str) -> V {
        if l().viol.is_some() {
            return V::Bad;
        }
        match &o.res {
            Ok(_) if ok => V::Ok,
            Ok(_) => {
                l().violation("accepted", format!("{} should have been refused", what));
                V::Bad
            }
            Err(Pan::Lib(_)) if !ok => {
                l().count_fault(F_REJECT);
                self.st.rejects += 1;
                V::Reject
            }
            Err(Pan::Lib(m)) => {
                if o.chaos {
                    V::Inj
                } else {
                    l().violation("spurious-panic", format!("{} panicked: {}", what, m));
                    V::Bad
                }
            }
            Err(Pan::Inj(_)) => V::Inj,
        }
    }
    fn expect_n(&mut self, o: &Out, n: &[i64], what: &str) {
        if o.n != n && l().viol.is_none() {
            l().violation("answer", format!("{} answered {:?}, expected {:?}", what, o.n, n));
        }
    }
    fn expect_ids(&mut self, o: &Out, ids: &[u32], what: &str) {
        if o.ids != ids && l().viol.is_none() {
            l().violation("answer", format!("{} gave elements {}, expected {}", what, short(&o.ids), short(ids)));
        }
    }
    /// An element to pass in: one handed back earlier, or a new one.
    fn arg(&mut self, op: &Op) -> u32 {
        let k = self.hand.len();
        if k > 0 && op.z % 3 == 0 {
            let i = (op.z / 3) as usize % k;
            let _ = self.rig.call(&Call::new(F::HandToArg, 0).x(i));
            self.hand.remove(i)
        } else {
            match self.rig.call(&Call::new(F::Mint, 0).x((op.z % VALS) as usize)) {
                Ok(r) => r.ids[0],
                Err(_) => 0,
            }
        }
    }
    fn reset(&mut self, s: usize, how: usize) {
        let r = self.rig.call(&Call::new(F::Reset, s).x(how));
        if let Err(p) = r {
            l().violation("spurious-panic", format!("dropping a container panicked: {:?}", p));
        }
        self.m[s].clear();
    }
    /// A freshly built container landed in `b` as copies of `src`.
    fn copied(&mut self, b: usize, src: &[u32], o: &Out, what: &str) {
        if l().viol.is_some() {
            return;
        }
        if self.info.tracked {
            if o.clones.len() != src.len() {
                l().violation("clones", format!("{}: {} clone calls for {} elements", what, o.clones.len(), src.len()));
                return;
            }
            if !self.info.zst {
                let parents: Vec<u32> = o.clones.iter().map(|c| l().slots[*c as usize].parent).collect();
                let same_set = {
                    let mut a = parents.clone();
                    let mut b = src.to_vec();
                    a.sort();
                    b.sort();
                    a == b
                };
                if !same_set {
                    l().violation("clones", format!("{}: cloned {} instead of {}", what, short(&parents), short(src)));
                    return;
                }
                let by: HashMap<u32, u32> = o.clones.iter().zip(parents.iter()).map(|(c, p)| (*p, *c)).collect();
                self.m[b] = src.iter().map(|s| by[s]).collect();
            } else {
                self.m[b] = src.to_vec();
            }
        } else {
            if !self.info.dup && (o.clones.len() != src.len() || !src.iter().all(|s| o.clones.contains(s))) {
                l().violation("clones", format!("{}: cloned {} instead of {}", what, short(&o.clones), short(src)));
                return;
            }
            self.m[b] = src.to_vec();
        }
    }
    fn state(&mut self, op: &Op, a: usize, o: Option<&Out>, off: usize, len: usize) {
        let outcome = match o {
            None => 0,
            Some(o) => match &o.res {
                Ok(_) => 1,
                Err(Pan::Inj(k)) => 10 + *k as u64,
                Err(Pan::Lib(_)) => 2,
            },
        };
        let nth = o.map(|o| if o.fired { op.fnth.min(8) as u64 } else { 0 }).unwrap_or(0);
        let h = mix(
            (self.config as u64) << 48
                ^ (op.code as u64) << 40
                ^ (len.min(200) as u64) << 24
                ^ ((off & 0xff) as u64) << 12
                ^ outcome << 4
                ^ nth << 32,
        );
        self.st.state(h);
        let _ = a;
    }
    fn vals_for(&self, n: usize, z: u16) -> Vec<i32> {
        (0..n).map(|i| (mix(z as u64 * 977 + i as u64) % VALS as u64) as i32).collect()
    }
    fn sites(&self, op: &Op) -> (usize, usize) {
        let a = op.a as usize % SITES;
        let b = (a + 1 + op.b as usize % (SITES - 1)) % SITES;
        (a, b)
    }
    fn soft_full(&self, s: usize) -> bool {
        self.info.cap > 4096 && self.m[s].len() >= SOFT
    }
    /// Like `sel`, but with out-of-range requests on practically unbounded arrays kept to lengths
    /// that are truly out of range.
    fn pick(&self, x: u16, valid: usize, s: usize) -> usize {
        sel(x, valid, self.m[s].len(), self.info.cap)
    }

    // ------------------------------------------------------------ one operation
    pub fn step(&mut self, op: &Op) {
        if l().viol.is_some() {
            return;
        }
        let (a, b) = self.sites(op);
        match op.code {
            OP_FILL => return self.fill(op, a),
            OP_ROTATE => return self.rotate(op, a),
            OP_HEAL => return self.heal(op, a),
            OP_TWIN => return self.twin(op, a, b),
            OP_SORTED => {
                // contents in ascending order: a precondition for searching
                let mut o = *op;
                o.code = F::Sort as u8;
                o.x = 0;
                o.fk = 0;
                return self.step(&o);
            }
            OP_RESET => {
                self.reset(a, op.x as usize);
                return self.after(op, a, b, None, 0, 0);
            }
            _ => {}
        }
        let f = match ALL_F.get(op.code as usize) {
            Some(f) => *f,
            None => return,
        };
        if !supported(self.info.kind, f) {
            return;
        }
        let len0 = self.m[a].len();
        let off0 = if self.depth == 0 { self.offset(a) } else { 0 };
        if let Some(o) = self.apply(f, op, a, b) {
            self.st.ops_effective += 1;
            *self.st.per_op.entry(op_name(op.code)).or_insert(0) += 1;
            self.after(op, a, b, Some(&o), off0, len0);
        }
    }
    fn offset(&mut self, a: usize) -> usize {
        self.snap(a, false).map(|s| s.off).unwrap_or(0)
    }
    fn after(&mut self, op: &Op, a: usize, b: usize, o: Option<&Out>, off0: usize, len0: usize) {
        if l().viol.is_some() {
            return;
        }
        if !self.rig.canary() {
            l().violation("canary", "memory outside a container was overwritten".into());
            return;
        }
        let panicked = o.map(|o| o.res.is_err()).unwrap_or(false);
        let deep = panicked || op.z % 4 == 0;
        self.check(a, deep);
        self.check(b, deep);
        if panicked {
            for s in 0..SITES {
                if s != a && s != b {
                    self.check(s, false);
                }
            }
        }
        for k in 0..self.fl.len() {
            if self.rig.flight_len(k) != self.fl[k].len() {
                l().violation("answer", format!("iterator {} reports {} left, expected {}", k, self.rig.flight_len(k), self.fl[k].len()));
            }
        }
        self.totals("after the operation");
        self.state(op, a, o, off0, len0);
    }

    fn apply(&mut self, f: F, op: &Op, a: usize, b: usize) -> Option<Out> {
        let info = self.info;
        let cap = info.cap;
        let la = self.m[a].len();
        let lb = self.m[b].len();
        let what = format!("{:?}", f);
        let call = Call::new(f, a).b(b);
        match f {
            F::Mint | F::HandToArg | F::Reset => None,
            F::HandDrop => {
                if self.hand.is_empty() {
                    return None;
                }
                let k = op.x as usize % self.hand.len();
                self.hand.remove(k);
                let o = self.exec(&call.x(k), op);
                self.verdict(&o, true, &what);
                Some(o)
            }
            F::PushBack | F::PushFront => {
                if self.soft_full(a) {
                    return None;
                }
                let id = self.arg(op);
                let o = self.exec(&call, op);
                match self.verdict(&o, la < cap, &what) {
                    V::Ok => {
                        if f == F::PushBack {
                            self.m[a].push(id)
                        } else {
                            self.m[a].insert(0, id)
                        }
                    }
                    V::Inj => {}
                    _ => {}
                }
                Some(o)
            }
            F::PopBack | F::PopFront => {
                let o = self.exec(&call, op);
                let ok = la > 0 || info.kind != Kind::Chunk;
                if self.verdict(&o, ok, &what) == V::Ok {
                    if la == 0 {
                        self.expect_n(&o, &[0], &what);
                        l().count_fault(F_REJECT);
                    } else {
                        let id = if f == F::PopBack { self.m[a].pop().unwrap() } else { self.m[a].remove(0) };
                        self.expect_n(&o, &[1], &what);
                        self.expect_ids(&o, &[id], &what);
                        self.hand.push(id);
                    }
                }
                Some(o)
            }
            F::Insert => {
                if self.soft_full(a) {
                    return None;
                }
                let i = self.pick(op.x, la + 1, a);
                let id = self.arg(op);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, la < cap && i <= la, &what) == V::Ok {
                    self.m[a].insert(i, id)
                }
                Some(o)
            }
            F::Remove => {
                let i = self.pick(op.x, la, a);
                let o = self.exec(&call.x(i), op);
                let inb = i < la;
                if self.verdict(&o, inb || info.kind == Kind::Inline, &what) == V::Ok {
                    if inb {
                        let id = self.m[a].remove(i);
                        self.expect_n(&o, &[1], &what);
                        self.expect_ids(&o, &[id], &what);
                        self.hand.push(id);
                    } else {
                        l().count_fault(F_REJECT);
                        self.expect_n(&o, &[0], &what);
                    }
                }
                Some(o)
            }
            F::Set => {
                let i = self.pick(op.x, la, a);
                let id = self.arg(op);
                let o = self.exec(&call.x(i), op);
                let inb = i < la;
                if self.verdict(&o, inb || info.kind == Kind::Ring, &what) == V::Ok {
                    if inb {
                        let old = std::mem::replace(&mut self.m[a][i], id);
                        self.expect_n(&o, &[1], &what);
                        self.expect_ids(&o, &[old], &what);
                        self.hand.push(old);
                    } else {
                        l().count_fault(F_REJECT);
                        self.expect_n(&o, &[0], &what);
                    }
                }
                Some(o)
            }
            F::Get => {
                let i = self.pick(op.x, la, a);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, true, &what) == V::Ok {
                    if i < la {
                        let id = self.m[a][i];
                        self.expect_n(&o, &[1, 1], &what);
                        self.expect_ids(&o, &[id, id], &what);
                    } else {
                        l().count_fault(F_REJECT);
                        self.expect_n(&o, &[0, 0], &what);
                    }
                }
                Some(o)
            }
            F::IndexAt | F::IndexMutAt => {
                let i = self.pick(op.x, la, a);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, i < la, &what) == V::Ok {
                    let id = self.m[a][i];
                    self.expect_ids(&o, &[id], &what);
                }
                Some(o)
            }
            F::FirstLast => {
                let o = self.exec(&call, op);
                if self.verdict(&o, true, &what) == V::Ok {
                    if la == 0 {
                        self.expect_n(&o, &[0, 0], &what);
                    } else {
                        let (x, y) = (self.m[a][0], self.m[a][la - 1]);
                        self.expect_n(&o, &[1, 1], &what);
                        self.expect_ids(&o, &[x, y], &what);
                    }
                }
                Some(o)
            }
            F::Swap => {
                let i = self.pick(op.x, la, a);
                let j = self.pick(op.y, la, a);
                let o = self.exec(&call.x(i).y(j), op);
                if i == j && i >= la {
                    // swapping a missing element with itself: refusing and doing nothing both fit
                    return Some(o);
                }
                if self.verdict(&o, i < la && j < la, &what) == V::Ok {
                    self.m[a].swap(i, j)
                }
                Some(o)
            }
            F::Clear => {
                let old = self.m[a].clone();
                let o = self.exec(&call, op);
                match self.verdict(&o, true, &what) {
                    V::Ok => self.m[a].clear(),
                    V::Inj => {
                        if self.resync(a, &old, "interrupted clear") {
                            self.abandon_rest();
                        }
                    }
                    _ => {}
                }
                Some(o)
            }
            F::DropLeft | F::DropRight => {
                let i = self.pick(op.x, la + 1, a);
                let old = self.m[a].clone();
                let o = self.exec(&call.x(i), op);
                match self.verdict(&o, i <= la, &what) {
                    V::Ok => {
                        if f == F::DropLeft {
                            self.m[a].drain(..i);
                        } else {
                            self.m[a].truncate(i);
                        }
                    }
                    V::Inj => {
                        if self.resync(a, &old, "interrupted truncation") {
                            let keep: Vec<u32> = if f == F::DropLeft { old[i.min(la)..].to_vec() } else { old[..i.min(la)].to_vec() };
                            let have = &self.m[a];
                            let ok = if info.zst {
                                have.len() >= keep.len()
                            } else if f == F::DropLeft {
                                have.ends_with(&keep)
                            } else {
                                have.starts_with(&keep)
                            };
                            if !ok {
                                l().violation(
                                    "contents",
                                    format!("{:?}({}) interrupted by a destructor left {}, but {} were to be kept", f, i, short(have), short(&keep)),
                                );
                            }
                            self.abandon_rest();
                        }
                    }
                    _ => {}
                }
                Some(o)
            }
            F::Split => {
                let i = self.pick(op.x, la + 1, a);
                self.reset(b, op.y as usize);
                let o = self.exec(&call.x(i), op);
                if self.verdict(&o, i <= la, &what) == V::Ok {
                    self.m[b] = self.m[a].split_off(i);
                }
                Some(o)
            }
            F::Append => {
                let o = self.exec(&call, op);
                if self.verdict(&o, la + lb <= cap, &what) == V::Ok {
                    let mut v = std::mem::take(&mut self.m[b]);
                    self.m[a].append(&mut v);
                }
                Some(o)
            }
            F::DrainFromFront | F::DrainFromBack => {
                let n = self.pick(op.x, lb + 1, b);
                let o = self.exec(&call.x(n), op);
                let ok = n <= lb && n <= cap - la;
                if self.verdict(&o, ok, &what) == V::Ok {
                    if f == F::DrainFromFront {
                        let v: Vec<u32> = self.m[b].drain(..n).collect();
                        self.m[a].extend(v);
                    } else {
                        let mut v = self.m[b].split_off(lb - n);
                        v.extend(self.m[a].iter());
                        self.m[a] = v;
                    }
                }
                Some(o)
            }
            F::FromFront | F::FromBack | F::DrainFrom => {
                let n = self.pick(op.x, la + 1, a);
                self.reset(b, op.y as usize);
                let o = self.exec(&call.x(n), op);
                let ok = f == F::DrainFrom || n <= la;
                if self.verdict(&o, ok, &what) == V::Ok {
                    if f == F::DrainFrom {
                        self.m[b] = std::mem::take(&mut self.m[a]);
                    } else if f == F::FromFront {
                        self.m[b] = self.m[a].drain(..n).collect();
                    } else {
                        self.m[b] = self.m[a].split_off(la - n);
                    }
                }
                Some(o)
            }
            F::CollectFrom => {
                // how many the source has, and how many are asked for
                let lim = cap.min(SOFT * 4);
                let k = op.y as usize % (lim + 3);
                let n = if op.x < WILD { op.x as usize % (lim + 2) } else { sel(op.x, 0, k, cap) };
                self.reset(b, op.a as usize);
                let spec = IterSpec { actual: k, report: k, report2: k, endless: false };
                let o = self.exec(&call.x(n).it(spec).vals(self.vals_for(k, op.z)), op);
                let ok = n <= k && n <= cap;
                match self.verdict(&o, ok, &what) {
                    V::Ok => {
                        if o.yielded.len() != n {
                            l().violation("answer", format!("collect_from({}) took {} elements", n, o.yielded.len()));
                        }
                        self.m[b] = o.yielded.clone();
                    }
                    V::Inj if o.fk == F_DROP => self.either(b, &[], &o.yielded),
                    _ => {}
                }
                Some(o)
            }
            F::FromIter => {
                let (k, spec) = self.iter_spec(op, cap);
                self.reset(b, op.x as usize);
                let o = self.exec(&call.it(spec).vals(self.vals_for(k, op.z)), op);
                match self.verdict(&o, k <= cap, &what) {
                    V::Ok => {
                        if o.yielded.len() != k {
                            l().violation("contents", format!("collected {} of {} supplied elements", o.yielded.len(), k));
                        }
                        self.m[b] = o.yielded.clone();
                    }
                    V::Inj if o.fk == F_DROP => self.either(b, &[], &o.yielded),
                    _ => {}
                }
                Some(o)
            }
            F::Extend => {
                let room = self.room(a);
                if self.soft_full(a) {
                    return None;
                }
                let (k, spec) = self.iter_spec(op, room);
                let o = self.exec(&call.it(spec).vals(self.vals_for(k, op.z)), op);
                match self.verdict(&o, k <= room, &what) {
                    V::Ok => {
                        if o.yielded.len() != k {
                            l().violation("contents", format!("appended {} of {} supplied elements", o.yielded.len(), k));
                        }
                        self.m[a].extend(o.yielded.iter());
                    }
                    V::Reject => {
                        if o.yielded.len() < room {
                            l().violation("contents", format!("append stopped after {} elements with room for {}", o.yielded.len(), room));
                        } else {
                            self.m[a].extend(o.yielded[..room].iter());
                        }
                    }
                    V::Inj => {
                        let n = o.yielded.len().min(room);
                        self.m[a].extend(o.yielded[..n].iter());
                    }
                    V::Bad => {}
                }
                Some(o)
            }
            F::ExtendRefs | F::ExtendRefsOf => {
                if !info.refs || self.soft_full(a) {
                    return None;
                }
                let room = self.room(a);
                let (o, src) = if f == F::ExtendRefs {
                    let k = op.y as usize % (room.min(SOFT * 4) + 3);
                    let o = self.exec(&call.vals(self.vals_for(k, op.z)), op);
                    let src = o.ids.clone();
                    if src.len() != k {
                        return Some(o);
                    }
                    (o, src)
                } else {
                    let src = self.m[b].clone();
                    (self.exec(&call, op), src)
                };
                let k = src.len();
                let v = self.verdict(&o, k <= room, &what);
                let made: Vec<u32> = if info.tracked { o.clones.clone() } else { src.clone() };
                if info.tracked && !info.zst && v != V::Bad {
                    let parents: Vec<u32> = made.iter().map(|c| l().slots[*c as usize].parent).collect();
                    if parents[..] != src[..parents.len().min(src.len())] || made.len() > src.len() {
                        l().violation("clones", format!("appending borrowed elements cloned {} of {}", short(&parents), short(&src)));
                        return Some(o);
                    }
                }
                match v {
                    V::Ok => {
                        if made.len() != k || !info.tracked && !info.dup && o.clones != src {
                            l().violation("clones", format!("{} clones for {} borrowed elements", made.len(), k));
                        }
                        self.m[a].extend(made)
                    }
                    V::Reject => {
                        if made.len() < room {
                            l().violation("contents", format!("append stopped after {} elements with room for {}", made.len(), room));
                        } else {
                            self.m[a].extend(made[..room].iter())
                        }
                    }
                    V::Inj => {
                        if info.tracked {
                            let n = made.len().min(room);
                            self.m[a].extend(made[..n].iter());
                        } else {
                            let mut of = self.m[a].clone();
                            let n = self.m[a].len();
                            of.extend(src.iter());
                            if self.resync(a, &of, "interrupted append of borrowed elements") && self.m[a][..n.min(self.m[a].len())] != of[..n] {
                                l().violation("contents", "interrupted append lost earlier elements".into());
                            }
                        }
                    }
                    V::Bad => {}
                }
                Some(o)
            }
            F::InsertFrom => Some(self.insert_from(op, a, &what)),
            F::InsertOrdered => {
                let id = self.arg(op);
                let old = self.m[a].clone();
                let oldv = self.vals(a);
                let sorted = oldv.windows(2).all(|w| w[0] <= w[1]);
                let o = self.exec(&call, op);
                if self.verdict(&o, la < cap, &what) == V::Ok {
                    if let Some(sn) = self.snap(a, true) {
                        let v = self.val(id);
                        if info.zst {
                            self.m[a].push(0);
                        } else {
                            let hit = |p: &usize| {
                                sn.ids[*p] == id && sn.ids.len() == old.len() + 1 && sn.ids[..*p] == old[..*p] && sn.ids[*p + 1..] == old[*p..]
                            };
                            let p = (0..sn.ids.len()).find(hit).or_else(|| sn.ids.iter().position(|x| *x == id));
                            match p {
                                Some(p) => {
                                    let mut w = old.clone();
                                    if p <= w.len() {
                                        w.insert(p, id);
                                    }
                                    self.m[a] = w;
                                    if sorted && !o.chaos {
                                        let before = p == 0 || oldv[p - 1] <= v;
                                        let after = p >= oldv.len() || v <= oldv[p];
                                        if !before || !after {
                                            l().violation("order", format!("value {} inserted at {} of {:?}", v, p, oldv));
                                        }
                                    }
                                }
                                None => l().violation("contents", "ordered insertion lost the element".into()),
                            }
                        }
                    }
                }
                Some(o)
            }
            F::CloneTo | F::PoolClone => {
                self.reset(b, op.x as usize);
                let src = self.m[a].clone();
                let o = self.exec(&call, op);
                match self.verdict(&o, true, &what) {
                    V::Ok => self.copied(b, &src, &o, &what),
                    V::Inj if f == F::PoolClone => self.abandon_rest(),
                    _ => {}
                }
                Some(o)
            }
            F::CloneFrom => {
                let src = self.m[a].clone();
                let old = self.m[b].clone();
                let o = self.exec(&call, op);
                match self.verdict(&o, true, &what) {
                    V::Ok => self.copied(b, &src, &o, &what),
                    V::Inj => {
                        let mut of = old.clone();
                        if info.tracked {
                            of.extend(o.clones.iter());
                        } else {
                            of.extend(src.iter());
                        }
                        if self.resync(b, &of, "interrupted clone_from") && o.fk == F_DROP {
                            self.abandon_rest();
                        }
                    }
                    _ => {}
                }
                Some(o)
            }
            F::SubCopy => {
                let i = self.pick(op.x, la + 1, a);
                let j = if op.y < WILD { i.min(la) + op.y as usize % (la - i.min(la) + 1) } else { self.pick(op.y, la + 1, a) };
                let ok = i <= j && j <= la;
                self.reset(b, op.z as usize);
                let o = self.exec(&call.x(i).y(j), op);
                if self.verdict(&o, ok, &what) == V::Ok {
                    let src = self.m[a][i..j].to_vec();
                    self.copied(b, &src, &o, &what);
                }
                Some(o)
            }
            F::Rel => {
                let o = self.exec(&call, op);
                if self.verdict(&o, true, &what) == V::Ok && !o.chaos {
                    let (x, y) = (self.vals(a), self.vals(b));
                    let eq = (x == y) as i64;
                    let c = x.cmp(&y) as i64;
                    let n = &o.n;
                    let mut bad = vec![];
                    if n.len() < 15 {
                        bad.push("incomplete");
                    } else {
                        if n[0] != eq || n[1] != eq || n[2] != 1 - eq {
                            bad.push("equality");
                        }
                        if n[3] != c || n[4] != -c || n[5] != c || n[6] != (c < 0) as i64 {
                            bad.push("ordering");
                        }
                        if eq == 1 && n[7] != n[8] {
                            bad.push("hash");
                        }
                        if eq == 1 && (n[9] != n[10] || n[11] != n[12]) {
                            bad.push("debug output of equals");
                        }
                        if n[13] != eq || n[14] != eq {
                            bad.push("equality with a view");
                        }
                        let ints: Vec<i64> = x.iter().map(|v| *v as i64).collect();
                        if n[15..] != ints[..] {
                            bad.push("debug output");
                        }
                    }
                    if !bad.is_empty() {
                        l().violation("compare", format!("{:?} against {:?}: wrong {} ({:?})", x, y, bad.join(", "), n));
                    }
                }
                Some(o)
            }
            F::EqVec => {
                let mut v = self.vals(a);
                match op.x % 4 {
                    1 if !v.is_empty() => {
                        let i = op.y as usize % v.len();
                        v[i] = (op.z % VALS) as i32;
                    }
                    2 => v.push((op.z % VALS) as i32),
                    3 => {
                        v.pop();
                    }
                    _ => {}
                }
                if info.zst {
                    v.iter_mut().for_each(|x| *x = 0);
                }
                let w = self.vals(a);
                let mut want = vec![(v == w) as i64];
                let (cut, z) = (op.y as usize % (v.len() + 1), op.z as u64 % 4);
                if z % 2 == 1 {
                    let p = if z == 1 { &v[..cut] } else { &v[cut..] };
                    let sorted = w.windows(2).all(|x| x[0] <= x[1]);
                    for q in [w.starts_with(p), w.ends_with(p), p.iter().all(|x| w.contains(x)), sorted] {
                        want.push(q as i64);
                    }
                }
                let o = self.exec(&call.y(cut).z(z).vals(v), op);
                if self.verdict(&o, true, &what) == V::Ok && !o.chaos {
                    self.expect_n(&o, &want, "comparison with a list, starts_with, ends_with, contains, is_sorted");
                }
                Some(o)
            }
            F::Sort => {
                let how = op.x as usize % 4;
                let old = self.m[a].clone();
                let ring = info.kind == Kind::Ring;
                let o = self.exec(&call.x(how), op);
                let v = self.verdict(&o, true, &what);
                if v == V::Bad {
                    return Some(o);
                }
                let how = if ring { [0, 1, 2, 0][how] } else { how };
                let stable = !ring && how != 1;
                if v == V::Ok && !o.chaos && how == 3 {
                    self.m[a].reverse();
                } else if v == V::Ok && !o.chaos && stable {
                    let mut w = old.clone();
                    if how == 0 {
                        w.sort_by_key(|i| l().val(*i));
                    } else {
                        w.sort_by_key(|i| -l().val(*i));
                    }
                    self.m[a] = w;
                } else {
                    // any reordering
                    if let Some(sn) = self.snap(a, true) {
                        let mut p = sn.ids.clone();
                        let mut q = old.clone();
                        p.sort();
                        q.sort();
                        if p != q || sn.len != old.len() {
                            l().violation("contents", format!("sorting turned {} into {}", short(&old), short(&sn.ids)));
                        } else {
                            self.m[a] = sn.ids;
                            if v == V::Ok && !o.chaos {
                                let w = self.vals(a);
                                let sorted = if how == 2 { w.windows(2).all(|x| x[0] >= x[1]) } else { w.windows(2).all(|x| x[0] <= x[1]) };
                                if !sorted {
                                    l().violation("order", format!("sorting gave {:?}", w));
                                }
                            }
                        }
                    }
                }
                Some(o)
            }
            F::BSearch => {
                let t = (op.x % (VALS + 2)) as i32 - 1;
                let o = self.exec(&call.x(t as usize), op);
                if self.verdict(&o, true, &what) == V::Ok && !o.chaos {
                    let v = self.vals(a);
                    let sorted = v.windows(2).all(|w| w[0] <= w[1]);
                    let t = if info.zst { 0 } else { t };
                    let (hit, i) = (o.n[0] == 1, o.n[1] as usize);
                    let good = if hit {
                        i < v.len() && v[i] == t
                    } else if sorted {
                        i <= v.len() && v[..i].iter().all(|x| *x < t) && v[i..].iter().all(|x| *x > t)
                    } else {
                        i <= v.len()
                    };
                    if !good {
                        l().violation("search", format!("searching {} in {:?} answered {:?}", t, v, o.n));
                    }
                }
                Some(o)
            }
            F::View => {
                let how = op.z as usize % 6;
                let i = self.pick(op.x, la + 1, a);
                let j = if op.y < WILD { i.min(la) + op.y as usize % (la - i.min(la) + 1) } else { self.pick(op.y, la + 1, a) };
                let range = match how {
                    0 => Some((i, Some(j))),
                    1 => Some((i, j.checked_add(1))),
                    2 => Some((0, Some(j))),
                    3 => Some((0, j.checked_add(1))),
                    4 => Some((i, Some(la))),
                    _ => Some((0, Some(la))),
                };
                let r = match range {
                    Some((s, Some(e))) if s <= e && e <= la => Some((s, e)),
                    _ => None,
                };
                let o = self.exec(&call.x(i).y(j).z(how as u64), op);
                if self.verdict(&o, r.is_some(), &format!("range view {:?} of {} elements", (how, i, j), la)) == V::Ok {
                    let (s, e) = r.unwrap();
                    let want = self.m[a][s..e].to_vec();
                    self.expect_ids(&o, &want, "range view");
                }
                Some(o)
            }
            F::Drain => {
                let pat = mix(op.z as u64);
                let steps = op.x as usize % (la.min(60) + 4);
                let how = op.y as usize % N_ENDS;
                let old = self.m[a].clone();
                let o = self.exec(&call.z(pat).x(steps).y(how), op);
                if how != END_EXHAUST && how < END_COUNT {
                    l().count_fault(if how == END_FORGET { F_FORGET } else { F_CANCEL });
                }
                let body = matches!(o.res, Err(Pan::Inj(F_BODY))) && how == END_PANIC;
                let v = if body { V::Ok } else { self.verdict(&o, true, &what) };
                if body {
                    l().count_fault(F_BODY);
                }
                match v {
                    V::Ok => {
                        let mut q: VecDeque<u32> = old.iter().copied().collect();
                        let (n, got) = model_walk(&mut q, pat, steps, Some(how));
                        self.expect_n(&o, &n, "draining");
                        self.expect_ids(&o, &got, "draining");
                        self.hand.extend(got);
                        self.m[a] = q.into_iter().collect();
                    }
                    V::Inj => {
                        let got = o.ids.clone();
                        if info.zst {
                            let of = vec![0; old.len().saturating_sub(got.len())];
                            self.hand.extend(got);
                            if self.resync(a, &of, "interrupted drain") {
                                self.abandon_rest();
                            }
                        } else {
                            let of: Vec<u32> = old.iter().copied().filter(|i| !got.contains(i)).collect();
                            self.hand.extend(got);
                            if self.resync(a, &of, "interrupted drain") {
                                self.abandon_rest();
                            }
                        }
                    }
                    _ => {}
                }
                Some(o)
            }
            F::DrainInto => {
                let how = op.x as usize % if info.kind == Kind::Inline { 2 } else { 3 };
                if self.soft_full(b) {
                    return None;
                }
                let room = self.room(b);
                if how == 2 {
                    let i = self.pick(op.y, lb + 1, b);
                    let o = self.exec(&call.x(2).y(i), op);
                    match self.verdict(&o, i <= lb && la <= room, &what) {
                        V::Ok => {
                            let v = std::mem::take(&mut self.m[a]);
                            let tail = self.m[b].split_off(i);
                            self.m[b].extend(v);
                            self.m[b].extend(tail);
                        }
                        V::Reject => {}
                        _ => {}
                    }
                    return Some(o);
                }
                let o = self.exec(&call.x(how), op);
                match self.verdict(&o, la <= room, &what) {
                    V::Ok => {
                        let mut v = std::mem::take(&mut self.m[a]);
                        if how == 1 {
                            v.reverse();
                        }
                        self.m[b].extend(v);
                    }
                    V::Reject => {
                        // the first `room` moved; at most one more was taken out and destroyed
                        let mut v = self.m[a].clone();
                        if how == 1 {
                            v.reverse();
                        }
                        self.m[b].extend(v[..room].iter());
                        let keep = |from: usize| {
                            let mut w = v[from..].to_vec();
                            if how == 1 {
                                w.reverse();
                            }
                            w
                        };
                        if let Some(sn) = self.snap(a, false) {
                            self.m[a] = if sn.ids == keep(room) { keep(room) } else { keep(room + 1) };
                        }
                    }
                    _ => {}
                }
                Some(o)
            }
            F::IterWalk | F::IterMutWalk => {
                let pat = mix(op.z as u64);
                let steps = op.x as usize % (la.min(60) + 4);
                let how = op.y as usize % N_ENDS;
                let mutk = if f == F::IterMutWalk { op.x as usize % 3 } else { 2 };
                let c = if f == F::IterWalk {
                    call.z(pat).x(steps).y(how)
                } else {
                    call.z(pat).x(mutk).y((steps % 60) * N_ENDS + how)
                };
                let steps = if f == F::IterWalk { steps } else { steps % 60 };
                let o = self.exec(&c, op);
                let body = mutk == 2 && how == END_PANIC && matches!(o.res, Err(Pan::Inj(F_BODY)));
                if !body {
                    if self.verdict(&o, true, &what) != V::Ok {
                        return Some(o);
                    }
                } else {
                    l().count_fault(F_BODY);
                }
                if f == F::IterMutWalk && mutk == 0 {
                    self.m[a].reverse();
                } else if f == F::IterMutWalk && mutk == 1 {
                    for i in 0..la.saturating_sub(1) {
                        self.m[a].swap(i, i + 1);
                    }
                    self.expect_n(&o, &[la as i64], "mutable iteration");
                } else {
                    let mut q: VecDeque<u32> = self.m[a].iter().copied().collect();
                    let (n, _) = model_walk(&mut q, pat, steps, Some(how));
                    self.expect_n(&o, &n, "iteration");
                }
                Some(o)
            }
            F::IntoIter => {
                if self.fl.len() >= 4 {
                    return None;
                }
                let o = self.exec(&call.x(op.x as usize), op);
                if self.verdict(&o, true, &what) == V::Ok {
                    let v = std::mem::take(&mut self.m[a]);
                    self.fl.push(v.into());
                }
                Some(o)
            }
            F::FlightStep => {
                if self.fl.is_empty() {
                    return None;
                }
                let k = op.x as usize % self.fl.len();
                let pat = mix(op.z as u64);
                let steps = op.y as usize % (self.fl[k].len().min(60) + 4);
                let old: Vec<u32> = self.fl[k].iter().copied().collect();
                let o = self.exec(&call.x(k).y(steps).z(pat), op);
                match self.verdict(&o, true, &what) {
                    V::Ok => {
                        let mut q = std::mem::take(&mut self.fl[k]);
                        let (n, got) = model_walk(&mut q, pat, steps, None);
                        self.fl[k] = q;
                        self.expect_n(&o, &n, "consuming iteration");
                        self.expect_ids(&o, &got, "consuming iteration");
                        self.hand.extend(got);
                    }
                    V::Inj => {
                        // a skipped element's destructor panicked: elements taken out during this
                        // call were destroyed with it; the iterator stays where it was
                        let mut q: VecDeque<u32> = old.into();
                        let left = self.rig.flight_len(k);
                        self.unwind_flight(&mut q, pat, steps, left);
                        self.fl[k] = q;
                    }
                    _ => {}
                }
                Some(o)
            }
            F::FlightEnd => {
                if self.fl.is_empty() {
                    return None;
                }
                let k = op.x as usize % self.fl.len();
                let how = op.y as usize % N_ENDS;
                let mut q = self.fl.remove(k);
                let o = self.exec(&call.x(k).y(how), op);
                if how != END_EXHAUST && how < END_COUNT {
                    l().count_fault(if how == END_FORGET { F_FORGET } else { F_CANCEL });
                }
                let body = matches!(o.res, Err(Pan::Inj(F_BODY))) && how == END_PANIC;
                if body {
                    l().count_fault(F_BODY);
                }
                let v = if body { V::Ok } else { self.verdict(&o, true, &what) };
                match v {
                    V::Ok => {
                        let (n, got) = model_walk(&mut q, 0, 0, Some(how));
                        self.expect_n(&o, &n, "ending a consuming iterator");
                        self.expect_ids(&o, &got, "ending a consuming iterator");
                        self.hand.extend(got);
                        if how == END_FORGET {
                            self.abandon_rest();
                        }
                    }
                    V::Inj => {
                        self.hand.extend(o.ids.iter());
                        self.abandon_rest();
                    }
                    _ => {}
                }
                Some(o)
            }
            F::FlightTo => {
                if self.fl.is_empty() {
                    return None;
                }
                let k = op.x as usize % self.fl.len();
                let how = op.y as usize % if info.kind == Kind::Inline { 3 } else { 4 };
                if how == 0 || how == 2 {
                    self.reset(b, op.z as usize);
                } else if self.soft_full(b) {
                    return None;
                }
                let lb = self.m[b].len();
                let room = self.room(b);
                let q = self.fl.remove(k);
                let i = if how == 3 { self.pick(op.z, lb + 1, b) } else { 0 };
                let o = self.exec(&call.x(k).y(how).z(i as u64), op);
                let ok = match how {
                    0 | 2 => true,
                    1 => q.len() <= room,
                    _ => i <= lb && q.len() <= room,
                };
                match self.verdict(&o, ok, &what) {
                    V::Ok => match how {
                        0 => self.m[b] = q.into_iter().collect(),
                        1 => self.m[b].extend(q),
                        2 => self.m[b] = q.into_iter().rev().collect(),
                        _ => {
                            let tail = self.m[b].split_off(i);
                            self.m[b].extend(q);
                            self.m[b].extend(tail);
                        }
                    },
                    V::Reject if how == 1 => self.m[b].extend(q.iter().take(room)),
                    _ => {}
                }
                Some(o)
            }
            F::Unit | F::Pair => {
                self.reset(b, op.x as usize);
                let x = self.arg(op);
                let mut ids = vec![x];
                if f == F::Pair {
                    let mut o2 = *op;
                    o2.z = op.z.wrapping_mul(7).wrapping_add(1);
                    ids.push(self.arg(&o2));
                }
                let o = self.exec(&call, op);
                if self.verdict(&o, ids.len() <= cap, &what) == V::Ok {
                    self.m[b] = ids;
                }
                Some(o)
            }
            F::FromInline => {
                if info.inline_cap == 0 {
                    return None;
                }
                let k = op.y as usize % (info.inline_cap + 1);
                let by_ref = op.x as usize % 2;
                self.reset(b, op.z as usize);
                let o = self.exec(&call.x(by_ref).vals(self.vals_for(k, op.z)), op);
                let mut want: Vec<i64> = vec![];
                match self.verdict(&o, k <= cap, &what) {
                    V::Ok => {
                        want.push(0);
                        want.push(-7);
                        self.m[b] = o.ids.clone();
                        self.expect_n(&o, &want, "converting an inline array");
                    }
                    V::Reject => {
                        if by_ref == 1 {
                            want.push(k as i64);
                            want.extend(o.ids.iter().map(|i| *i as i64));
                            self.hand.extend(o.ids.iter());
                        } else {
                            want.push(0);
                        }
                        self.expect_n(&o, &want, "refused conversion of an inline array");
                    }
                    V::Inj => self.either(b, &[], &o.ids),
                    V::Bad => {}
                }
                Some(o)
            }
            F::MoveSite => {
                let o = self.exec(&call, op);
                self.m.swap(a, b);
                Some(o)
            }
            F::DropSite => {
                self.m[a].clear();
                let o = self.exec(&call.x(op.x as usize), op);
                if self.verdict(&o, true, &what) == V::Inj {
                    self.abandon_rest();
                }
                Some(o)
            }
            F::ForgetSite => {
                self.m[a].clear();
                let o = self.exec(&call.x(op.x as usize), op);
                l().count_fault(F_FORGET);
                self.abandon_rest();
                Some(o)
            }
        }
    }

    /// After an injected destructor panic at the very end: the result is either there or not.
    fn either(&mut self, s: usize, p: &[u32], q: &[u32]) {
        if let Some(sn) = self.snap(s, true) {
            self.m[s] = if sn.ids == q { q.to_vec() } else { p.to_vec() };
        }
    }

    fn unwind_flight(&mut self, q: &mut VecDeque<u32>, pat: u64, steps: usize, left: usize) {
        // replay the walk step by step until the queue is as short as the real iterator
        let mut p = pat;
        for _ in 0..steps {
            let c = p & 7;
            p = p.rotate_right(3) ^ (p >> 61);
            let k = skip(p, q.len()).saturating_add(1);
            let (n, back) = match c {
                0..=2 => (1, false),
                3 | 4 => (1, true),
                5 => (0, false),
                6 => (k, false),
                _ => (k, true),
            };
            for _ in 0..n.min(q.len()) {
                if q.len() == left {
                    return;
                }
                if back {
                    q.pop_back();
                } else {
                    q.pop_front();
                }
            }
        }
    }

    /// Number of elements and reported lengths of a supplied iterator; `room` is what would fit.
    fn iter_spec(&mut self, op: &Op, room: usize) -> (usize, IterSpec) {
        let lim = room.min(SOFT * 4);
        let k = match op.y % 8 {
            0 => lim,
            1 => lim + 1,
            2 => lim + 1 + (op.y as usize >> 3) % 4,
            _ => (op.y as usize >> 3) % (lim + 1),
        };
        let h = mix(op.z as u64 ^ 0xabcd);
        let d = 1 + (h >> 20) as usize % 4;
        let huge = [
            usize::MAX,
            usize::MAX - 1,
            usize::MAX / 2 + 1,
            usize::MAX - lim,
            (usize::MAX - lim).wrapping_add(1 + (h >> 30) as usize % 8),
            room.saturating_add(1),
            1 << 40,
            (usize::MAX - self.info.cap).wrapping_add((h >> 30) as usize % 8),
        ][(h >> 8) as usize % 8];
        let lie = if op.b & 8 != 0 { (h % 8) as u8 } else { 255 };
        let endless = lie == 1 && self.info.cap <= 64 && h >> 40 & 3 == 0;
        let (said, k) = if endless { (k.min(room), 2 * self.info.cap + 8) } else { (k, k) };
        let (r, r2) = match lie {
            0 => {
                l().count_fault(F_LIE_SHORT);
                (k + d, k + d)
            }
            1 => {
                l().count_fault(F_LIE_LONG);
                (said.saturating_sub(d), said.saturating_sub(d))
            }
            2 => {
                l().count_fault(F_LIE_HUGE);
                (huge, huge)
            }
            3 => {
                l().count_fault(F_LIE_UNSTABLE);
                (k, k + d)
            }
            4 => {
                l().count_fault(F_LIE_UNSTABLE);
                (k, k.saturating_sub(d))
            }
            5 => {
                l().count_fault(F_LIE_UNSTABLE);
                (k.saturating_sub(d), k)
            }
            6 => {
                l().count_fault(F_LIE_UNSTABLE);
                (k, huge)
            }
            7 => {
                l().count_fault(F_LIE_UNSTABLE);
                (k.min(room), lim + d)
            }
            _ => (k, k),
        };
        (k, IterSpec { actual: k, report: r, report2: r2, endless })
    }

    fn insert_from(&mut self, op: &Op, a: usize, what: &str) -> Out {
        let la = self.m[a].len();
        let room = self.room(a);
        let i = self.pick(op.x, la + 1, a);
        let (k, s) = self.iter_spec(op, room);
        let old = self.m[a].clone();
        let call = Call::new(F::InsertFrom, a).x(i).it(s).vals(self.vals_for(k, op.z));
        let o = self.exec(&call, op);
        if l().viol.is_some() {
            return o;
        }
        let ii = i.min(la);
        let y = o.yielded.clone();
        let honest = s.report == k && s.report2 == k && !o.fired;
        let must_reject = i > la || (s.report > room && s.report2 > room);
        let build = |n: usize| {
            let mut w = old[..ii].to_vec();
            w.extend(y[..n].iter());
            w.extend(old[ii..].iter());
            w
        };
        if must_reject && !o.fired {
            self.verdict(&o, false, &format!("{} of {} (reported {}, then {}) at {} into {} of {}", what, k, s.report, s.report2, i, la, self.info.cap));
            return o;
        }
        if honest {
            if self.verdict(&o, true, what) == V::Ok {
                if y.len() != k {
                    l().violation("contents", format!("inserted {} of {} supplied elements", y.len(), k));
                } else {
                    self.m[a] = build(k);
                }
            }
            return o;
        }
        // misbehaving source: consistent completion or a panic
        let mut of = old[..ii].to_vec();
        of.extend(y.iter());
        of.extend(old[ii..].iter());
        // a source that claimed to be empty has named no place to make room at: what it yields all the
        // same may also go to the end
        let mut at_end = old.clone();
        at_end.extend(y.iter());
        let claimed_empty = s.report == 0 || s.report2 == 0;
        let to_end = claimed_empty
            && !self.info.zst
            && match self.snap(a, true) {
                Some(sn) => !is_subseq(&sn.ids, &of) && is_subseq(&sn.ids, &at_end),
                None => return o,
            };
        if !self.resync(a, if to_end { &at_end } else { &of }, "insertion from a misbehaving source") {
            return o;
        }
        let build = |n: usize| {
            if to_end {
                at_end[..(la + n).min(at_end.len())].to_vec()
            } else {
                build(n)
            }
        };
        if o.res.is_ok() {
            let n = self.m[a].len().wrapping_sub(la);
            if n > y.len() || self.m[a] != build(n) {
                let now = self.m[a].clone();
                l().violation(
                    "contents",
                    format!("insertion completed, but {} is not {} with a prefix of {} at {}", short(&now), short(&old), short(&y), i),
                );
            } else if s.report == s.report2 && n < s.report.min(k) {
                l().violation("contents", format!("insertion completed with {} of {} elements", n, k));
            }
        }
        self.abandon_rest();
        o
    }

    // ------------------------------------------------------------ composite steps
    fn sub(&mut self, code: F, a: usize, x: usize, z: u64) {
        let op = Op {
            code: code as u8,
            a: a as u8,
            b: 0,
            x: if x >= WILD as usize { x as u16 } else { (x % 59000) as u16 },
            y: 0,
            // never taken from the hand
            z: ((z % 10000) * 3 + 1) as u16,
            fk: 0,
            fnth: 0,
        };
        self.step(&op)
    }
    fn fill(&mut self, op: &Op, a: usize) {
        self.depth += 1;
        let cap = self.info.cap.min(SOFT);
        let cap = if self.info.cap <= 300 { self.info.cap } else { cap };
        let target = match op.x % 4 {
            0 => cap,
            1 => cap.saturating_sub(1),
            2 => cap / 2,
            _ => op.y as usize % (cap + 1),
        };
        let mut i = 0u64;
        while self.m[a].len() < target && l().viol.is_none() {
            let h = mix(op.z as u64 ^ i << 20);
            i += 1;
            let f = match h % 8 {
                0..=3 => F::PushBack,
                4..=5 if self.info.kind != Kind::Inline => F::PushFront,
                _ => F::Insert,
            };
            self.sub(f, a, (h >> 8) as usize % (self.m[a].len() + 1), h >> 16);
        }
        self.depth -= 1;
    }
    fn rotate(&mut self, op: &Op, a: usize) {
        if self.info.kind == Kind::Inline || self.m[a].is_empty() {
            return;
        }
        self.depth += 1;
        let n = op.x as usize % (2 * self.info.cap.min(70) + 1);
        let back = op.y % 2 == 0;
        // leave the other end behind by moving elements around
        for i in 0..n {
            if l().viol.is_some() {
                break;
            }
            if self.m[a].is_empty() {
                break;
            }
            let z = i as u64 + op.z as u64;
            if op.y % 4 < 2 {
                // move one element from one end to the other
                self.sub(if back { F::PopFront } else { F::PopBack }, a, 0, z);
                self.give_back(a, back);
            } else if self.m[a].len() > 1 {
                self.sub(if back { F::PopFront } else { F::PopBack }, a, 0, z);
                self.sub(if back { F::PushBack } else { F::PushFront }, a, 0, z);
            }
        }
        self.depth -= 1;
    }
    /// Push the element handed back last.
    fn give_back(&mut self, a: usize, back: bool) {
        if l().viol.is_some() || self.hand.is_empty() {
            return;
        }
        let k = self.hand.len() - 1;
        let _ = self.rig.call(&Call::new(F::HandToArg, 0).x(k));
        let id = self.hand.remove(k);
        let call = Call::new(if back { F::PushBack } else { F::PushFront }, a);
        let o = self.exec(&call, &Op::default());
        if self.verdict(&o, self.m[a].len() < self.info.cap, "push") == V::Ok {
            if back {
                self.m[a].push(id)
            } else {
                self.m[a].insert(0, id)
            }
        }
        self.check(a, false);
    }

    /// Faults have stopped: the whole capacity must be usable again, in order.
    fn heal(&mut self, op: &Op, a: usize) {
        if self.info.cap > 300 {
            return;
        }
        self.depth += 1;
        let cap = self.info.cap;
        let kind = self.info.kind;
        l().probe("heal");
        // exactly capacity minus n more are accepted
        let n = cap - self.m[a].len();
        for i in 0..n {
            if l().viol.is_some() {
                break;
            }
            let h = mix(op.z as u64 ^ (i as u64) << 18);
            let f = match op.x % 4 {
                0 => F::PushBack,
                1 if kind != Kind::Inline => F::PushFront,
                2 => F::Insert,
                _ => match h % 3 {
                    0 => F::PushBack,
                    1 if kind != Kind::Inline => F::PushFront,
                    _ => F::Insert,
                },
            };
            self.sub(f, a, (h >> 8) as usize % (self.m[a].len() + 1), h >> 16);
        }
        // the next one is refused, whichever way it comes
        self.sub(F::PushBack, a, 0, 1);
        self.sub(F::PushFront, a, 0, 2);
        self.sub(F::Insert, a, op.y as usize % (cap + 1), 3);
        if kind != Kind::Inline {
            let o = Op { code: F::InsertFrom as u8, a: a as u8, x: op.y % (cap as u16 + 1), y: 1, z: 5, ..Default::default() };
            self.step(&o);
        }
        // everything comes back in order
        let mut i = 0u64;
        while !self.m[a].is_empty() && l().viol.is_none() {
            let h = mix(op.z as u64 ^ i << 22);
            i += 1;
            let front = match op.y % 3 {
                0 => true,
                1 => false,
                _ => h & 1 == 0,
            };
            if front && kind == Kind::Inline {
                self.sub(F::Remove, a, 0, h);
            } else {
                self.sub(if front { F::PopFront } else { F::PopBack }, a, 0, h);
            }
        }
        // and emptying makes the whole capacity available again
        for i in 0..cap {
            if l().viol.is_some() {
                break;
            }
            let front = kind != Kind::Inline && (op.x >> 2) & 1 == 1;
            self.sub(if front { F::PushFront } else { F::PushBack }, a, 0, i as u64 + 7);
        }
        self.sub(F::PushBack, a, 0, 4);
        if op.z & 1 == 0 {
            self.sub(F::Clear, a, 0, 0);
            if op.z & 2 == 0 {
                for i in 0..cap {
                    self.sub(F::PushBack, a, 0, i as u64 + 9);
                }
            }
        } else {
            self.reset(a, op.x as usize);
        }
        for _ in 0..self.hand.len().saturating_sub(4) {
            self.sub(F::HandDrop, a, 0, 0);
        }
        self.depth -= 1;
    }

    /// A second container with equal contents but another history must be indistinguishable.
    fn twin(&mut self, op: &Op, a: usize, b: usize) {
        self.depth += 1;
        l().probe("twin");
        self.reset(b, op.x as usize);
        let vals = self.vals(a);
        let kind = self.info.kind;
        let route = op.y % 5;
        let zero = Op::default();
        let mint = |s: &mut Self, v: i32| match s.rig.call(&Call::new(F::Mint, 0).x(v as usize)) {
            Ok(r) => r.ids[0],
            Err(_) => 0,
        };
        match route {
            1 if kind != Kind::Inline => {
                for v in vals.iter().rev() {
                    let id = mint(self, *v);
                    let o = self.exec(&Call::new(F::PushFront, b), &zero);
                    if self.verdict(&o, true, "push_front") == V::Ok {
                        self.m[b].insert(0, id);
                    }
                }
            }
            2 => {
                for v in vals.iter().rev() {
                    let id = mint(self, *v);
                    let o = self.exec(&Call::new(F::Insert, b).x(0), &zero);
                    if self.verdict(&o, true, "insert") == V::Ok {
                        self.m[b].insert(0, id);
                    }
                }
            }
            3 => {
                let k = vals.len();
                let spec = IterSpec { actual: k, report: k, report2: k, endless: false };
                let o = self.exec(&Call::new(F::Extend, b).it(spec).vals(vals.clone()), &zero);
                if self.verdict(&o, true, "extend") == V::Ok {
                    self.m[b] = o.yielded.clone();
                }
            }
            4 => {
                let o = Op { code: F::CloneTo as u8, a: a as u8, b: ((b + SITES - a - 1) % SITES) as u8, ..zero };
                self.step(&o);
            }
            _ => {
                for v in vals.iter() {
                    let id = mint(self, *v);
                    let o = self.exec(&Call::new(F::PushBack, b), &zero);
                    if self.verdict(&o, true, "push_back") == V::Ok {
                        self.m[b].push(id);
                    }
                }
            }
        }
        self.check(b, true);
        let bb = ((b + SITES - a - 1) % SITES) as u8;
        let rel = Op { code: F::Rel as u8, a: a as u8, b: bb, z: 1, ..zero };
        let eqv = Op { code: F::EqVec as u8, a: a as u8, b: bb, z: 1, ..zero };
        self.step(&rel);
        self.step(&eqv);
        // lock-step: the same requests to both
        const LOCK: [F; 14] = [
            F::PushBack, F::PushFront, F::PopBack, F::PopFront, F::Insert, F::Remove, F::DropLeft, F::DropRight,
            F::Set, F::Swap, F::Sort, F::View, F::BSearch, F::InsertFrom,
        ];
        let steps = op.z as usize % 7;
        for k in 0..steps {
            if l().viol.is_some() {
                break;
            }
            let h = mix(op.z as u64 ^ (k as u64) << 33 ^ op.y as u64);
            let f = LOCK[h as usize % LOCK.len()];
            if !supported(kind, f) {
                continue;
            }
            let mut o = Op {
                code: f as u8,
                a: a as u8,
                b: 0,
                x: (h >> 8) as u16,
                y: (h >> 24) as u16,
                z: ((h >> 40) as u16 % 20000) * 3 + 1,
                fk: 0,
                fnth: 0,
            };
            if f == F::Sort {
                o.x &= !1; // deterministic orders only
            }
            // composite sites: keep the third container out of it
            o.b = 0;
            self.step(&o);
            o.a = b as u8;
            self.step(&o);
            if l().viol.is_none() && self.vals(a) != self.vals(b) {
                let (x, y) = (self.vals(a), self.vals(b));
                l().violation("twin", format!("the same {:?} on equal containers gave {:?} and {:?}", f, x, y));
            }
            self.step(&rel);
        }
        while self.hand.len() > 8 && l().viol.is_none() {
            self.sub(F::HandDrop, a, 0, 0);
        }
        self.depth -= 1;
    }
}
