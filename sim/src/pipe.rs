//! Byte containers as stages of a relay chain between unreliable endpoints. The reference for every
//! stage is a bounded byte queue; the reference for the whole chain is "the sink has received a
//! prefix of what the source gave away".
use crate::case::*;
use crate::ledger::*;
use crate::rng::{mix, Rng};
use sized_chunks::{Chunk, RingBuffer};
use std::collections::VecDeque;
use std::io::{self, BufRead, BufReader, BufWriter, IoSlice, IoSliceMut, Read, Write};

macro_rules! fs {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($n),* }
        pub const ALL: &[F] = &[$(F::$n),*];
        const NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
fs! {
    Write, WriteAll, WriteVectored, BufWrite, WriteFmt, Read, ReadExact, ReadVectored, ReadToEnd, BufRead, ByteIter, Lines,
    Source, SourceCopy, Relay, RelayCopy, Sink, SinkCopy, Failover, Unread, Flush, ZeroLen, Shift, Chained,
    ReadToString, ReadExactShort,
}
pub fn op_name(c: u8) -> String {
    NAMES.get(c as usize).map(|s| format!("pipe {}", s)).unwrap_or_else(|| "?".into())
}

trait Stage: Read + Write {
    fn cap(&self) -> usize;
    /// (len, is_empty, is_full, contents); reads every way the container offers.
    fn look(&mut self) -> (usize, bool, bool, Vec<u8>);
    fn copy(&self, how: usize) -> Box<dyn Stage>;
    fn unread(&mut self, b: u8);
    fn take_back(&mut self) -> Option<u8>;
    /// Move the contents about in storage without changing them.
    fn shift(&mut self, n: usize);
}
impl<const N: usize> Stage for Chunk<u8, N> {
    fn cap(&self) -> usize {
        N
    }
    fn look(&mut self) -> (usize, bool, bool, Vec<u8>) {
        let v: Vec<u8> = self.iter().copied().collect();
        if self.as_slice() != &v[..] || v.iter().enumerate().any(|(i, b)| self[i] != *b) {
            l().violation("contents", "iteration and slice disagree".into())
        }
        (self.len(), self.is_empty(), self.is_full(), v)
    }
    fn copy(&self, how: usize) -> Box<dyn Stage> {
        match how % 3 {
            0 => Box::new(self.clone()),
            1 => {
                let mut o: Self = Chunk::unit(7);
                o.clone_from(self);
                Box::new(o)
            }
            _ => Box::new(self.iter().copied().collect::<Self>()),
        }
    }
    fn unread(&mut self, b: u8) {
        self.push_front(b)
    }
    fn take_back(&mut self) -> Option<u8> {
        if self.is_empty() {
            None
        } else {
            Some(self.pop_back())
        }
    }
    fn shift(&mut self, n: usize) {
        for _ in 0..n {
            if self.is_full() || self.is_empty() {
                return;
            }
            if n % 2 == 0 {
                // towards the right end of storage
                let b = self.pop_back();
                self.insert(0, 0);
                self.pop_front();
                self.push_back(b);
            } else {
                let b = self.pop_front();
                self.push_front(b);
                self.push_front(b);
                self.pop_front();
            }
        }
    }
}
impl<const N: usize> Stage for RingBuffer<u8, N> {
    fn cap(&self) -> usize {
        N
    }
    fn look(&mut self) -> (usize, bool, bool, Vec<u8>) {
        let v: Vec<u8> = self.iter().copied().collect();
        let w: Vec<u8> = (0..v.len()).map(|i| self[i]).collect();
        let s: Vec<u8> = self.slice(..).iter().copied().collect();
        if w != v || s != v {
            l().violation("contents", "iteration, indexing and views disagree".into())
        }
        use array_ops::HasLength;
        (self.len(), HasLength::is_empty(self), self.is_full(), v)
    }
    fn copy(&self, how: usize) -> Box<dyn Stage> {
        match how % 3 {
            0 => Box::new(self.clone()),
            1 => {
                let mut o: Self = RingBuffer::unit(7);
                o.clone_from(self);
                Box::new(o)
            }
            _ => Box::new(self.slice(..).to_owned()),
        }
    }
    fn unread(&mut self, b: u8) {
        self.push_front(b)
    }
    fn take_back(&mut self) -> Option<u8> {
        self.pop_back()
    }
    fn shift(&mut self, n: usize) {
        // rotate the storage origin by cycling every byte through
        let len = self.iter().count();
        if len == 0 {
            for _ in 0..n % (N + 1) {
                self.push_back(1);
                self.pop_front();
            }
            return;
        }
        for _ in 0..n % 3 {
            for _ in 0..len {
                let b = self.pop_front().unwrap();
                self.push_back(b);
            }
        }
    }
}

const TYPES: usize = 17;
const TYPE_NAMES: [&str; TYPES] =
    ["C1", "C2", "C3", "C8", "C33", "C200", "R1", "R2", "R3", "R7", "R16", "R64", "R255", "C600", "R300", "C5000", "R70000"];
fn make(t: usize) -> Box<dyn Stage> {
    match t {
        0 => Box::new(Chunk::<u8, 1>::new()),
        1 => Box::new(Chunk::<u8, 2>::new()),
        2 => Box::new(Chunk::<u8, 3>::new()),
        3 => Box::new(Chunk::<u8, 8>::new()),
        4 => Box::new(Chunk::<u8, 33>::new()),
        5 => Box::new(Chunk::<u8, 200>::new()),
        6 => Box::new(RingBuffer::<u8, 1>::new()),
        7 => Box::new(RingBuffer::<u8, 2>::new()),
        8 => Box::new(RingBuffer::<u8, 3>::new()),
        9 => Box::new(RingBuffer::<u8, 7>::new()),
        10 => Box::new(RingBuffer::<u8, 16>::new()),
        11 => Box::new(RingBuffer::<u8, 64>::new()),
        12 => Box::new(RingBuffer::<u8, 255>::new()),
        13 => Box::new(Chunk::<u8, 600>::new()),
        14 => Box::new(RingBuffer::<u8, 300>::new()),
        15 => Box::new(Chunk::<u8, 5000>::new()),
        _ => Box::new(RingBuffer::<u8, 70_000>::new()),
    }
}
/// The configuration number is the list of stage types, one base-18 digit each (0 ends the list).
fn stages(config: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut c = config;
    while c > 0 && v.len() < 4 {
        let d = c % (TYPES + 1);
        if d == 0 {
            break;
        }
        v.push(d - 1);
        c /= TYPES + 1;
    }
    if v.is_empty() {
        v.push(10);
    }
    v
}
pub fn config_name(config: usize) -> String {
    let v: Vec<&str> = stages(config).into_iter().map(|t| TYPE_NAMES[t]).collect();
    format!("byte chain of {} (first {})", v.len(), v[0])
}

/// The nth byte of the endless source stream: neighbouring and nearby positions all differ.
fn byte(i: u64) -> u8 {
    (mix(i / 256) as u8) ^ (i as u8).wrapping_mul(167).wrapping_add(11)
}

/// What the endpoints do on successive calls, from a pattern.
#[derive(Clone, Copy)]
struct Weather {
    pat: u64,
    bad: bool,
}
enum Act {
    Ok(usize),
    Err(io::ErrorKind),
    Panic,
}
impl Weather {
    fn act(&mut self, want: usize, panics: bool) -> Act {
        if !self.bad {
            return Act::Ok(want);
        }
        let c = self.pat & 15;
        self.pat = mix(self.pat);
        match c {
            0..=4 => Act::Ok(want),
            5..=8 => {
                let n = (self.pat >> 8) as usize % (want + 1);
                let n = n.max(1).min(want);
                if n < want {
                    l().count_fault(F_IO_SHORT);
                }
                Act::Ok(n)
            }
            9..=11 => {
                l().count_fault(F_IO_INTR);
                Act::Err(io::ErrorKind::Interrupted)
            }
            12 | 13 => {
                l().count_fault(F_IO_BLOCK);
                Act::Err(io::ErrorKind::WouldBlock)
            }
            14 => {
                l().count_fault(F_IO_ERR);
                Act::Err(io::ErrorKind::BrokenPipe)
            }
            _ if panics => {
                l().count_fault(F_BODY);
                Act::Panic
            }
            _ => Act::Ok(want),
        }
    }
}

struct Source<'a> {
    next: &'a mut u64,
    w: Weather,
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.w.act(buf.len(), true) {
            Act::Ok(n) => {
                for b in &mut buf[..n] {
                    *b = byte(*self.next);
                    *self.next += 1;
                }
                l().ev(40, n as u64, 0);
                Ok(n)
            }
            Act::Err(k) => Err(k.into()),
            Act::Panic => std::panic::panic_any(Injected(F_BODY)),
        }
    }
}
struct Sink<'a> {
    got: &'a mut Vec<u8>,
    w: Weather,
}
impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.w.act(buf.len(), false) {
            Act::Ok(n) => {
                self.got.extend_from_slice(&buf[..n]);
                l().ev(41, n as u64, 0);
                Ok(n)
            }
            Act::Err(k) => Err(k.into()),
            Act::Panic => std::panic::panic_any(Injected(F_BODY)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A caller's buffer with guard bytes around it.
struct Guard {
    mem: Vec<u8>,
    n: usize,
}
impl Guard {
    fn new(n: usize) -> Guard {
        Guard { mem: vec![0xA5; n + 16], n }
    }
    fn buf(&mut self) -> &mut [u8] {
        let n = self.n;
        &mut self.mem[8..8 + n]
    }
    fn ok(&self) {
        if self.mem[..8].iter().chain(&self.mem[8 + self.n..]).any(|b| *b != 0xA5) {
            l().violation("canary", "bytes outside the caller's buffer were overwritten".into());
        }
    }
}

struct Sim<'s> {
    st: &'s mut Stats,
    s: Vec<Box<dyn Stage>>,
    m: Vec<VecDeque<u8>>,
    /// Bytes taken from the previous stage but not yet accepted by this one (the relay's own store);
    /// the last entry belongs to the sink.
    pend: Vec<VecDeque<u8>>,
    next: u64,
    /// Bytes the source gave away that are somewhere in the chain or beyond.
    sink: Vec<u8>,
    /// All bytes that entered the chain, minus what was taken back out of order.
    sent: VecDeque<u8>,
    config: usize,
    last: Vec<Option<u8>>,
}

pub fn run(case: &Case, st: &mut Stats) {
    let types = stages(case.config);
    let made = guarded(|| types.iter().map(|t| make(*t)).collect::<Vec<_>>());
    let s = match made {
        Ok(s) => s,
        Err(p) => {
            l().violation("spurious-panic", format!("creating empty buffers panicked: {:?}", p));
            return;
        }
    };
    let n = s.len();
    let mut sim = Sim {
        st,
        s,
        m: vec![VecDeque::new(); n],
        pend: vec![VecDeque::new(); n + 1],
        next: 0,
        sink: vec![],
        sent: VecDeque::new(),
        config: case.config,
        last: vec![None; n],
    };
    for op in &case.ops {
        sim.step(op);
        if l().viol.is_some() {
            return;
        }
    }
    sim.settle();
}

impl<'s> Sim<'s> {
    fn free(&self, i: usize) -> usize {
        self.s[i].cap() - self.m[i].len()
    }
    fn check(&mut self, i: usize) {
        if l().viol.is_some() {
            return;
        }
        let s = &mut self.s[i];
        match guarded(|| s.look()) {
            Ok((len, empty, full, v)) => {
                if l().viol.is_some() {
                    return;
                }
                let m = &self.m[i];
                if !v.iter().eq(m.iter()) || len != m.len() || empty != m.is_empty() || full != (m.len() == self.s[i].cap()) {
                    l().violation(
                        "contents",
                        format!("stage {} holds {} (len {} empty {} full {}), expected {}", i, short(&v), len, empty, full, short(m)),
                    );
                }
            }
            Err(p) => l().violation("spurious-panic", format!("inspecting a stage panicked: {:?}", p)),
        }
    }
    /// Everything in the chain, oldest first, must be what the source gave away.
    fn conserve(&mut self) {
        if l().viol.is_some() {
            return;
        }
        let mut all: VecDeque<u8> = self.sink.iter().copied().collect();
        let n = self.s.len();
        all.extend(&self.pend[n]);
        for i in (0..n).rev() {
            all.extend(&self.m[i]);
            all.extend(&self.pend[i]);
        }
        if all != self.sent {
            l().violation("stream", format!("bytes in and behind the chain {:?} are not the bytes that entered it {:?}", tail(&all), tail(&self.sent)));
        }
    }
    /// Bytes offered to stage 0 or to a relay come from the pending store first, else fresh.
    fn fresh(&mut self, n: usize) -> Vec<u8> {
        (0..n as u64).map(|k| byte(self.next + k)).collect()
    }
    fn io<T>(&mut self, what: &str, r: Result<io::Result<T>, Pan>) -> Option<io::Result<T>> {
        self.st.steps += 1;
        match r {
            Ok(x) => Some(x),
            Err(Pan::Inj(_)) => None,
            Err(Pan::Lib(m)) => {
                l().violation("spurious-panic", format!("{} panicked: {}", what, m));
                None
            }
        }
    }
    fn amount(&self, x: u16, i: usize) -> usize {
        let cap = self.s[i].cap();
        match x % 8 {
            0 => self.free(i),
            1 => self.free(i) + 1,
            2 => self.m[i].len(),
            3 => self.m[i].len() + 1,
            4 => (x as usize / 8) % (2 * cap + 2),
            5 => (x as usize / 8) % 4,
            6 => cap + (x as usize / 8) % 3,
            _ => (x as usize / 8) % (cap + 1),
        }
    }
    fn bug(&self, msg: String) {
        l().violation("answer", msg)
    }
    fn accept(&mut self, i: usize, data: &[u8], n: usize) {
        self.m[i].extend(&data[..n]);
        if i == 0 {
            self.next += n as u64;
            self.sent.extend(&data[..n]);
        }
    }
    /// A consumer takes n bytes out of stage i for good: they leave the accounting of the chain
    /// only if this is the last stage (where they count as delivered); elsewhere they are held by
    /// the relay in front of the next stage.
    fn taken(&mut self, i: usize, got: &[u8], what: &str) {
        if got.len() > self.m[i].len() {
            self.bug(format!("{} invented bytes: {} read, {} present", what, got.len(), self.m[i].len()));
            return;
        }
        let want: Vec<u8> = self.m[i].drain(..got.len()).collect();
        if want != got {
            self.bug(format!("{} read {}, expected {}", what, short(got), short(&want)));
            return;
        }
        if let Some(b) = got.last() {
            self.last[i] = Some(*b)
        }
        self.pend[i + 1].extend(got);
    }
    /// A failed read consumed an unspecified number of bytes: a suffix must remain; the driver knows
    /// what the others were and carries them on.
    fn consumed(&mut self, i: usize) {
        let s = &mut self.s[i];
        match guarded(|| s.look()) {
            Ok((_, _, _, v)) => {
                let m = &self.m[i];
                if v.len() > m.len() || !m.iter().skip(m.len() - v.len()).eq(v.iter()) {
                    return self.bug(format!("after a failed read stage {} holds {}, not the end of {}", i, short(&v), short(m)));
                }
                let k = m.len() - v.len();
                let gone: Vec<u8> = self.m[i].drain(..k).collect();
                self.pend[i + 1].extend(gone);
            }
            Err(p) => l().violation("spurious-panic", format!("inspecting a stage panicked: {:?}", p)),
        }
    }
    /// Data a writer to stage i has at hand: stage 0 is fed from the source, others by their relay.
    fn supply(&mut self, i: usize, n: usize) -> Vec<u8> {
        if i == 0 {
            self.fresh(n)
        } else {
            self.pend[i].iter().copied().take(n).collect()
        }
    }
    fn gave(&mut self, i: usize, data: &[u8], n: usize) {
        self.accept(i, data, n);
        if i > 0 {
            self.pend[i].drain(..n);
        }
    }
    fn step(&mut self, op: &Op) {
        let f = match ALL.get(op.code as usize) {
            Some(f) => *f,
            None => return,
        };
        let n = self.s.len();
        let i = op.a as usize % n;
        let before = self.m[i].len();
        let calm = Weather { pat: mix(op.z as u64 + 77), bad: op.fk != 0 };
        let fault0: u64 = l().fault_counts.iter().sum();
        let name = NAMES[f as usize];
        l().ev(600 + f as u64, i as u64, op.x as u64);
        if l().trace {
            eprintln!("op {} stage {} amount {} free {} len {}", name, i, self.amount(op.x, i), self.free(i), self.m[i].len());
        }
        match f {
            F::Write | F::ZeroLen | F::WriteVectored => {
                let want = if f == F::ZeroLen { 0 } else { self.amount(op.x, i) };
                let data = self.supply(i, want);
                let s = &mut self.s[i];
                let cut = if data.is_empty() { 0 } else { op.y as usize % (data.len() + 1) };
                let r = guarded(|| {
                    if f == F::WriteVectored {
                        s.write_vectored(&[IoSlice::new(&[]), IoSlice::new(&data[..cut]), IoSlice::new(&data[cut..])])
                    } else {
                        s.write(&data)
                    }
                });
                let free = self.free(i);
                if data.len() > free {
                    l().count_fault(F_REJECT);
                }
                match self.io(name, r) {
                    Some(Ok(k)) => {
                        let max = data.len().min(free);
                        let first = if f != F::WriteVectored { max } else if cut > 0 { cut.min(free) } else { max };
                        if k > max || k < first {
                            self.bug(format!("{} accepted {} of {} bytes with room for {}", name, k, data.len(), free));
                        } else {
                            self.gave(i, &data, k)
                        }
                    }
                    Some(Err(e)) => self.bug(format!("{} failed: {}", name, e)),
                    None => {}
                }
            }
            F::WriteAll | F::BufWrite | F::WriteFmt | F::Chained => {
                let want = self.amount(op.x, i);
                let mut data = self.supply(i, want);
                if f == F::WriteFmt {
                    // only if the bytes are text
                    let k = data.iter().take_while(|b| b.is_ascii()).count();
                    data.truncate(k);
                }
                let s = &mut self.s[i];
                let y = op.y as usize;
                let r = guarded(|| match f {
                    F::WriteAll => s.write_all(&data),
                    F::WriteFmt => write!(s, "{}", std::str::from_utf8(&data).unwrap()),
                    F::Chained => {
                        let (p, q) = data.split_at(y % (data.len() + 1));
                        io::copy(&mut p.chain(q), s).and_then(|k| {
                            if k == data.len() as u64 {
                                Ok(())
                            } else {
                                Err(io::ErrorKind::WriteZero.into())
                            }
                        })
                    }
                    _ => {
                        let mut w = BufWriter::with_capacity(y % 9, s);
                        let mut r = Ok(());
                        for c in data.chunks(1 + (y / 9) % 5) {
                            r = w.write_all(c);
                            if r.is_err() {
                                break;
                            }
                        }
                        let r2 = if r.is_ok() { w.flush() } else { r };
                        drop(w);
                        r2
                    }
                });
                let free = self.free(i);
                let fits = data.len() <= free;
                if !fits {
                    l().count_fault(F_REJECT);
                }
                match self.io(name, r) {
                    Some(r) => {
                        if r.is_ok() != fits {
                            self.bug(format!("{} of {} bytes with room for {} gave {:?}", name, data.len(), free, r));
                        } else {
                            let k = data.len().min(free);
                            self.gave(i, &data, k)
                        }
                    }
                    None => {}
                }
            }
            F::Read | F::ReadVectored => {
                let want = self.amount(op.x, i);
                let mut g = Guard::new(want);
                let cut = op.y as usize % (want + 1);
                let s = &mut self.s[i];
                let r = guarded(|| {
                    if f == F::Read {
                        s.read(g.buf())
                    } else {
                        let (p, q) = g.buf().split_at_mut(cut);
                        s.read_vectored(&mut [IoSliceMut::new(&mut []), IoSliceMut::new(p), IoSliceMut::new(q)])
                    }
                });
                g.ok();
                match self.io(name, r) {
                    Some(Ok(k)) => {
                        let max = want.min(self.m[i].len());
                        let least = if f == F::Read || cut == 0 { max } else { cut.min(max) };
                        if k > max || k < least {
                            self.bug(format!("{} returned {} with {} present and {} asked for", name, k, self.m[i].len(), want));
                        } else {
                            let got = g.buf()[..k].to_vec();
                            self.taken(i, &got, name)
                        }
                    }
                    Some(Err(e)) => self.bug(format!("{} failed: {}", name, e)),
                    None => {}
                }
            }
            F::ReadExact => {
                let want = self.amount(op.x, i).min(self.m[i].len());
                let mut g = Guard::new(want);
                let s = &mut self.s[i];
                let r = guarded(|| s.read_exact(g.buf()));
                g.ok();
                match self.io(name, r) {
                    Some(Ok(())) => {
                        let got = g.buf().to_vec();
                        self.taken(i, &got, name)
                    }
                    Some(Err(e)) => self.bug(format!("{} of available bytes failed: {}", name, e)),
                    None => {}
                }
            }
            F::ReadToEnd | F::ByteIter => {
                let lim = self.amount(op.x, i);
                let s = &mut self.s[i];
                // the caller's vector may hold something already: it is appended to
                let head = if f == F::ReadToEnd { vec![0x5A; op.z as usize % 4] } else { vec![] };
                let mut out = head.clone();
                let r = guarded(|| {
                    if f == F::ByteIter {
                        for b in s.bytes().take(lim) {
                            out.push(b?)
                        }
                        Ok(out.len())
                    } else if op.y % 3 == 0 {
                        // a stage that never ends would run for ever: bounded by the watchdog
                        s.read_to_end(&mut out)
                    } else {
                        s.take(lim as u64).read_to_end(&mut out)
                    }
                });
                let want = if f == F::ReadToEnd && op.y % 3 == 0 { self.m[i].len() } else { lim.min(self.m[i].len()) };
                match self.io(name, r) {
                    Some(Ok(k)) => {
                        if k != want || out.len() != head.len() + want || out[..head.len()] != head[..] {
                            self.bug(format!("{} after {} bytes returned {} and left {}, expected {}", name, head.len(), k, out.len(), want))
                        } else {
                            self.taken(i, &out[head.len()..], name)
                        }
                    }
                    Some(Err(e)) => self.bug(format!("{} failed: {}", name, e)),
                    None => {}
                }
            }
            F::ReadToString => {
                let all: Vec<u8> = self.m[i].iter().copied().collect();
                let lim = if op.y % 2 == 0 { all.iter().take_while(|b| b.is_ascii()).count() } else { all.len() };
                let text = std::str::from_utf8(&all[..lim]).ok();
                let head = &"\u{e9}t\u{e9}"[..[0, 2, 5][op.z as usize % 3]];
                let mut out = String::from(head);
                let s = &mut self.s[i];
                let whole = lim == all.len();
                let r = guarded(|| if whole { s.read_to_string(&mut out) } else { s.take(lim as u64).read_to_string(&mut out) });
                match (self.io(name, r), text) {
                    (Some(Ok(k)), Some(t)) => {
                        if k != lim || !out.starts_with(head) || &out[head.len()..] != t {
                            self.bug(format!("{} after {:?} returned {} and left {:?}, expected {:?}", name, head, k, out, t))
                        } else {
                            self.taken(i, &all[..lim], name)
                        }
                    }
                    (Some(Err(_)), None) => {
                        if out != head {
                            self.bug(format!("{} failed and left {:?} where {:?} was", name, out, head))
                        }
                        l().count_fault(F_REJECT);
                        self.consumed(i)
                    }
                    (Some(r), t) => self.bug(format!("{} gave {:?}, expected {:?}", name, r, t)),
                    (None, _) => {}
                }
            }
            F::ReadExactShort => {
                // more than there is: an error; how much was consumed is the reader's business,
                // but what is left must be the newest bytes
                let want = self.m[i].len() + 1 + op.y as usize % 9;
                let mut g = Guard::new(want);
                let s = &mut self.s[i];
                let r = guarded(|| s.read_exact(g.buf()));
                g.ok();
                l().count_fault(F_REJECT);
                match self.io(name, r) {
                    Some(Ok(())) => self.bug(format!("{} of {} bytes succeeded with {} present", name, want, self.m[i].len())),
                    Some(Err(e)) if e.kind() != io::ErrorKind::UnexpectedEof => self.bug(format!("{} gave {:?}", name, e)),
                    Some(Err(_)) => self.consumed(i),
                    None => {}
                }
            }
            F::BufRead | F::Lines => {
                // a buffered reader takes more than it hands out: both parts must add up
                let s = &mut self.s[i];
                let mut out = vec![];
                let y = op.y as usize;
                let delim = self.m[i].get(y % (self.m[i].len() + 1)).copied();
                let r = guarded(|| {
                    let mut b = BufReader::with_capacity(1 + y % 7, s);
                    if f == F::BufRead {
                        for k in 0..1 + y / 7 % 4 {
                            let mut t = vec![0; k + 1];
                            let n = b.read(&mut t)?;
                            out.extend_from_slice(&t[..n]);
                        }
                    } else {
                        b.read_until(delim.unwrap_or(0), &mut out)?;
                    }
                    let n = out.len();
                    out.extend_from_slice(b.buffer());
                    Ok(n)
                });
                match self.io(name, r) {
                    Some(Ok(k)) => {
                        if f == F::Lines {
                            let d = delim.unwrap_or(0);
                            let want = self.m[i].iter().position(|b| *b == d).map(|p| p + 1).unwrap_or(self.m[i].len());
                            if k != want {
                                self.bug(format!("{} stopped after {} bytes, expected {}", name, k, want));
                            }
                        }
                        self.taken(i, &out, name)
                    }
                    Some(Err(e)) => self.bug(format!("{} failed: {}", name, e)),
                    None => {}
                }
            }
            F::Source => {
                // producer: read what fits from the source, write it to the first stage
                let want = self.amount(op.x, 0);
                let mut buf = vec![0; want];
                let start = self.next;
                let mut next = self.next;
                let r = guarded(|| Source { next: &mut next, w: calm }.read(&mut buf));
                if let Some(Ok(k)) = self.io(name, r) {
                    debug_assert!(next == start + k as u64);
                    // what the stage does not take stays with the producer, i.e. is not yet sent
                    let s = &mut self.s[0];
                    let r = guarded(|| s.write(&buf[..k]));
                    match self.io(name, r) {
                        Some(Ok(j)) => {
                            if j != k.min(self.free(0)) {
                                self.bug(format!("write accepted {} of {} bytes with room for {}", j, k, self.free(0)));
                            } else {
                                self.accept(0, &buf, j)
                            }
                        }
                        Some(Err(e)) => self.bug(format!("write failed: {}", e)),
                        None => {}
                    }
                }
            }
            F::SourceCopy => {
                let lim = self.amount(op.x, 0).min(self.free(0));
                let start = self.next;
                let mut next = self.next;
                let s = &mut self.s[0];
                let r = guarded(|| {
                    let mut src = Source { next: &mut next, w: calm }.take(lim as u64);
                    io::copy(&mut src, s)
                });
                // everything the source gave away went into the stage, whatever ended the copy
                let moved = (next - start) as usize;
                let data = self.fresh(moved);
                let r = self.io(name, r);
                self.accept(0, &data, moved);
                match r {
                    Some(Ok(k)) if k as usize != lim || moved != lim => {
                        self.bug(format!("copying {} bytes moved {} and reported {}", lim, moved, k))
                    }
                    _ => {}
                }
            }
            F::Relay => {
                // read a piece from stage i, offer everything pending to the next stage or the sink
                let want = self.amount(op.x, i);
                let mut buf = vec![0; want];
                let s = &mut self.s[i];
                let r = guarded(|| s.read(&mut buf));
                match self.io(name, r) {
                    Some(Ok(k)) => {
                        if k != want.min(self.m[i].len()) {
                            self.bug(format!("read returned {} with {} present and {} asked for", k, self.m[i].len(), want));
                            return;
                        }
                        let got = buf[..k].to_vec();
                        self.taken(i, &got, name)
                    }
                    Some(Err(e)) => self.bug(format!("read failed: {}", e)),
                    None => {}
                }
                if l().viol.is_none() {
                    self.forward(i + 1, calm)
                }
                if i + 1 < n {
                    self.check(i + 1)
                }
            }
            F::RelayCopy => {
                if i + 1 >= n || !self.pend[i + 1].is_empty() {
                    return;
                }
                let lim = self.amount(op.x, i).min(self.free(i + 1));
                let (p, q) = self.s.split_at_mut(i + 1);
                let (a, b) = (&mut p[i], &mut q[0]);
                let r = guarded(|| io::copy(&mut a.take(lim as u64), b));
                let want = lim.min(self.m[i].len());
                match self.io(name, r) {
                    Some(Ok(k)) => {
                        if k as usize != want {
                            self.bug(format!("copying {} bytes between stages reported {}", want, k));
                        } else {
                            let d: Vec<u8> = self.m[i].drain(..want).collect();
                            self.m[i + 1].extend(d);
                        }
                    }
                    Some(Err(e)) => self.bug(format!("copying between stages failed: {}", e)),
                    None => {}
                }
                self.check(i + 1)
            }
            F::Sink => self.forward(n, calm),
            F::SinkCopy => {
                // straight from the last stage to the sink: the copy retries interrupts itself; when it
                // fails, the piece it was writing is lost by the copier, so the sink is calm here
                if !self.pend[n].is_empty() {
                    return;
                }
                let lim = self.amount(op.x, n - 1);
                let s = &mut self.s[n - 1];
                let got = &mut self.sink;
                let l0 = got.len();
                let r = guarded(|| io::copy(&mut s.take(lim as u64), &mut Sink { got, w: Weather { pat: 0, bad: false } }));
                let want = lim.min(self.m[n - 1].len());
                let r = self.io(name, r);
                match r {
                    Some(Ok(k)) => {
                        let d: Vec<u8> = self.m[n - 1].drain(..want).collect();
                        if k as usize != want || self.sink[l0..] != d[..] {
                            self.bug(format!("copying to the sink reported {} and delivered {}, expected {}", k, short(&self.sink[l0..]), short(&d)));
                        }
                    }
                    Some(Err(e)) => self.bug(format!("copying to the sink failed: {}", e)),
                    None => {}
                }
                self.check(n - 1)
            }
            F::Failover => {
                l().count_fault(F_IO_CRASH);
                let s = &self.s[i];
                match guarded(|| s.copy(op.y as usize)) {
                    Ok(c) => self.s[i] = c,
                    Err(p) => l().violation("spurious-panic", format!("copying a stage panicked: {:?}", p)),
                }
            }
            F::Unread => {
                // the relay hands the last byte it took back to the front of the stage
                if self.free(i) == 0 || self.pend[i + 1].is_empty() {
                    return;
                }
                let b = self.pend[i + 1].pop_back().unwrap();
                let s = &mut self.s[i];
                if let Err(p) = guarded(|| s.unread(b)) {
                    l().violation("spurious-panic", format!("push_front panicked: {:?}", p));
                }
                self.m[i].push_front(b);
            }
            F::Flush => {
                let s = &mut self.s[i];
                let r = guarded(|| s.flush());
                if let Some(Err(e)) = self.io(name, r) {
                    self.bug(format!("flush failed: {}", e))
                }
            }
            F::Shift => {
                let s = &mut self.s[i];
                let y = op.y as usize % 300;
                if let Err(p) = guarded(|| s.shift(y)) {
                    l().violation("spurious-panic", format!("cycling bytes panicked: {:?}", p));
                }
                // taking one byte off the back and putting it into the relay's hands is a plain rewind
                if op.z % 4 == 0 && i == 0 {
                    let s = &mut self.s[0];
                    if let Ok(Some(b)) = guarded(|| s.take_back()) {
                        let want = self.m[0].pop_back();
                        if want != Some(b) {
                            self.bug(format!("pop_back gave {}, expected {:?}", b, want));
                        }
                        self.sent.pop_back();
                        self.next -= 1;
                    }
                }
            }
        }
        self.st.ops_effective += 1;
        *self.st.per_op.entry(op_name(op.code)).or_insert(0) += 1;
        self.check(i);
        self.check(0);
        self.conserve();
        let fired = (l().fault_counts.iter().sum::<u64>() > fault0) as u64;
        let ty = stages(self.config)[i] as u64;
        self.st.state(mix(
            0x71 << 56 | ty << 48 | (op.code as u64) << 40 | (before as u64) << 24 | (self.m[i].len() as u64) << 8 | fired,
        ));
    }
    /// Offer what is pending in front of stage j (or the sink) once.
    fn forward(&mut self, j: usize, w: Weather) {
        let data: Vec<u8> = self.pend[j].iter().copied().collect();
        if j == self.s.len() {
            let got = &mut self.sink;
            let r = guarded(|| Sink { got, w }.write(&data));
            if let Some(Ok(k)) = self.io("sink", r) {
                self.pend[j].drain(..k);
            }
        } else {
            let s = &mut self.s[j];
            let r = guarded(|| s.write(&data));
            match self.io("relay", r) {
                Some(Ok(k)) => {
                    if k != data.len().min(self.free(j)) {
                        self.bug(format!("write accepted {} of {} bytes with room for {}", k, data.len(), self.free(j)));
                    } else {
                        self.gave(j, &data, k)
                    }
                }
                Some(Err(e)) => self.bug(format!("write failed: {}", e)),
                None => {}
            }
        }
    }
    /// The endpoints behave again: everything must arrive within a bounded number of steps.
    fn settle(&mut self) {
        let n = self.s.len();
        let calm = Weather { pat: 0, bad: false };
        let total = self.sent.len();
        let bound = (total + 2) * (n + 2);
        let mut rounds = 0;
        let size = 32.max(self.s.iter().map(|s| s.cap()).max().unwrap_or(0) / 64);
        while self.sink.len() < self.sent.len() {
            if l().viol.is_some() {
                return;
            }
            rounds += 1;
            if rounds > bound {
                l().violation("progress", format!("{} of {} bytes delivered after {} quiet rounds", self.sink.len(), total, rounds));
                return;
            }
            self.forward(n, calm);
            for i in (0..n).rev() {
                let mut buf = vec![0u8; size];
                let s = &mut self.s[i];
                let r = guarded(|| s.read(&mut buf));
                match self.io("read", r) {
                    Some(Ok(k)) if k <= size => {
                        let got = buf[..k].to_vec();
                        self.taken(i, &got, "read");
                    }
                    Some(r) => self.bug(format!("read of {} bytes gave {:?}", size, r)),
                    None => return,
                }
                if l().viol.is_some() {
                    return;
                }
                self.forward(i + 1, calm);
            }
            if rounds % ((if n > 1 { 1 } else { 4 }) + total / 2000) == 0 {
                self.conserve();
            }
        }
        for i in 0..n {
            self.check(i);
        }
        if l().viol.is_none() && self.sink.iter().ne(self.sent.iter()) {
            l().violation("stream", "the sink did not receive the stream that was sent".into());
        }
        l().probe("pipe_settled");
    }
}
fn short<'a>(v: impl IntoIterator<Item = &'a u8>) -> String {
    let v: Vec<u8> = v.into_iter().copied().collect();
    if v.len() <= 60 {
        format!("{:?}", v)
    } else {
        format!("{} bytes from {:?} to {:?}", v.len(), &v[..30], &v[v.len() - 30..])
    }
}
fn tail(v: &VecDeque<u8>) -> Vec<u8> {
    v.iter().rev().take(40).rev().copied().collect()
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, 0x919e ^ prop.len() as u64, index);
    let n = 1 + r.below(4) as usize;
    let n = if r.chance(300) { 1 } else { n };
    let mut config = 0;
    // the two large ones are slow to check, and must not wait for a tiny one behind them
    let large = r.chance(20);
    for _ in 0..n {
        let t = if large { [5, 12, 13, 14, 15, 15, 16, 16][r.below(8) as usize] } else { r.below(TYPES as u64 - 2) as usize };
        config = config * (TYPES + 1) + 1 + t;
    }
    let table: Vec<(u8, u32)> = ALL
        .iter()
        .map(|f| {
            let w = match f {
                F::Write | F::Read => 8,
                F::Relay | F::Source => 10,
                F::Shift | F::Failover => 4,
                F::RelayCopy | F::SourceCopy => 5,
                F::Flush | F::ZeroLen => 1,
                _ => 3,
            };
            (*f as u8, w * (1 + r.below(6) as u32))
        })
        .filter(|_| true)
        .collect();
    let table: Vec<(u8, u32)> = table.into_iter().filter(|t| t.0 <= 1 || r.chance(650)).collect();
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();
    let bad = if r.chance(250) { 0 } else { [200, 500, 800][r.below(3) as usize] };
    let nops = 4 + r.below(70) as usize;
    let mut ops = vec![];
    for _ in 0..nops {
        let code = table[r.weighted(&weights)].0;
        ops.push(Op {
            code,
            a: r.below(n as u64) as u8,
            b: 0,
            x: r.below(60_000) as u16,
            y: r.below(60_000) as u16,
            z: r.below(60_000) as u16,
            fk: if r.chance(bad) { F_IO_SHORT } else { 0 },
            fnth: 0,
        });
    }
    Case { prop: prop.into(), engine: "pipe".into(), config, seed, index, ops }
}
