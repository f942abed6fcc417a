//! Draws a case from the seed: configuration, workload mix, fault mix, sizes - all swarm style.
use super::config::Cfg;
use super::engine::*;
use super::rig::{Kind, F};
use crate::case::*;
use crate::ledger::*;
use crate::rng::Rng;

const BASE: &[(F, u32)] = &[
    (F::PushBack, 10), (F::PushFront, 8), (F::PopBack, 6), (F::PopFront, 6), (F::Insert, 10), (F::Remove, 8),
    (F::Set, 4), (F::Get, 3), (F::IndexAt, 2), (F::IndexMutAt, 2), (F::FirstLast, 2), (F::Swap, 3), (F::Clear, 3),
    (F::DropLeft, 5), (F::DropRight, 5), (F::Split, 6), (F::Append, 6), (F::DrainFromFront, 5), (F::DrainFromBack, 5),
    (F::FromFront, 3), (F::FromBack, 3), (F::DrainFrom, 2), (F::CollectFrom, 3), (F::FromIter, 3), (F::Extend, 5),
    (F::ExtendRefs, 2), (F::ExtendRefsOf, 2), (F::InsertFrom, 8), (F::InsertOrdered, 3), (F::CloneTo, 4), (F::CloneFrom, 2),
    (F::PoolClone, 2), (F::SubCopy, 2), (F::Rel, 2), (F::EqVec, 2), (F::Sort, 2), (F::BSearch, 2), (F::View, 3),
    (F::Drain, 5), (F::DrainInto, 3), (F::IterWalk, 3), (F::IterMutWalk, 3), (F::IntoIter, 3), (F::FlightStep, 4),
    (F::FlightEnd, 3), (F::FlightTo, 3), (F::Unit, 1), (F::Pair, 1), (F::FromInline, 3), (F::MoveSite, 1),
    (F::DropSite, 3), (F::ForgetSite, 1), (F::HandDrop, 4),
];

fn boost(prop: &str) -> (&'static [F], u32) {
    use F::*;
    match prop {
        "C03" => (&[Insert, Remove, Set, Swap, DropLeft, DropRight, Split, Append, DrainFromFront, DrainFromBack, FromFront, FromBack,
            CollectFrom, FromIter, Extend, ExtendRefs, ExtendRefsOf, InsertFrom, DrainInto, View, SubCopy, IndexAt, IndexMutAt, Get, Unit, Pair, FromInline, FlightTo], 5),
        "C08" => (&[Drain, DrainInto, IterWalk, IterMutWalk, IntoIter, FlightStep, FlightEnd, FlightTo], 8),
        "C09" => (&[InsertFrom, Extend, FromIter, CollectFrom], 14),
        "C10" => (&[CloneTo, CloneFrom, PoolClone, SubCopy, ExtendRefs, ExtendRefsOf], 10),
        "C11" => (&[Clear, DropLeft, DropRight, DropSite, FlightEnd, FlightStep, Drain, CloneFrom, IntoIter, Set, HandDrop], 8),
        "C12" => (&[Rel, EqVec, Sort, BSearch, InsertOrdered], 12),
        "C19" => (&[Split, Append, DrainFromFront, DrainFromBack, FromFront, FromBack, DrainFrom, DrainInto, FlightTo, FromInline, MoveSite], 7),
        _ => (&[], 1),
    }
}

fn kinds(prop: &str) -> &'static [Kind] {
    match prop {
        "C04" => &[Kind::Chunk],
        "C05" => &[Kind::Ring],
        "C06" => &[Kind::Inline],
        "C09" => &[Kind::Chunk, Kind::Chunk, Kind::Ring, Kind::Ring, Kind::Inline],
        "C19" => &[Kind::Chunk, Kind::Chunk, Kind::Ring, Kind::Ring, Kind::Inline],
        _ => &[Kind::Chunk, Kind::Ring, Kind::Inline],
    }
}

/// Fault kinds that can fire inside a call.
fn faults(f: F) -> &'static [u8] {
    use F::*;
    match f {
        Clear | DropLeft | DropRight | DropSite | FlightEnd | HandDrop => &[F_DROP],
        FlightStep | Drain => &[F_DROP],
        CollectFrom => &[F_NEXT, F_NEXT, F_LEN],
        FromIter | Extend => &[F_NEXT, F_NEXT, F_NEXT, F_LEN, F_INTO],
        InsertFrom => &[F_NEXT, F_NEXT, F_NEXT, F_LEN, F_LEN, F_INTO],
        ExtendRefs | ExtendRefsOf | CloneTo | PoolClone | SubCopy => &[F_CLONE],
        CloneFrom => &[F_CLONE, F_CLONE, F_DROP],
        InsertOrdered | BSearch => &[F_CMP, F_CMP, F_CHAOS],
        Sort => &[F_CMP, F_CMP, F_CHAOS],
        Rel => &[F_EQ, F_CMP, F_HASH, F_FMT, F_CHAOS],
        EqVec => &[F_EQ],
        Set => &[F_DROP],
        _ => &[],
    }
}

pub fn generate(prop: &str, seed: u64, index: u64, cfgs: &[Cfg]) -> Case {
    let stream = 0x5e9 ^ prop.bytes().fold(0u64, |h, b| h.wrapping_mul(131) + b as u64);
    let mut r = Rng::new(seed, stream, index);
    let kind = *r.pick(kinds(prop));
    let cand: Vec<usize> = (0..cfgs.len()).filter(|i| cfgs[*i].kind == kind).collect();
    let w: Vec<u32> = cand.iter().map(|i| cfgs[*i].weight).collect();
    let config = cand[r.weighted(&w)];
    let cap = cfgs[config].cap;

    // swarm: each run uses its own subset of operations
    let (boosted, by) = boost(prop);
    let keep = 400 + r.below(600);
    let mut table: Vec<(u8, u32)> = vec![];
    for (f, w) in BASE {
        if !supported(kind, *f) {
            continue;
        }
        let b = boosted.contains(f);
        let k = if b { keep.max(700) } else { keep };
        let basic = matches!(f, F::PushBack | F::PushFront | F::PopBack | F::PopFront);
        if !basic && !r.chance(k) {
            continue;
        }
        let mut w = w * if b { by } else { 1 };
        w = 1 + w * (4 + r.below(12) as u32);
        table.push((*f as u8, w));
    }
    let sum: u32 = table.iter().map(|t| t.1).sum();
    let sp = |x: u32| (sum as u64 * x as u64 / 1000) as u32 + 1;
    table.push((OP_FILL, sp(if prop == "C03" { 90 } else { 45 })));
    table.push((OP_ROTATE, sp(30)));
    table.push((OP_RESET, sp(12)));
    if matches!(prop, "C12") {
        table.push((OP_SORTED, sp(100)));
    } else {
        table.push((OP_SORTED, sp(8)));
    }
    let small = cap <= 20;
    table.push((OP_HEAL, sp(if prop == "C15" { if small { 60 } else { 10 } } else { 3 })));
    table.push((OP_TWIN, sp(if prop == "C18" { 250 } else { 6 })));
    let weights: Vec<u32> = table.iter().map(|t| t.1).collect();

    let fault_free = r.chance(match prop {
        "C11" | "C10" | "C09" => 100,
        _ => 300,
    });
    let frate = if fault_free { 0 } else { [150, 350, 600, 850][r.below(4) as usize] };
    let wild = [0, 30, 120, 300][r.below(4) as usize] + if prop == "C03" { 150 } else { 0 };
    let lie = if fault_free { 0 } else { [0, 200, 500][r.below(3) as usize] };
    // per run: which fault kinds are enabled
    let mut enabled = [true; 16];
    for e in enabled.iter_mut() {
        *e = r.chance(750);
    }
    match prop {
        "C09" => {
            enabled[F_NEXT as usize] = r.chance(900);
            enabled[F_LEN as usize] = r.chance(700)
        }
        "C10" => enabled[F_CLONE as usize] = true,
        "C11" => enabled[F_DROP as usize] = true,
        _ => {}
    }
    let span = match r.below(4) {
        0 => 10,
        1 => 30,
        2 => 50,
        _ => 80,
    };
    let nops = 4 + r.below(span) as usize;
    // often only two sites, to make them meet
    let nsites = if r.chance(400) { 2 } else { 3 };
    let mut ops: Vec<Op> = Vec::with_capacity(nops + 2);
    let arg = |r: &mut Rng| -> u16 {
        if r.chance(wild) {
            WILD + r.below(12) as u16
        } else {
            r.below(59_900) as u16
        }
    };
    for _ in 0..nops {
        let code = table[r.weighted(&weights)].0;
        let mut op = Op {
            code,
            a: r.below(nsites) as u8,
            b: r.below(2) as u8,
            x: arg(&mut r),
            y: arg(&mut r),
            z: r.below(30_000) as u16,
            fk: 0,
            fnth: 0,
        };
        if nsites == 2 {
            // (a, other of 0/1)
            op.b = if op.a == 0 { 0 } else { 1 };
        }
        if r.chance(lie) {
            op.b |= 8;
        }
        if (code as usize) < ALL_F.len() && r.chance(frate) {
            let fs: Vec<u8> = faults(ALL_F[code as usize]).iter().copied().filter(|k| enabled[*k as usize & 15]).collect();
            if !fs.is_empty() {
                op.fk = *r.pick(&fs);
                op.fnth = match r.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => r.below(4),
                    _ => r.below(cap.min(40) as u64 + 2),
                } as u8;
            }
        }
        ops.push(op);
        // bias: something happens right after a fault
        if op.fk != 0 && r.chance(200) {
            let mut o2 = op;
            o2.code = table[r.weighted(&weights)].0;
            o2.fk = 0;
            ops.push(o2);
        }
    }
    // faults stop: bounded recovery to full capacity
    let heal = if prop == "C15" { 1000 } else if small { 250 } else { 40 };
    if r.chance(heal) {
        ops.push(Op { code: OP_HEAL, a: r.below(nsites) as u8, b: 0, x: r.below(64) as u16, y: r.below(64) as u16, z: r.below(4096) as u16, fk: 0, fnth: 0 });
    }
    Case { prop: prop.into(), engine: "seq".into(), config, seed, index, ops }
}
