//! Which engines serve which property.
use crate::case::*;
use crate::rng::Rng;
use crate::{fit, gen, keys, loose, pipe, pool, seq, sparse, views, work};

pub struct World {
    pub seq: Vec<seq::config::Cfg>,
    pub sparse: Vec<sparse::Cfg>,
    pub views: Vec<views::Cfg>,
}
impl World {
    pub fn new() -> Self {
        World { seq: seq::config::all(), sparse: sparse::all(), views: views::all() }
    }
}

fn mix_for(prop: &str) -> &'static [(&'static str, u32)] {
    match prop {
        "C07" => &[("sparse", 1)],
        "C13" => &[("pipe", 1)],
        "C14" => &[("views", 1)],
        "C16" => &[("gen", 1)],
        "C17" => &[("pool", 1)],
        "C20" => &[("keys", 1)],
        "N02" => &[("fit", 1)],
        "N03" => &[("work", 1)],
        "C12" => &[("seq", 7), ("sparse", 2), ("loose", 1)],
        "C18" => &[("seq", 7), ("sparse", 2), ("loose", 1)],
        "C01" | "C02" | "C03" | "C08" | "C10" | "C11" | "C15" => &[("seq", 4), ("sparse", 1)],
        _ => &[("seq", 1)],
    }
}

pub fn generate(prop: &str, seed: u64, index: u64, w: &World) -> Case {
    let m = mix_for(prop);
    let mut r = Rng::new(seed, 0xe61e, index);
    let weights: Vec<u32> = m.iter().map(|x| x.1).collect();
    match m[r.weighted(&weights)].0 {
        "pipe" => pipe::generate(prop, seed, index),
        "keys" => keys::generate(prop, seed, index),
        "work" => work::generate(prop, seed, index),
        "fit" => fit::generate(prop, seed, index),
        "loose" => loose::generate(prop, seed, index),
        "gen" => gen::generate(prop, seed, index),
        "pool" => pool::generate(prop, seed, index),
        "views" => views::generate(prop, seed, index, &w.views),
        "sparse" => sparse::generate(prop, seed, index, &w.sparse),
        _ => seq::gen::generate(prop, seed, index, &w.seq),
    }
}

pub fn run(case: &Case, st: &mut Stats) {
    match case.engine.as_str() {
        "seq" => {
            let all = seq::config::all();
            let cfg = &all[case.config % all.len()];
            let rig = match crate::ledger::guarded(|| (cfg.make)()) {
                Ok(r) => r,
                Err(p) => {
                    crate::ledger::l().violation("spurious-panic", format!("creating an empty container panicked: {:?}", p));
                    return;
                }
            };
            seq::engine::Sim::new(rig, st, case.config).run(case)
        }
        "sparse" => sparse::run(case, st),
        "pipe" => pipe::run(case, st),
        "keys" => keys::run(case, st),
        "work" => work::run(case, st),
        "fit" => fit::run(case, st),
        "loose" => loose::run(case, st),
        "gen" => gen::run(case, st),
        "pool" => pool::run(case, st),
        "views" => views::run(case, st),
        e => crate::ledger::l().violation("bad-case", format!("unknown engine {}", e)),
    }
}

pub fn config_name(case: &Case, w: &World) -> String {
    match case.engine.as_str() {
        "pipe" => pipe::config_name(case.config),
        "keys" => keys::config_name(case.config),
        "work" => work::config_name(case.config),
        "fit" => fit::config_name(case.config),
        "loose" => loose::config_name(case.config),
        "gen" => gen::config_name(case.config),
        "pool" => pool::config_name(case.config),
        "views" => w.views[case.config % w.views.len()].name.to_string(),
        "sparse" => w.sparse[case.config % w.sparse.len()].name.to_string(),
        _ => w.seq[case.config % w.seq.len()].name.to_string(),
    }
}

pub fn op_text(case: &Case, o: &Op) -> String {
    let name = match case.engine.as_str() {
        "sparse" => sparse::op_name(o.code),
        "pipe" => pipe::op_name(o.code),
        "keys" => keys::op_name(o.code),
        "work" => work::op_name(o.code),
        "fit" => fit::op_name(o.code),
        "loose" => loose::op_name(o.code),
        "gen" => gen::op_name(o.code),
        "pool" => pool::op_name(o.code),
        "views" => views::op_name(o.code),
        _ => seq::engine::op_name(o.code),
    };
    if o.fk != 0 {
        format!("{} with {} at callback {}", name, fault_name(o.fk), o.fnth)
    } else {
        name
    }
}

pub fn knows(prop: &str) -> bool {
    PROPS.contains(&prop)
}

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "N02", "N03",
];

/// Runs and wall-clock limit (seconds).
pub fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let base = match prop {
        "C15" | "C17" | "C18" => 250_000,
        _ => 400_000,
    };
    if thorough {
        (base * 30, 780)
    } else {
        (base, 60)
    }
}

const NONTRIVIAL: &str = "; a run is non-trivial if at least one fault fired and at least three operations took effect; distinct means \
     different event-log hash (every callback, allocation of a token, destruction and observation is an event)";

pub fn rule(prop: &str) -> String {
    let seq = "each run draws from the seed a container type, a random subset of operations (swarm), sizes, argument styles \
     (valid, boundary, far out of range) and a fault plan, then executes 8-60 operations on three or more containers \
     and in-flight iterators against list models";
    let sparse = "each run draws a SparseChunk type, a random subset of operations, argument styles and a fault plan, then executes \
     4-84 operations on three containers and in-flight iterators against ordered-map models";
    let text = match prop {
        "C07" => sparse.to_string(),
        "C13" => "each run draws a chain of one to four byte containers, a random subset of operations and a weather pattern for the endpoints, \
             then executes 4-74 reads, writes, relays, fail-overs and shifts against bounded byte queues, and finally lets the \
             endpoints behave and requires the whole stream to arrive within a bounded number of rounds".to_string(),
        "C14" => "each run draws a RingBuffer type, contents and an origin, then opens, splits, narrows, searches, compares, iterates, writes \
             and sorts through several live views whose steps are interleaved by the seed (including from inside each other's \
             comparison callbacks and between iterator steps), with argument and callback faults".to_string(),
        "C16" => "each run draws an element decoding style, then 3-24 operations: byte sources (empty, short, biased to run to capacity), \
             truncation, draws of 38 container types (six of them nested) with and without take_rest, decode errors and panics \
             at a chosen element, repeated draws of the same bytes, later use of what was generated".to_string(),
        "C20" => "each run draws a container type, fills a hash map and an ordered map with containers as keys (short, few distinct elements, so equal \
             keys, prefixes and near misses are common), then executes 8-68 insertions, lookups, updates, removals, re-keyings, ranges and \
             splits by slice or by an equal container of another layout, with panics in hashing, equality and ordering".to_string(),
        "N03" => "each run draws a container type and executes 8-57 operations on two containers, with refused requests and panics in element and \
             source code, and counts for each operation that ran through the elements that changed their address and the calls into element \
             and source code".to_string(),
        "N02" => "each run draws a pair of element and host type, places three inline arrays at random addresses of an arena of watched, dirty \
             bytes, then executes 6-45 operations on them (fill to capacity, insert, remove, split, copy, move to another address, swap, \
             overwrite, drain, consume, rebuild) against list models and size arithmetic, with destructor and clone panics".to_string(),
        "C17" => "each run draws a container type and pool sizes 0-8, a fill pattern for fresh memory, then 8-58 operations on shared handles, \
             boxes and free values against a table of cells, with clone and destructor panics".to_string(),
        "C04" | "C05" | "C06" | "C09" | "C19" => seq.to_string(),
        "C12" | "C18" => format!(
            "seven of ten runs: {}; two of ten: {}; the tenth: containers of elements that are not equal to themselves, equal though \
             different, or not ordered, each compared 10-68 times with itself, copies, near misses, lists, views and maps, with panics \
             in equality and ordering",
            seq, sparse
        ),
        _ => format!("four of five runs: {}; the fifth: {}", seq, sparse),
    };
    text + NONTRIVIAL
}
pub fn measure(prop: &str) -> &'static str {
    match prop {
        "C13" => "distinct tuples (stage type, operation, length before, length after, whether the endpoint misbehaved)",
        "C16" => "distinct tuples (container type, decoding style, outcome, elements decoded when it ended, take_rest or not)",
        "C20" => "distinct tuples (container type, operation, sizes of both maps, callback at which the fault fired)",
        "N03" => "distinct tuples (container type, operation, length, free places in front, fault, outcome)",
        "N02" => "distinct tuples (element and host type, operation, length, fault and callback)",
        "C17" => "distinct tuples (container type, operation, length, clones made when the call ended, sharing, free cells in the pool)",
        _ => "distinct tuples (container type, operation, length, position of the contents in storage, outcome, callback at which the fault fired)",
    }
}
pub fn real(_prop: &str) -> &'static str {
    "all of sized-chunks (path dependency on /repo's working tree), array-ops, bitmaps, refpool, arbitrary, std collections"
}
pub fn stubs(prop: &str) -> &'static str {
    match prop {
        "C13" => "the byte source and sink at the ends of the chain",
        "C16" => "element types and their decoders (registered tokens); the byte source's contents",
        "N02" => "element types (byte patterns counted by value, injectable clone and destructor), host types, the memory arrays are placed in",
        "C17" => "element types (registered tokens with injectable clone and destructor); the global allocator's fill pattern",
        _ => "element types (registered tokens with injectable destructor/clone/compare/hash/format), supplied iterators, comparator callbacks",
    }
}
