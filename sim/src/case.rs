//! A case is a complete, self-contained description of one simulated run: executing it draws no
//! randomness, so a case file replays exactly, and any sub-list of its operations is a valid case.
use crate::ledger::*;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Op {
    pub code: u8,
    pub a: u8,
    pub b: u8,
    pub x: u16,
    pub y: u16,
    pub z: u16,
    /// Fault armed for this operation, firing at its `fnth`-th callback of that kind.
    pub fk: u8,
    pub fnth: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Case {
    pub prop: String,
    pub engine: String,
    pub config: usize,
    pub seed: u64,
    pub index: u64,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn to_text(&self, names: &dyn Fn(&Op) -> String) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "engine {}", self.engine);
        let _ = writeln!(s, "config {}", self.config);
        let _ = writeln!(s, "seed {} index {}", self.seed, self.index);
        for o in &self.ops {
            let _ = writeln!(
                s,
                "op {} {} {} {} {} {} {} {}  # {}",
                o.code, o.a, o.b, o.x, o.y, o.z, o.fk, o.fnth, names(o)
            );
        }
        s
    }
    pub fn parse(text: &str) -> Option<Case> {
        let mut c = Case { prop: String::new(), engine: String::new(), config: 0, seed: 0, index: 0, ops: vec![] };
        for line in text.lines() {
            let line = line.split('#').next().unwrap_or("").trim();
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.as_slice() {
                ["property", p] => c.prop = p.to_string(),
                ["engine", p] => c.engine = p.to_string(),
                ["config", p] => c.config = p.parse().ok()?,
                ["seed", s, "index", i] => {
                    c.seed = s.parse().ok()?;
                    c.index = i.parse().ok()?;
                }
                ["op", rest @ ..] if rest.len() == 8 => {
                    let v: Option<Vec<u32>> = rest.iter().map(|x| x.parse().ok()).collect();
                    let v = v?;
                    c.ops.push(Op {
                        code: v[0] as u8,
                        a: v[1] as u8,
                        b: v[2] as u8,
                        x: v[3] as u16,
                        y: v[4] as u16,
                        z: v[5] as u16,
                        fk: v[6] as u8,
                        fnth: v[7] as u8,
                    });
                }
                _ => {}
            }
        }
        if c.engine.is_empty() {
            None
        } else {
            Some(c)
        }
    }
}

pub fn fault_name(k: u8) -> &'static str {
    FAULT_NAMES.get(k as usize).copied().unwrap_or("?")
}

/// Turn a raw argument into an index/count: mostly within 0..valid, sometimes far outside.
pub const WILD: u16 = 60000;
pub fn sel(x: u16, valid: usize, len: usize, cap: usize) -> usize {
    if x < WILD {
        if valid == 0 {
            0
        } else {
            x as usize % valid
        }
    } else {
        match (x - WILD) % 12 {
            0 => valid,
            1 => valid.wrapping_add(1),
            2 => cap,
            3 => cap.wrapping_add(1),
            4 => usize::MAX,
            5 => usize::MAX - 1,
            6 => usize::MAX - len,
            7 => usize::MAX / 2 + 1,
            8 => len.wrapping_add(cap),
            9 => (usize::MAX - cap.min(usize::MAX / 2)).wrapping_add(1).wrapping_add(len),
            10 => usize::MAX - cap.min(usize::MAX / 2),
            _ => len + 2,
        }
    }
}

/// What a run reports.
pub struct Stats {
    pub steps: u64,
    pub ops_effective: u64,
    pub rejects: u64,
    pub states: std::collections::HashSet<u64>,
    pub per_op: std::collections::BTreeMap<String, u64>,
    pub per_config: std::collections::BTreeMap<String, u64>,
}
impl Stats {
    pub fn new() -> Self {
        Stats {
            steps: 0,
            ops_effective: 0,
            rejects: 0,
            states: Default::default(),
            per_op: Default::default(),
            per_config: Default::default(),
        }
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 400_000 {
            self.states.insert(h);
        }
    }
}
