//! Plans (what one simulated run does), reports (what came of it).
use crate::ops::*;
use crate::rngs::mix;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub tasks: Vec<Vec<Step>>,
    /// task switches: after how many seam crossings, to which task
    pub sched: Vec<(u32, u8)>,
    /// size of a statistical batch (H02), otherwise unused
    pub batch: u32,
    /// build of the simulator whose seams the schedule counts; empty: any
    #[serde(default)]
    pub build: String,
}

/// which build this is
pub const BUILD: &str = if cfg!(feature = "statics") {
    "statics"
} else if cfg!(feature = "race") {
    "race"
} else {
    ""
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), msg: msg.into() })
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub log: u64,
    pub digests: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub violation: Option<Violation>,
}

#[derive(Default)]
pub struct Rec {
    pub r: Report,
}
impl Rec {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.r.counters.entry(k.into()).or_default() += n;
        }
    }
    pub fn one(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn log(&mut self, v: u64) {
        self.r.log = mix(&[self.r.log, v]);
    }
    pub fn nontrivial(&mut self) {
        self.r.nontrivial = true;
    }
    /// run one operation and record what happened
    pub fn run(&mut self, step: &Step) -> OpOut {
        let out = run_step(step);
        self.note(step, &out);
        out
    }
    pub fn note(&mut self, step: &Step, out: &OpOut) {
        let d = out.digest();
        self.log(d);
        self.r.digests.push(d);
        self.one("operations");
        self.add("draws from the ambient source", out.ambient);
        self.add("draws from caller sources", out.caller);
        self.add("allocations", crate::ctx::mem_allocs());
        fault_counts(self, step, out);
    }
}

fn stream(rec: &mut Rec, s: &crate::rngs::StreamSpec, used: u64) {
    if used > 0 {
        for g in &s.segs {
            rec.one(match g {
                crate::rngs::Seg::Const { .. } => "fault: stuck random source",
                crate::rngs::Seg::Cycle { .. } => "fault: cycling random source",
                crate::rngs::Seg::Count { .. } => "fault: counting random source",
                crate::rngs::Seg::Few { .. } => "fault: low-entropy random source",
            });
        }
    }
}

fn fault_counts(rec: &mut Rec, step: &Step, out: &OpOut) {
    stream(rec, &step.ambient, out.ambient);
    match &step.op {
        Op::Solved { rand: Rand::Static(s) | Rand::Dyn(s) } | Op::From { api: FromApi::Rng(Rand::Static(s) | Rand::Dyn(s)), .. } => stream(rec, s, out.caller),
        _ => {}
    }
    if out.res == Err(Panic::Injected) {
        rec.one("fault: random source failed");
    }
    rec.add("fault: re-entrant callbacks", out.nested.len() as u64);
    match (&step.op, &out.res) {
        (_, Ok(Res::Shuffles { panic: Some(Panic::Injected), .. })) => rec.one("fault: random source failed"),
        (_, Ok(Res::Printed { ok: false, .. })) => rec.one("fault: sink failed"),
        (Op::Wire(w), Ok(Res::Wire(o))) => {
            rec.add("fault: short read or write", o.fired.short as u64);
            rec.add("fault: interrupted read or write", o.fired.eintr as u64);
            rec.add("fault: transport failed", o.fired.hard as u64);
            for d in &w.damage {
                use crate::wire::Damage::*;
                rec.one(match d {
                    Flip { .. } => "fault: bits flipped",
                    Set { .. } => "fault: byte replaced",
                    Drop { .. } => "fault: bytes lost",
                    Dup { .. } => "fault: bytes repeated",
                    Insert { .. } => "fault: foreign bytes",
                    Truncate { .. } => "fault: cut off",
                    Swap { .. } => "fault: bytes exchanged",
                });
            }
        }
        _ => {}
    }
    if let (Op::Session(s), Ok(Res::Session { outs, .. })) = (&step.op, &out.res) {
        fn walk(rec: &mut Rec, st: &[SStep], outs: &[SOut]) {
            for (s, o) in st.iter().zip(outs) {
                match (s, o) {
                    (SStep::Restart, _) => rec.one("fault: session dropped and rebuilt"),
                    (SStep::ShowFailing(_), SOut::Failing { ok: false, .. }) => rec.one("fault: sink failed"),
                    (SStep::Insert { .. }, SOut::Insert(false)) => rec.one("fault: refused insert"),
                    (SStep::OnClone(v), SOut::Clone(w)) => walk(rec, v, w),
                    _ => {}
                }
            }
        }
        walk(rec, &s.steps, outs);
    }
}
use crate::ctx::Panic;

/// Is this plan well-formed? Everything the executor indexes with is in range.
pub fn valid(p: &Plan) -> bool {
    p.tasks.len() <= 8 && p.tasks.iter().all(|t| t.iter().all(|s| step_ok(s, 0)))
}
fn step_ok(s: &Step, depth: u32) -> bool {
    if depth > 2 || !s.nested.as_ref().map_or(true, |n| step_ok(n, depth + 1)) {
        return false;
    }
    let mask = |m: u16| m & 1 == 0 || (m & 0x3fe).count_ones() == 1;
    let list = |v: &[u8]| v.iter().all(|&x| x < 16);
    fn steps(v: &[SStep], depth: u32) -> bool {
        depth < 4
            && v.iter().all(|s| match s {
                SStep::Insert { cell, digit } => *cell < 81 && (1..=9).contains(digit),
                SStep::CellState(c) => *c < 81,
                SStep::OnClone(w) => steps(w, depth + 1),
                SStep::Solve(l) => l.iter().all(|&x| x < 16),
                _ => true,
            })
    }
    match &s.op {
        Op::GenerateSym { sym } | Op::From { sym, .. } => *sym < 10,
        Op::Session(se) | Op::Shared { session: se, .. } => {
            (match &se.start {
                Start::State(v) => v.len() == 81 && v.iter().all(|&m| m < 1024 && mask(m)),
                _ => true,
            }) && steps(&se.steps, 0)
                && se.solve.as_ref().map_or(true, |v| list(v))
                && match &s.op {
                    Op::Shared { asks, .. } => steps(asks, 0),
                    _ => true,
                }
        }
        Op::Print { what: What::Cell(m), spec, .. } => *m < 1024 && mask(*m) && spec.width.unwrap_or(0) < 1000,
        Op::Wire(w) => !w.src.is_empty(),
        Op::Shuffle { times, .. } => *times < 100,
        Op::Solve { api: SolveApi::Buffer { cap, .. }, .. } => *cap < 100_000,
        _ => true,
    }
}
