//! Per property: what a run does (`gen`) and what must hold (`check`).
use crate::ctx::{self, Panic};
use crate::gens::*;
use crate::model::{self, Model, St};
use crate::ops::*;
use crate::plan::*;
use crate::refs::{self, Grid};
use crate::rngs::{mix, Prng, StreamSpec};
use std::collections::HashMap;

pub const CLAIMED: [&str; 20] = ["G01", "G02", "G03", "G04", "E01", "E02", "H01", "H02", "K01", "V01", "T01", "S01", "S02", "S03", "S04", "S05", "W01", "W02", "W03", "C01"];

type Chk = Result<(), Violation>;

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Prng::new(mix(&[seed, crate::rngs::hash_bytes(prop.as_bytes())]));
    let r = &mut r;
    let mut p = Plan { prop: prop.into(), seed, tasks: vec![], sched: vec![], batch: 0, build: if prop == "T01" { BUILD.into() } else { String::new() } };
    let amb = |r: &mut Prng| StreamSpec::gen(r, 40);
    let n_steps = |lo: usize, hi: usize, r: &mut Prng| r.range(lo, hi);
    match prop {
        "G01" => {
            let n = n_steps(10, 40, r);
            p.tasks.push(
                (0..n)
                    .map(|_| {
                        let rand = any_rand(r, 75);
                        Step::new(Op::Solved { rand }, StreamSpec::gen(r, 75))
                    })
                    .collect(),
            );
        }
        "G02" | "G03" => {
            let n = n_steps(2, 6, r);
            p.tasks.push((0..n).map(|_| generation(r, prop)).collect());
        }
        "G04" => {
            let n = n_steps(3, 10, r);
            p.tasks.push(
                (0..n)
                    .map(|_| {
                        let src = if r.chance(2, 3) { contradictory(r) } else { ambiguous(r) };
                        let a = amb(r);
                        Step::new(Op::From { src: Gr(src), sym: sym(r), api: from_api(r) }, a)
                    })
                    .collect(),
            );
        }
        "E01" => {
            let n = n_steps(2, 6, r);
            p.tasks.push((0..n).map(|_| any_step(r, Mix::Light, 30)).collect());
            // history
            let n = r.us(6);
            p.tasks.push((0..n).map(|_| any_step(r, Mix::Light, 30)).collect());
        }
        "E02" => {
            let n = n_steps(1, 3, r);
            p.tasks.push((0..n).map(|_| random_step(r, 30)).collect());
            let n = r.us(4);
            p.tasks.push((0..n).map(|_| any_step(r, Mix::Light, 20)).collect());
        }
        "H01" => {
            let n = n_steps(2, 5, r);
            p.tasks.push(
                (0..n)
                    .map(|_| {
                        let src = any_grid(r);
                        let times = r.range(1, 6) as u32;
                        let a = StreamSpec::gen(r, 50);
                        Step::new(Op::Shuffle { src: Gr(src), times, by_value: r.chance(1, 2) }, a)
                    })
                    .collect(),
            );
        }
        "H02" => {
            let k = if seed & 0xfff == 0 { 8 } else { r.us(8) };
            let (op, batch) = match k {
                8 => (Op::Shuffle { src: Gr(staircase()), times: 1, by_value: r.chance(1, 2) }, crate::stats::ALL_RELABELLINGS),
                0 | 1 | 2 => (Op::Shuffle { src: Gr(staircase()), times: 1, by_value: r.chance(1, 2) }, 6000),
                3 => (Op::Shuffle { src: Gr(refs::random_solved(r)), times: 1, by_value: r.chance(1, 2) }, 500),
                4 | 5 => {
                    let rand = match r.us(3) {
                        0 => Rand::Ambient,
                        1 => Rand::Static(StreamSpec::healthy(0)),
                        _ => Rand::Dyn(StreamSpec::healthy(0)),
                    };
                    (Op::Solved { rand }, 9000)
                }
                _ => (Op::From { src: Gr(refs::random_solved(r)), sym: if r.chance(1, 2) { SYM_NONE } else { sym(r) }, api: from_api_healthy(r) }, 150),
            };
            p.batch = batch;
            p.tasks.push(vec![Step::new(op, StreamSpec::healthy(r.u64()))]);
        }
        "K01" => {
            let n = n_steps(1, 3, r);
            p.tasks.push(
                (0..n)
                    .map(|_| {
                        let src = match r.us(8) {
                            0..=2 => solved(r),
                            3..=5 => puzzle(r),
                            6 => ambiguous(r),
                            _ => contradictory(r),
                        };
                        let a = StreamSpec::gen(r, 30);
                        Step::new(Op::Shuffle { src: Gr(src), times: r.range(1, 4) as u32, by_value: r.chance(1, 2) }, a)
                    })
                    .collect(),
            );
        }
        "V01" => {
            let n = n_steps(2, 5, r);
            let mut t = vec![];
            if r.chance(1, 100) {
                // more solutions than a small counter can hold
                let s = solved(r);
                let mut src = [0; 81];
                for _ in 0..r.us(14) {
                    let c = r.us(81);
                    src[c] = s[c];
                }
                let limit = *r.pick(&[32768usize, 65535, 65536, 65537, 66000, 70000]);
                let api = match r.us(4) {
                    0 => SolveApi::UpTo(limit),
                    1 => SolveApi::Buffer { cap: r.us(4), limit },
                    2 => SolveApi::Buffer { cap: limit - 2 + r.us(4), limit },
                    _ => SolveApi::Count(limit),
                };
                t.push(Step::new(Op::Solve { src: Gr(src), api }, StreamSpec::healthy(1)));
            }
            for _ in 0..n {
                let src = any_grid(r);
                let cnt = refs::count_cap(&src, 2500, 60_000);
                let k = r.range(2, 6);
                for _ in 0..k {
                    let mut api = solve_api(r, cnt.unwrap_or(100).min(2500));
                    // far larger than the number of solutions
                    if matches!(cnt, Ok(c) if c < 2500) && r.chance(1, 4) {
                        let huge = *r.pick(&[usize::MAX, usize::MAX / 2, 1 << 40, u32::MAX as usize, u32::MAX as usize + 1, i32::MAX as usize + 1, 1 << 20]);
                        let huge = if r.chance(1, 2) { (1usize << *r.pick(&[16, 32, 48, 63])) + r.us(4) } else { huge };
                        api = match api {
                            SolveApi::Count(_) => SolveApi::Count(huge),
                            SolveApi::UpTo(_) => SolveApi::UpTo(huge),
                            SolveApi::Buffer { cap, .. } => SolveApi::Buffer { cap, limit: huge },
                            x => x,
                        };
                    }
                    t.push(Step::new(Op::Solve { src: Gr(src), api }, StreamSpec::healthy(1)));
                }
            }
            p.tasks.push(t);
        }
        "T01" => crate::sched::gen(r, &mut p),
        "S01" | "S02" | "S03" | "S04" | "S05" => {
            let n = n_steps(1, 4, r);
            p.tasks.push(
                (0..n)
                    .map(|_| {
                        let o = match prop {
                            "S01" => SessionOpts { near: 8, planted: 35, dirty: if r.chance(1, 4) { 25 } else { 0 }, restarts: 3, queries: 10, solves: 20, clones: 5, max_steps: 14, final_solve: true },
                            "S02" => SessionOpts { near: 6, planted: 35, dirty: if r.chance(1, 8) { 15 } else { 0 }, restarts: 3, queries: 10, solves: 25, clones: 3, max_steps: 12, final_solve: true },
                            "S03" => SessionOpts { near: 2, planted: 40, dirty: 0, restarts: 5, queries: 10, solves: 5, clones: 3, max_steps: 10, final_solve: true },
                            "S04" => SessionOpts { near: 4, planted: 15, dirty: if r.chance(1, 3) { 25 } else { 0 }, restarts: 4, queries: 45, solves: 5, clones: 8, max_steps: 40, final_solve: r.chance(1, 3) },
                            _ => SessionOpts { near: 6, planted: 15, dirty: if r.chance(1, 6) { 20 } else { 0 }, restarts: 15, queries: 20, solves: 8, clones: 5, max_steps: 24, final_solve: true },
                        };
                        let mut s = session(r, &o);
                        if prop == "S03" {
                            // several orders and supersets on the same state
                            let a = closed_list(r);
                            let mut b = a.clone();
                            r.shuffle(&mut b);
                            let mut c = close(set_of(&a) | set_of(&closed_list(r)));
                            if r.chance(1, 3) {
                                c = (1 << 14) - 1;
                            }
                            let mut c: Vec<u8> = (0..14u8).filter(|&i| c & (1 << i) != 0).collect();
                            r.shuffle(&mut c);
                            s.steps.push(SStep::Solve(a));
                            s.steps.push(SStep::Solve(b));
                            s.steps.push(SStep::Solve(c));
                        }
                        if prop == "S05" && !s.steps.iter().any(|x| matches!(x, SStep::Restart)) {
                            let at = r.us(s.steps.len() + 1);
                            s.steps.insert(at, SStep::Restart);
                        }
                        Step::new(Op::Session(s), StreamSpec::healthy(1))
                    })
                    .collect(),
            );
        }
        "W01" => {
            let n = n_steps(1, 3, r);
            p.tasks.push((0..n).map(|_| print_step(r)).collect());
        }
        "W02" => {
            let n = n_steps(5, 30, r);
            p.tasks.push((0..n).map(|_| Step::new(Op::Wire(wire_op(r)), StreamSpec::healthy(1))).collect());
        }
        "W03" => {
            let n = n_steps(20, 80, r);
            p.tasks.push(
                (0..n)
                    .map(|_| {
                        let (reader, bytes) = text(r);
                        Step::new(Op::Parse { reader, bytes }, StreamSpec::healthy(1))
                    })
                    .collect(),
            );
        }
        "C01" => {
            let from = *r.pick(&["G01", "G02", "G04", "E01", "H01", "V01", "V01", "V01", "S01", "S02", "S04", "W01", "W02", "W03", "K01", "T01"]);
            if r.chance(1, 12) {
                let n = r.range(10, 40);
                p.tasks = vec![(0..n).map(|_| step_of(r, 16, Mix::Light, 4)).collect()];
            } else {
                let q = gen(from, r.u64());
                p.tasks = vec![q.tasks.into_iter().flatten().collect()];
            }
        }
        _ => panic!("unknown property"),
    }
    match prop {
        "G02" | "G03" | "G04" | "H01" | "K01" | "E01" | "E02" if r.chance(1, 3) => relate(r, &mut p.tasks, true, 50),
        "T01" if r.chance(1, 2) => relate(r, &mut p.tasks, false, 60),
        _ => {}
    }
    p
}

pub fn check(p: &Plan, rec: &mut Rec) -> Chk {
    if p.tasks.is_empty() {
        return Ok(());
    }
    ctx::set_world(mix(&[p.seed, 0x303]));
    match p.prop.as_str() {
        "G01" => p.tasks[0].iter().try_for_each(|s| g01(s, rec)),
        "G02" => p.tasks[0].iter().try_for_each(|s| g02(s, rec)),
        "G03" => p.tasks[0].iter().try_for_each(|s| g03(s, rec)),
        "G04" => p.tasks[0].iter().try_for_each(|s| g04(s, rec)),
        "E01" => e01(p, rec),
        "E02" => e02(p, rec),
        "H01" => p.tasks[0].iter().try_for_each(|s| h01(s, rec)),
        "H02" => crate::stats::h02(p, rec),
        "K01" => p.tasks[0].iter().try_for_each(|s| k01(s, rec)),
        "V01" => v01(p, rec),
        "T01" => crate::sched::check(p, rec),
        "S01" | "S02" | "S03" | "S04" | "S05" => p.tasks[0].iter().try_for_each(|s| session_check(p.prop.as_str(), s, rec)),
        "W01" => p.tasks[0].iter().try_for_each(|s| w01(s, rec)),
        "W02" => p.tasks[0].iter().try_for_each(|s| w02(s, rec)),
        "W03" => p.tasks[0].iter().try_for_each(|s| w03(s, rec)),
        "C01" => {
            for s in &p.tasks[0] {
                rec.run(s);
            }
            rec.nontrivial();
            Ok(())
        }
        _ => panic!("unknown property"),
    }
}

// ------------------------------------------------------------------ generators of steps

pub fn sym(r: &mut Prng) -> u8 {
    r.us(10) as u8
}
fn from_api(r: &mut Prng) -> FromApi {
    match r.us(6) {
        0 => FromApi::Plain,
        1 => FromApi::Sym,
        2 => FromApi::Rng(Rand::Ambient),
        _ => FromApi::Rng(caller_rand(r, 50)),
    }
}
fn from_api_healthy(r: &mut Prng) -> FromApi {
    match r.us(4) {
        0 => FromApi::Plain,
        1 => FromApi::Sym,
        2 => FromApi::Rng(Rand::Static(StreamSpec::healthy(0))),
        _ => FromApi::Rng(Rand::Dyn(StreamSpec::healthy(0))),
    }
}
fn generation(r: &mut Prng, prop: &str) -> Step {
    let a = StreamSpec::gen(r, 40);
    let op = match r.us(8) {
        0 => Op::Generate,
        1 => Op::GenerateSym { sym: sym(r) },
        _ => {
            let src = if prop == "G03" && r.chance(1, 4) { any_grid(r) } else { unique(r) };
            Op::From { src: Gr(src), sym: sym(r), api: from_api(r) }
        }
    };
    Step::new(op, a)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mix {
    Light,
    Full,
}

/// any operation at all
pub fn any_step(r: &mut Prng, m: Mix, nasty: u64) -> Step {
    let class = r.us(17);
    step_of(r, class, m, nasty)
}
pub fn step_of(r: &mut Prng, class: usize, m: Mix, nasty: u64) -> Step {
    let ambient = StreamSpec::gen(r, nasty);
    let op = match class {
        0 | 1 => Op::Solved { rand: any_rand(r, nasty) },
        2 => Op::From { src: Gr(if r.chance(2, 3) { unique(r) } else { any_grid(r) }), sym: sym(r), api: from_api(r) },
        3 => Op::Shuffle { src: Gr(any_grid(r)), times: r.range(1, 3) as u32, by_value: r.chance(1, 2) },
        4 => Op::Canon { src: Gr(any_grid(r)) },
        5 | 6 | 7 => {
            let src = any_grid(r);
            Op::Solve { src: Gr(src), api: solve_api(r, 20) }
        }
        8 | 9 | 10 => {
            let o = SessionOpts { near: 3, planted: 10, dirty: 5, restarts: 5, queries: 25, solves: 10, clones: 5, max_steps: if m == Mix::Light { 10 } else { 20 }, final_solve: true };
            Op::Session(session(r, &o))
        }
        11 | 12 => {
            let (reader, bytes) = text(r);
            Op::Parse { reader, bytes }
        }
        13 => print_step(r).op,
        14 => Op::Wire(wire_op(r)),
        16 => {
            let a = any_grid(r);
            let b = if r.chance(1, 3) { a } else if r.chance(1, 2) { relative(r, &a, false) } else { any_grid(r) };
            let bits = r.u64();
            Op::Ask(crate::ask::Ask { what: r.us(8) as u8, a: Gr(a), b: Gr(b), n: if r.chance(5, 6) { r.us(90) } else { r.us(256) } as u8, k: r.us(12) as u8, bits: if r.chance(1, 3) { bits & r.u64() & r.u64() } else { bits } })
        }
        _ => match r.us(3) {
            0 => Op::Generate,
            1 => Op::GenerateSym { sym: sym(r) },
            _ => Op::From { src: Gr(unique(r)), sym: sym(r), api: from_api(r) },
        },
    };
    Step::new(op, ambient)
}

/// an operation that draws random numbers
pub fn random_step(r: &mut Prng, nasty: u64) -> Step {
    let ambient = StreamSpec::gen(r, nasty);
    let op = match r.us(8) {
        0 | 1 => Op::Shuffle { src: Gr(any_grid(r)), times: r.range(1, 3) as u32, by_value: r.chance(1, 2) },
        2 | 3 | 4 => Op::Solved { rand: any_rand(r, nasty) },
        5 => Op::Generate,
        6 => Op::GenerateSym { sym: sym(r) },
        _ => Op::From { src: Gr(unique(r)), sym: sym(r), api: from_api(r) },
    };
    Step::new(op, ambient)
}

pub fn print_step(r: &mut Prng) -> Step {
    let spec = Spec { width: if r.chance(1, 2) { Some(*r.pick(&[0usize, 1, 2, 5, 8, 9, 10, 12, 80, 81, 82, 90, 120])) } else { None }, prec: if r.chance(1, 4) { Some(*r.pick(&[0usize, 1, 40, 80, 81, 82, 200])) } else { None }, align: r.us(7) as u8, alt: false };
    let spec = if r.chance(1, 6) { Spec { align: 2, alt: true, ..spec } } else { spec };
    let what = match r.us(10) {
        8 => What::Bits(r.us(3) as u8, r.u64() >> r.us(64), r.u64() >> r.us(64)),
        0 => What::Line,
        1 => What::Sudoku,
        2 | 3 => What::Block,
        4 => What::LineDebug,
        5 => What::SudokuDebug,
        6 => What::Solver,
        7 => What::Cell(if r.chance(1, 3) { 1 | 1 << (1 + r.us(9)) } else { (r.u64() as u16) & 0x3fe }),
        _ => {
            let (reader, bytes) = text(r);
            What::Error(reader, bytes)
        }
    };
    let sink = SinkSpec { fail_at_write: if r.chance(1, 3) { Some(r.us(120) as u32) } else { None }, fail_at_byte: if r.chance(1, 3) { Some(r.us(200) as u32) } else { None }, reenter: None };
    Step::new(Op::Print { what, src: Gr(any_grid(r)), spec, sink }, StreamSpec::healthy(1))
}

// ------------------------------------------------------------------ helpers

fn not_ok(p: &Panic) -> Chk {
    match p {
        Panic::DrawLimit => viol("endless", "the operation keeps drawing random numbers"),
        Panic::Injected => viol("panic", "injected failure outside of the plan"),
        Panic::Other(m) => viol("panic", format!("panic: {}", m)),
    }
}
fn fails(s: &StreamSpec) -> bool {
    s.fail_at.is_some()
}
fn may_fail(s: &Step) -> bool {
    fails(&s.ambient) || matches!(&s.op, Op::Solved { rand: Rand::Static(x) | Rand::Dyn(x) } | Op::From { api: FromApi::Rng(Rand::Static(x) | Rand::Dyn(x)), .. } if fails(x))
}
fn grid_of(out: &OpOut) -> Result<Grid, Violation> {
    match &out.res {
        Ok(Res::Grid(g)) => Ok(g.0),
        Err(p) => not_ok(p).map(|_| [0; 81]),
        Ok(x) => Err(Violation { class: "harness".into(), msg: format!("unexpected outcome {:?}", x) }),
    }
}
fn cls(step: &Step) -> &'static str {
    match &step.op {
        Op::Solved { .. } => "solved",
        Op::Generate => "generate",
        Op::GenerateSym { .. } => "generate-sym",
        Op::From { .. } => "from",
        Op::Shuffle { .. } => "shuffle",
        Op::Canon { .. } => "canon",
        Op::Solve { .. } => "solve",
        Op::Session(_) => "session",
        Op::Parse { .. } => "parse",
        Op::Print { .. } => "print",
        Op::Wire(_) => "wire",
        Op::Ask(_) => "ask",
        Op::Shared { .. } => "shared session",
    }
}

pub fn orbit(c: usize, sym: u8) -> Vec<usize> {
    let (r, k) = (c / 9, c % 9);
    let v = |(r, k): (usize, usize)| (r, 8 - k);
    let h = |(r, k): (usize, usize)| (8 - r, k);
    let d = |(r, k): (usize, usize)| (k, r);
    let a = |(r, k): (usize, usize)| (8 - k, 8 - r);
    let rot = |(r, k): (usize, usize)| (k, 8 - r);
    type F = fn((usize, usize)) -> (usize, usize);
    let gens: Vec<F> = match sym {
        0 => vec![v],
        1 => vec![h],
        2 => vec![v, h],
        3 => vec![d],
        4 => vec![a],
        5 => vec![d, a],
        6 => vec![rot],
        7 => vec![|(r, k)| (8 - r, 8 - k)],
        8 => vec![v, h, d],
        _ => vec![],
    };
    let mut seen = vec![(r, k)];
    let mut i = 0;
    while i < seen.len() {
        for g in &gens {
            let n = g(seen[i]);
            if !seen.contains(&n) {
                seen.push(n);
            }
        }
        i += 1;
    }
    seen.into_iter().map(|(r, k)| r * 9 + k).collect()
}

// ------------------------------------------------------------------ generation

fn g01(s: &Step, rec: &mut Rec) -> Chk {
    if !matches!(s.op, Op::Solved { .. }) || may_fail(s) {
        return Ok(());
    }
    let out = rec.run(s);
    let g = grid_of(&out)?;
    rec.nontrivial();
    if out.ambient + out.caller > 200 {
        rec.one("generations with more than 200 draws");
    }
    if !refs::is_complete_valid(&g) {
        return viol("invalid", format!("generated {}", refs::line(&g)));
    }
    Ok(())
}

/// source and symmetry of a generating step, if it has one; `None` source: from scratch
fn gen_parts(s: &Step) -> Option<(Option<Grid>, u8)> {
    Some(match &s.op {
        Op::Generate => (None, SYM_HALF),
        Op::GenerateSym { sym } => (None, *sym),
        Op::From { src, sym, api } => (Some(src.0), if *api == FromApi::Plain { SYM_NONE } else { *sym }),
        _ => return None,
    })
}

fn g02(s: &Step, rec: &mut Rec) -> Chk {
    let (src, sym) = match gen_parts(s) {
        Some(x) if !may_fail(s) => x,
        _ => return Ok(()),
    };
    let sol = match src {
        Some(g) => match refs::solutions(&g, 2) {
            Ok(v) if v.len() == 1 => Some(v[0]),
            _ => return Ok(()),
        },
        None => None,
    };
    let out = rec.run(s);
    let p = grid_of(&out)?;
    rec.nontrivial();
    let show = || format!("{} from {}", refs::line(&p), src.map_or("scratch".to_string(), |g| refs::line(&g)));
    if let Some(g) = src {
        if !refs::is_subset(&p, &g) {
            return viol("subset", format!("puzzle {} has other clues", show()));
        }
    }
    match refs::solutions(&p, 2) {
        Err(_) => {
            rec.one("inconclusive: reference solver gave up");
            return Ok(());
        }
        Ok(v) => {
            if v.len() != 1 {
                return viol("unique", format!("puzzle {} has {} solutions", show(), if v.is_empty() { "no" } else { "several" }));
            }
            if sol.map_or(false, |x| x != v[0]) {
                return viol("solution", format!("puzzle {} has another solution", show()));
            }
        }
    }
    let mut done = [false; 81];
    for c in 0..81 {
        if done[c] {
            continue;
        }
        let o = orbit(c, sym);
        let mut q = p;
        for &x in &o {
            done[x] = true;
            q[x] = 0;
        }
        if q == p {
            continue;
        }
        match refs::count(&q, 2) {
            Ok(2) => {}
            Ok(_) => return viol("minimal", format!("puzzle {} keeps its solution without the cells {:?} (symmetry {})", show(), o, sym)),
            Err(_) => rec.one("inconclusive: reference solver gave up"),
        }
        rec.one("minimality tests");
    }
    Ok(())
}

fn g03(s: &Step, rec: &mut Rec) -> Chk {
    let (src, sym) = match gen_parts(s) {
        Some(x) if !may_fail(s) => x,
        _ => return Ok(()),
    };
    let out = rec.run(s);
    let p = grid_of(&out)?;
    rec.nontrivial();
    for c in 0..81 {
        let o = orbit(c, sym);
        match src {
            None => {
                if o.iter().any(|&x| (p[x] == 0) != (p[c] == 0)) {
                    return viol("symmetry", format!("puzzle {} lacks symmetry {} at {:?}", refs::line(&p), sym, o));
                }
            }
            Some(g) => {
                if o.iter().any(|&x| p[x] != 0) && o.iter().any(|&x| p[x] != g[x]) {
                    return viol("partners", format!("puzzle {} from {}: only part of the cells {:?} was removed (symmetry {})", refs::line(&p), refs::line(&g), o, sym));
                }
            }
        }
    }
    if let Op::From { src, api: FromApi::Plain, .. } = &s.op {
        let twin = Step::new(Op::From { src: *src, sym: SYM_NONE, api: FromApi::Sym }, s.ambient.clone());
        let o2 = rec.run(&twin);
        if o2.res != out.res {
            return viol("plain", format!("generate_from gives {:?}, generation without symmetry {:?}", out.res, o2.res));
        }
    }
    Ok(())
}

fn g04(s: &Step, rec: &mut Rec) -> Chk {
    let src = match &s.op {
        Op::From { src, .. } if !may_fail(s) => src.0,
        _ => return Ok(()),
    };
    match refs::count(&src, 2) {
        Ok(1) | Err(_) => return Ok(()),
        Ok(0) => rec.one("contradictory sources"),
        Ok(_) => rec.one("ambiguous sources"),
    }
    let out = rec.run(s);
    let p = grid_of(&out)?;
    rec.nontrivial();
    if p != src {
        return viol("changed", format!("{} came back as {}", refs::line(&src), refs::line(&p)));
    }
    Ok(())
}

// ------------------------------------------------------------------ randomness

fn is_caller(s: &Step) -> bool {
    matches!(&s.op, Op::Solved { rand: Rand::Static(_) | Rand::Dyn(_) } | Op::From { api: FromApi::Rng(Rand::Static(_) | Rand::Dyn(_)), .. })
}
fn is_ambient(s: &Step) -> bool {
    matches!(&s.op, Op::Solved { rand: Rand::Ambient } | Op::Generate | Op::GenerateSym { .. } | Op::Shuffle { .. })
        || matches!(&s.op, Op::From { api, .. } if !matches!(api, FromApi::Rng(Rand::Static(_) | Rand::Dyn(_))))
}
fn flip_dispatch(s: &Step) -> Option<Step> {
    let f = |r: &Rand| match r {
        Rand::Static(x) => Some(Rand::Dyn(x.clone())),
        Rand::Dyn(x) => Some(Rand::Static(x.clone())),
        Rand::Ambient => None,
    };
    let op = match &s.op {
        Op::Solved { rand } => Op::Solved { rand: f(rand)? },
        Op::From { src, sym, api: FromApi::Rng(r) } => Op::From { src: *src, sym: *sym, api: FromApi::Rng(f(r)?) },
        _ => return None,
    };
    Some(Step { op, ..s.clone() })
}

fn e01(p: &Plan, rec: &mut Rec) -> Chk {
    for (i, s) in p.tasks[0].iter().enumerate() {
        ctx::set_world(mix(&[p.seed, i as u64, 1]));
        let base = rec.run(s);
        let c = cls(s);
        if base.entropy > 0 {
            return viol(&format!("{}-entropy", c), format!("the operation took entropy: {:?}", s.op));
        }
        if !is_ambient(s) && base.ambient > 0 {
            return viol(&format!("{}-ambient", c), format!("the operation drew {} numbers from the ambient source", base.ambient));
        }
        if !is_caller(s) && base.caller > 0 {
            return viol("harness", "draws from a source that was not passed");
        }
        if base.ambient + base.caller > 0 || !is_ambient(s) && !is_caller(s) {
            rec.nontrivial();
        }
        rec.one(if is_caller(s) { "caller-source operations" } else if is_ambient(s) { "ambient operations" } else { "non-random operations" });
        let same = |o: &OpOut, how: &str| -> Chk {
            if o.own_digest() != base.own_digest() {
                return viol(&format!("{}-differs", c), format!("{}: {:?} (draws {} {}), first {:?} (draws {} {})", how, o.res, o.ambient, o.caller, base.res, base.ambient, base.caller));
            }
            Ok(())
        };
        // other entropy, other time, other ambient numbers
        let mut t = s.clone();
        if !is_ambient(s) {
            t.ambient = StreamSpec::healthy(mix(&[p.seed, i as u64, 2]));
        }
        ctx::set_world(mix(&[p.seed, i as u64, 3]));
        rec.one("fault: clock jump and other entropy");
        same(&rec.run(&t), "with another clock, entropy and ambient source")?;
        if let Some(f) = flip_dispatch(&t) {
            same(&rec.run(&f), "through the other dispatch")?;
            let other = |x: &StreamSpec| StreamSpec { wrap: (x.wrap + 1 + (p.seed % 4) as u8) % crate::ops::WRAPS, ..x.clone() };
            let mut f = if p.seed & 4 == 0 { f } else { t.clone() };
            if let Op::Solved { rand: Rand::Static(x) | Rand::Dyn(x) } | Op::From { api: FromApi::Rng(Rand::Static(x) | Rand::Dyn(x)), .. } = &mut f.op {
                *x = other(x);
            }
            rec.one("operations through a source of another type");
            same(&rec.run(&f), "with the source in another kind of object")?;
        }
        // another thread
        let (o, n) = {
            let t = t.clone();
            let w = mix(&[p.seed, i as u64, 4]);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    ctx::set_world(w);
                    let o = run_step(&t);
                    (o, 1u64)
                })
                .unwrap()
                .join()
                .unwrap()
        };
        rec.add("operations on another thread", n);
        rec.log(o.digest());
        same(&o, "on another thread")?;
        // after a history
        for h in p.tasks.get(1).into_iter().flatten() {
            rec.run(h);
        }
        same(&rec.run(&t), "after other calls")?;
    }
    Ok(())
}

fn with_fail(s: &Step, k: Option<u64>) -> Step {
    let mut t = s.clone();
    match &mut t.op {
        Op::Solved { rand: Rand::Static(x) | Rand::Dyn(x) } | Op::From { api: FromApi::Rng(Rand::Static(x) | Rand::Dyn(x)), .. } => x.fail_at = k,
        _ => t.ambient.fail_at = k,
    }
    t
}

fn e02(p: &Plan, rec: &mut Rec) -> Chk {
    // expected outcomes of the further calls
    let none: Vec<Step> = vec![];
    let further = p.tasks.get(1).unwrap_or(&none);
    let mut expected: Vec<OpOut> = vec![];
    for f in further {
        let f = with_fail(f, None);
        expected.push(rec.run(&f));
    }
    for s in &p.tasks[0] {
        if !is_ambient(s) && !is_caller(s) {
            continue;
        }
        let s = with_fail(s, None);
        let base = rec.run(&s);
        let c = cls(&s);
        let n = base.ambient + base.caller;
        // all draws if there are few, otherwise the borders and a sample
        let mut r = Prng::new(mix(&[p.seed, n]));
        let mut ks: Vec<u64> = if n <= 36 { (0..n).collect() } else { (0..12).chain(n - 6..n).chain((0..18).map(|_| r.below(n))).collect() };
        ks.sort();
        ks.dedup();
        for (j, &k) in ks.iter().enumerate() {
            let o = rec.run(&with_fail(&s, Some(k)));
            rec.nontrivial();
            match (&o.res, &s.op, &base.res) {
                (Err(Panic::Injected), op, _) if !matches!(op, Op::Shuffle { .. }) => {}
                (Ok(Res::Shuffles { grids, panic: Some(Panic::Injected) }), Op::Shuffle { src, .. }, Ok(Res::Shuffles { grids: good, .. })) => {
                    let m = grids.len() - 1;
                    // earlier shuffles as before, the failed one changed nothing
                    if grids[..m] != good[..m] {
                        return viol("shuffle-before", format!("draw {}: shuffles before the failure differ", k));
                    }
                    let before = if m == 0 { *src } else { grids[m - 1] };
                    if grids[m] != before {
                        return viol("shuffle-changed", format!("draw {}: {:?} became {:?} although the source failed", k, before, grids[m]));
                    }
                }
                (x, _, _) => return viol(&format!("{}-swallowed", c), format!("draw {} of {} fails, the caller gets {:?}", k, n, x)),
            }
            let again = rec.run(&s);
            if again.digest() != base.digest() {
                return viol(&format!("{}-retry", c), format!("after a failure at draw {} a retry gives {:?} instead of {:?}", k, again.res, base.res));
            }
            if j < 6 {
                for (f, e) in further.iter().zip(&expected) {
                    let f = with_fail(f, None);
                    let o = rec.run(&f);
                    if o.digest() != e.digest() {
                        return viol(&format!("{}-later", cls(&f)), format!("after a failure at draw {} of {:?}: {:?} instead of {:?}", k, s.op, o.res, e.res));
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ shuffling

fn h01(s: &Step, rec: &mut Rec) -> Chk {
    let src = match &s.op {
        Op::Shuffle { src, .. } if !may_fail(s) => src.0,
        _ => return Ok(()),
    };
    let out = rec.run(s);
    let grids = match &out.res {
        Ok(Res::Shuffles { grids, panic: None }) => grids,
        Ok(Res::Shuffles { panic: Some(p), .. }) => return not_ok(p),
        Err(p) => return not_ok(p),
        _ => return viol("harness", "outcome"),
    };
    rec.nontrivial();
    let mut prev = src;
    for g in grids {
        match refs::find_equivalence(&prev, &g.0) {
            Ok(Some(t)) => {
                if t.apply(&prev) != g.0 {
                    return viol("harness", "equivalence found does not apply");
                }
                rec.one("equivalences found");
            }
            Ok(None) => return viol("not-equivalent", format!("{} became {}", refs::line(&prev), refs::line(&g.0))),
            Err(_) => {
                rec.one("inconclusive: equivalence search gave up");
                let (a, b) = (refs::count_cap(&prev, 50, 20_000), refs::count_cap(&g.0, 50, 20_000));
                if refs::n_clues(&prev) != refs::n_clues(&g.0) || a.is_ok() && b.is_ok() && a != b {
                    return viol("not-equivalent", format!("{} became {}", refs::line(&prev), refs::line(&g.0)));
                }
            }
        }
        prev = g.0;
    }
    Ok(())
}

pub fn staircase() -> Grid {
    let mut g = [0; 81];
    for r in 0..9 {
        for c in 0..=r {
            g[r * 9 + c] = r as u8 + 1;
        }
    }
    g
}

fn k01(s: &Step, rec: &mut Rec) -> Chk {
    let (src, times) = match &s.op {
        Op::Shuffle { src, times, .. } if !may_fail(s) => (src.0, *times),
        _ => return Ok(()),
    };
    let canon = |g: &Grid, rec: &mut Rec| -> Result<Option<(Grid, usize)>, Violation> {
        let o = rec.run(&Step::new(Op::Canon { src: Gr(*g) }, StreamSpec::healthy(1)));
        match o.res {
            Ok(Res::Canon(c)) => Ok(c.map(|(g, n)| (g.0, n))),
            Err(p) => not_ok(&p).map(|_| None),
            _ => Err(Violation { class: "harness".into(), msg: "outcome".into() }),
        }
    };
    let sols = match refs::solutions(&src, 2) {
        Ok(v) => v,
        Err(_) => return Ok(()),
    };
    let got = canon(&src, rec)?;
    rec.nontrivial();
    if sols.len() != 1 {
        rec.one("sudokus without unique solution");
        if let Some((g, _)) = got {
            return viol("not-unique", format!("{} has {} solutions but the canonical form {}", refs::line(&src), sols.len(), refs::line(&g)));
        }
        return Ok(());
    }
    let (min, ts) = refs::minlex(&sols[0]);
    let test = |g: &Grid, src: &Grid, ts: &[refs::Transform], got: Option<(Grid, usize)>| -> Chk {
        let _ = g;
        match got {
            None => viol("missing", format!("{} has no canonical form", refs::line(src))),
            Some((c, n)) => {
                if n != ts.len() {
                    return viol("count", format!("{}: {} automorphisms reported, {} exist", refs::line(src), n, ts.len()));
                }
                if !ts.iter().any(|t| t.apply(src) == c) {
                    return viol("form", format!("{}: canonical form {} is not the puzzle moved to the minimal grid {}", refs::line(src), refs::line(&c), refs::line(&min)));
                }
                Ok(())
            }
        }
    };
    if ts.len() > 1 {
        rec.one("sudokus with several automorphisms");
        rec.one(&format!("sudokus with {} automorphisms", ts.len()));
    }
    test(&src, &src, &ts, got)?;
    let c0 = got.unwrap().0;
    // idempotence
    if let Some((c1, n1)) = canon(&c0, rec)? {
        if n1 != ts.len() || refs::n_clues(&src) == 81 && c1 != c0 {
            return viol("twice", format!("{} has the canonical form {} with {}", refs::line(&c0), refs::line(&c1), n1));
        }
    } else {
        return viol("twice", format!("{} has no canonical form", refs::line(&c0)));
    }
    // chain of shuffles
    let out = rec.run(s);
    let grids = match &out.res {
        Ok(Res::Shuffles { grids, panic: None }) => grids.clone(),
        Ok(Res::Shuffles { panic: Some(p), .. }) => return not_ok(p),
        Err(p) => return not_ok(p),
        _ => return viol("harness", "outcome"),
    };
    debug_assert_eq!(grids.len() as u32, times);
    for g in grids {
        let got = canon(&g.0, rec)?;
        rec.one("canonical forms compared along shuffles");
        match got {
            None => return viol("shuffle-missing", format!("{} shuffled to {} has no canonical form", refs::line(&src), refs::line(&g.0))),
            Some((c, n)) => {
                if n != ts.len() {
                    return viol("shuffle-count", format!("{} shuffled to {}: {} automorphisms, not {}", refs::line(&src), refs::line(&g.0), n, ts.len()));
                }
                let sol = match refs::solutions(&c, 2) {
                    Ok(v) if v.len() == 1 => v[0],
                    Ok(_) => return viol("shuffle-form", format!("the canonical form {} is not unique", refs::line(&c))),
                    Err(_) => continue,
                };
                if sol != min || refs::n_clues(&c) != refs::n_clues(&src) {
                    return viol("shuffle-form", format!("{} shuffled to {}: solution of the canonical form is {}, not {}", refs::line(&src), refs::line(&g.0), refs::line(&sol), refs::line(&min)));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ searching

fn v01(p: &Plan, rec: &mut Rec) -> Chk {
    const REF_MAX: usize = 4000;
    let mut cache: HashMap<Grid, Option<usize>> = HashMap::new();
    for s in &p.tasks[0] {
        let (src, api) = match &s.op {
            Op::Solve { src, api } => (src.0, api),
            _ => continue,
        };
        // number of solutions, exact below REF_MAX
        let total = *cache.entry(src).or_insert_with(|| refs::count_cap(&src, REF_MAX, 120_000).ok());
        let limit = match api {
            SolveApi::Some => 1,
            SolveApi::Unique | SolveApi::IsUnique => 2,
            SolveApi::Count(l) | SolveApi::UpTo(l) | SolveApi::Buffer { limit: l, .. } => *l,
        };
        let total = match total {
            Some(t) => t,
            None => match refs::count_cap(&src, limit.min(REF_MAX), 120_000) {
                Ok(t) if t >= limit => t,
                // as many as that, by a longer search
                Ok(_) if limit > 30_000 && limit <= 70_000 && matches!(refs::count_cap(&src, limit, 3_000_000), Ok(t) if t >= limit) => limit,
                _ => {
                    rec.one("inconclusive: reference solver gave up");
                    continue;
                }
            },
        };
        let total = match limit {
            l if total < REF_MAX || l <= REF_MAX => total,
            l if (30_000..=70_000).contains(&l) && (total >= l || matches!(refs::count_cap(&src, l, 3_000_000), Ok(t) if t >= l)) => l,
            _ => continue,
        };
        if limit > 30_000 {
            rec.one("searches for more than 30000 solutions");
        }
        let expect = total.min(limit);
        if limit < total {
            rec.one("fault: search cut off by its limit");
        }
        if total == 0 {
            rec.one("contradictory sudokus");
        }
        let out = rec.run(s);
        rec.nontrivial();
        rec.add("solutions expected", expect as u64);
        let name = match api {
            SolveApi::Some => "some",
            SolveApi::Unique => "unique",
            SolveApi::IsUnique => "is-unique",
            SolveApi::Count(_) => "count",
            SolveApi::UpTo(_) => "up-to",
            SolveApi::Buffer { .. } => "buffer",
        };
        let bad = |m: String| -> Chk { viol(name, format!("{} {:?}: {}", refs::line(&src), api, m)) };
        let solution = |g: &Grid| refs::is_complete_valid(g) && refs::is_subset(&src, g);
        let list = |v: &[Grid]| -> Chk {
            if let Some(g) = v.iter().find(|g| !solution(g)) {
                return bad(format!("{} is not a solution", refs::line(g)));
            }
            let mut w = v.to_vec();
            w.sort();
            w.dedup();
            if w.len() != v.len() {
                return bad(format!("{} solutions listed, {} of them different", v.len(), w.len()));
            }
            Ok(())
        };
        match &out.res {
            Err(p) => return not_ok(p),
            Ok(Res::Count(n)) => {
                if *n != expect {
                    return bad(format!("reported {}, expected {}", n, expect));
                }
            }
            Ok(Res::Bool(b)) => {
                if *b != (total == 1) {
                    return bad(format!("reported {}, number of solutions {}", b, total));
                }
            }
            Ok(Res::OptGrid(o)) => {
                let want = if *api == SolveApi::Some { total > 0 } else { total == 1 };
                if o.is_some() != want {
                    return bad(format!("gave {:?}, number of solutions (up to 2) {}", o, total.min(2)));
                }
                if let Some(g) = o {
                    list(&[g.0])?;
                }
            }
            Ok(Res::Grids(v)) => {
                if v.len() != expect {
                    return bad(format!("listed {}, expected {}", v.len(), expect));
                }
                list(&v.iter().map(|g| g.0).collect::<Vec<_>>())?;
            }
            Ok(Res::Buffer { ret, cells }) => {
                if *ret != expect {
                    return bad(format!("reported {}, expected {}", ret, expect));
                }
                let k = expect.min(cells.len());
                if k < expect {
                    rec.one("fault: search cut off by the buffer");
                }
                if let Some(i) = (k..cells.len()).find(|&i| cells[i].iter().any(|&b| b != 0xAA)) {
                    return bad(format!("entry {} beyond the {} stored solutions was written", i, k));
                }
                list(&cells[..k].iter().map(|v| v[..].try_into().unwrap()).collect::<Vec<Grid>>())?;
            }
            Ok(x) => return viol("harness", format!("{:?}", x)),
        }
        let quota = (1usize << 20) + 1000 * (expect + 1);
        if out.mem_peak > quota {
            return viol("memory", format!("{} {:?}: {} bytes of memory for {} solutions", refs::line(&src), api, out.mem_peak, expect));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ sessions

struct Walk<'a, 'b> {
    prop: &'a str,
    rec: &'b mut Rec,
    /// solve results on the current state: set of strategies, list, result
    solves: Vec<(Model, Vec<u8>, bool, Grid)>,
}

fn session_check(prop: &str, s: &Step, rec: &mut Rec) -> Chk {
    let se = match &s.op {
        Op::Session(se) => se,
        _ => return Ok(()),
    };
    let out = rec.run(s);
    let (outs, solve) = match &out.res {
        Ok(Res::Session { outs, solve }) => (outs, solve),
        Err(p) => return not_ok(p),
        _ => return viol("harness", "outcome"),
    };
    if prop == "S05" {
        return s05(se, outs, solve, rec);
    }
    let mut w = Walk { prop, rec, solves: vec![] };
    let mut m = Model::new(&se.start);
    let mut taint = false;
    walk(&mut w, &mut m, &mut taint, &se.steps, outs)?;
    if let (Some(l), Some(o)) = (&se.solve, solve) {
        check_solve(&mut w, &m, taint, l, o)?;
    }
    Ok(())
}

fn hex(m: u16) -> String {
    format!("{}{}", if m & 1 != 0 { "=" } else { "" }, crate::text::cell_text(m & !1))
}

fn walk(w: &mut Walk, m: &mut Model, taint: &mut bool, steps: &[SStep], outs: &[SOut]) -> Chk {
    let s4 = w.prop == "S04";
    for (i, (s, o)) in steps.iter().zip(outs).enumerate() {
        *taint |= m.conflicting();
        let at = |x: String| format!("step {} {:?}: {}", i, s, x);
        match (s, o) {
            (SStep::Insert { cell, digit }, SOut::Insert(ok)) => {
                let want = m.insert(*cell as usize, *digit);
                if s4 && want != *ok {
                    return viol("insert", at(format!("{}, expected {}", ok, want)));
                }
            }
            (SStep::ToSudoku, SOut::Grid(g)) => {
                if s4 && g.0 != m.grid {
                    return viol("digits", at(format!("{:?}, expected {}", g, refs::line(&m.grid))));
                }
            }
            (SStep::GridState, SOut::State(v)) => {
                if s4 {
                    w.rec.nontrivial();
                    let want = m.state();
                    for c in 0..81 {
                        if (m.grid[c] != 0 || !*taint) && v[c] != want[c] || m.grid[c] == 0 && v[c] & 1 != 0 {
                            return viol("state", at(format!("cell {} is {}, expected {}", c, hex(v[c]), hex(want[c]))));
                        }
                    }
                }
            }
            (SStep::CellState(c), SOut::Cell(v)) => {
                if s4 {
                    let c = *c as usize;
                    let want = if m.grid[c] != 0 { 1 | 1 << m.grid[c] } else { m.cands(c) };
                    if (m.grid[c] != 0 || !*taint) && *v != want || m.grid[c] == 0 && v & 1 != 0 {
                        return viol("cell", at(format!("{}, expected {}", hex(*v), hex(want))));
                    }
                }
            }
            (SStep::IsSolved, SOut::Bool(b)) => {
                if s4 && *b != refs::is_complete_valid(&m.grid) {
                    return viol("is-solved", at(format!("{} for {}", b, refs::line(&m.grid))));
                }
            }
            (SStep::Show, SOut::Text(t)) => {
                if s4 {
                    if let Some(want) = shown(m, *taint) {
                        if *t != want {
                            return viol("show", at(format!("printed\n{}\nexpected\n{}", t, want)));
                        }
                    }
                }
            }
            (SStep::ShowFailing(_), SOut::Failing { ok, text, after }) => {
                if s4 {
                    if let Some(want) = shown(m, *taint) {
                        if *ok && *text != want || !want.starts_with(text.as_str()) || *after > 0 {
                            return viol("show", at(format!("printed\n{}\nexpected\n{}", text, want)));
                        }
                    }
                }
            }
            (SStep::OnClone(v), SOut::Clone(x)) => {
                let mut c = m.clone();
                let mut t = *taint;
                walk(w, &mut c, &mut t, v, x)?;
            }
            (SStep::Restart, SOut::Restart) => m.restart(),
            (SStep::Solve(l), SOut::Solve(o)) => check_solve(w, m, *taint, l, o)?,
            _ => return viol("harness", at(format!("{:?}", o))),
        }
    }
    *taint |= m.conflicting();
    Ok(())
}

/// the table a session prints: with naked singles filled in; only for states with a solution
fn shown(m: &Model, taint: bool) -> Option<String> {
    if taint || m.solutions(1).map_or(true, |v| v.is_empty()) {
        return None;
    }
    let mut st = St::new(m);
    st.naked_closure();
    Some(crate::text::table(&st.state()))
}

fn placements(d: &Ded) -> Option<(usize, u8)> {
    match d {
        Ded::Naked { cell, digit } | Ded::Hidden { cell, digit, .. } => Some((*cell as usize, *digit)),
        _ => None,
    }
}

fn check_solve(w: &mut Walk, m: &Model, taint: bool, list: &[u8], o: &SolveOut) -> Chk {
    let names = || list.iter().map(|&s| STRAT_NAMES[s as usize]).collect::<Vec<_>>().join(" ");
    let at = |x: String| format!("solve [{}] of {}: {}", names(), refs::line(&m.grid), x);
    let g = &o.grid.0;
    if !o.log.is_empty() {
        w.rec.nontrivial();
    }
    w.rec.add("log steps", o.log.len() as u64);
    if o.ok {
        w.rec.one("successful solves");
    }
    let clash = (0..81).any(|i| m.grid[i] != 0 && refs::tables().peers[i].iter().any(|&p| m.grid[p] == m.grid[i]));
    match w.prop {
        "S04" => {
            if clash && o.ok {
                return viol("clash-solved", at("success although two equal digits share a house".into()));
            }
            Ok(())
        }
        "S01" => {
            if !refs::is_subset(&m.grid, g) {
                return viol("given-changed", at(format!("returned {}", refs::line(g))));
            }
            if o.ok != refs::is_complete_valid(g) {
                return viol("success", at(format!("success {} with {}", o.ok, refs::line(g))));
            }
            if taint {
                return Ok(());
            }
            let sols = match m.solutions(model::N_SAMPLE_SOLUTIONS) {
                Ok(v) => v,
                Err(_) => {
                    w.rec.one("inconclusive: reference solver gave up");
                    return Ok(());
                }
            };
            w.rec.one(match sols.len() {
                0 => "solves of states without solution",
                1 => "solves of states with one solution",
                _ => "solves of states with several solutions",
            });
            if sols.is_empty() && o.ok {
                return viol("no-solution", at(format!("success with {}", refs::line(g))));
            }
            if o.ok && (0..81).any(|i| m.allowed[i] & (1 << g[i]) == 0) {
                return viol("excluded", at(format!("success with {} which uses excluded candidates", refs::line(g))));
            }
            for s in &sols {
                if !refs::is_subset(g, s) {
                    return viol("contradicts", at(format!("returned {}, a solution is {}", refs::line(g), refs::line(s))));
                }
                for (n, (d, _)) in o.log.iter().enumerate() {
                    if let Some((c, x)) = placements(d) {
                        if s[c] != x {
                            return viol("places-wrong", at(format!("step {} {:?}, a solution is {}", n, d, refs::line(s))));
                        }
                    } else if let Some(&(c, x)) = model::conflicts(d).into_iter().flatten().find(|&&(c, x)| s[c as usize] == x) {
                        return viol("removes-wrong", at(format!("step {} {:?} removes {} from cell {}, a solution is {}", n, d, x, c, refs::line(s))));
                    }
                }
            }
            Ok(())
        }
        "S02" => {
            if let Some(e) = &o.log_err {
                return viol("log-access", at(e.clone()));
            }
            if taint {
                return Ok(());
            }
            match model::replay(m, o, list, true, &[]) {
                Err(e) => viol("step", at(e)),
                Ok(rp) => {
                    for u in rp.used {
                        w.rec.one(&format!("justified {}", STRAT_NAMES[u as usize]));
                    }
                    if rp.end.grid != *g {
                        return viol("grid", at(format!("log leads to {}, returned {}", refs::line(&rp.end.grid), refs::line(g))));
                    }
                    Ok(())
                }
            }
        }
        "S03" => {
            if taint || list.len() < 2 || m.solutions(1).map_or(true, |v| v.is_empty()) {
                return Ok(());
            }
            if !o.ok {
                let rp = match model::replay(m, o, list, false, &[]) {
                    Ok(rp) => rp,
                    Err(_) => return Ok(()),
                };
                w.rec.one("stuck states examined");
                for &s in list {
                    if let Some(x) = model::progress(&rp.end, s) {
                        return viol("gave-up", at(format!("gave up at {} although {} applies: {}", refs::line(&rp.end.grid), STRAT_NAMES[s as usize], x)));
                    }
                }
            }
            let set = set_of(list);
            if !is_closed(set) || set >> 14 != 0 {
                return Ok(());
            }
            for (m2, l2, ok2, g2) in &w.solves {
                if m2 != m {
                    continue;
                }
                let s2 = set_of(l2);
                let other = || format!("[{}] gives {} {}", l2.iter().map(|&s| STRAT_NAMES[s as usize]).collect::<Vec<_>>().join(" "), ok2, refs::line(g2));
                if s2 == set {
                    w.rec.one("orders compared");
                    if (*ok2, *g2) != (o.ok, *g) {
                        return viol("order", at(format!("{} {}, but {}", o.ok, refs::line(g), other())));
                    }
                } else if s2 & set == s2 {
                    w.rec.one("supersets compared");
                    if !refs::is_subset(g2, g) || *ok2 && !o.ok {
                        return viol("superset", at(format!("{} {}, but {}", o.ok, refs::line(g), other())));
                    }
                } else if s2 & set == set && (!refs::is_subset(g, g2) || o.ok && !*ok2) {
                    return viol("superset", at(format!("{} {}, but {}", o.ok, refs::line(g), other())));
                }
            }
            w.solves.push((m.clone(), list.to_vec(), o.ok, *g));
            Ok(())
        }
        _ => Ok(()),
    }
}

fn s05(se: &Session, outs: &[SOut], solve: &Option<SolveOut>, rec: &mut Rec) -> Chk {
    fn strip(v: &[SStep]) -> Vec<SStep> {
        v.iter()
            .filter(|s| !matches!(s, SStep::Restart))
            .map(|s| match s {
                SStep::OnClone(w) => SStep::OnClone(strip(w)),
                x => x.clone(),
            })
            .collect()
    }
    let plain = Session { start: se.start.clone(), steps: strip(&se.steps), solve: se.solve.clone() };
    if plain.steps.len() < se.steps.len() {
        rec.nontrivial();
    }
    let o = rec.run(&Step::new(Op::Session(plain), StreamSpec::healthy(1)));
    let (outs2, solve2) = match &o.res {
        Ok(Res::Session { outs, solve }) => (outs, solve),
        Err(p) => return not_ok(p),
        _ => return viol("harness", "outcome"),
    };
    fn solves(m: &Model, taint: bool, a: &SolveOut, b: &SolveOut, l: &[u8], rec: &mut Rec) -> Chk {
        if taint {
            return Ok(());
        }
        let say = || format!("solve {:?} of {}: restored {} {:?}, original {} {:?}", l.iter().map(|&s| STRAT_NAMES[s as usize]).collect::<Vec<_>>(), refs::line(&m.grid), a.ok, a.grid, b.ok, b.grid);
        match m.solutions(1) {
            Err(_) => Ok(()),
            Ok(v) if v.is_empty() => {
                if a.ok || b.ok {
                    return viol("solve", say());
                }
                Ok(())
            }
            Ok(_) => {
                rec.one("solves of restored sessions compared");
                if a.ok != b.ok || a.grid != b.grid {
                    return viol("solve", say());
                }
                Ok(())
            }
        }
    }
    fn cmp(m: &mut Model, taint: &mut bool, steps: &[SStep], a: &[SOut], b: &[SOut], rec: &mut Rec) -> Chk {
        let mut b = b.iter();
        for (i, (s, x)) in steps.iter().zip(a).enumerate() {
            *taint |= m.conflicting();
            if matches!(s, SStep::Restart) {
                rec.one("restarts compared");
                continue;
            }
            let y = match b.next() {
                Some(y) => y,
                None => return viol("harness", "outcomes"),
            };
            if let SStep::Insert { cell, digit } = s {
                m.insert(*cell as usize, *digit);
            }
            let same = match (s, x, y) {
                (SStep::OnClone(v), SOut::Clone(p), SOut::Clone(q)) => {
                    cmp(&mut m.clone(), &mut taint.clone(), v, p, q, rec)?;
                    true
                }
                (SStep::Solve(l), SOut::Solve(p), SOut::Solve(q)) => {
                    solves(m, *taint, p, q, l, rec)?;
                    true
                }
                (SStep::Show | SStep::ShowFailing(_), _, _) => shown(m, *taint).is_none() || x == y,
                (SStep::GridState, SOut::State(p), SOut::State(q)) => (0..81).all(|c| p[c] == q[c] || *taint && m.grid[c] == 0),
                (SStep::CellState(_), _, _) => *taint || x == y,
                _ => x == y,
            };
            if !same {
                return viol("shows", format!("step {} {:?}: restored session {:?}, original {:?}", i, s, x, y));
            }
        }
        *taint |= m.conflicting();
        Ok(())
    }
    let mut m = Model::new(&se.start);
    let mut taint = false;
    cmp(&mut m, &mut taint, &se.steps, outs, outs2, rec)?;
    if let (Some(l), Some(a), Some(b)) = (&se.solve, solve, solve2) {
        solves(&m, taint, a, b, l, rec)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ text

fn w01(s: &Step, rec: &mut Rec) -> Chk {
    let (what, src, spec, sink) = match &s.op {
        Op::Print { what, src, spec, sink } => (what, src, spec, sink),
        _ => return Ok(()),
    };
    let with = |k: SinkSpec| Step::new(Op::Print { what: what.clone(), src: *src, spec: spec.clone(), sink: k }, s.ambient.clone());
    let kind = match what {
        What::Line => "line",
        What::Sudoku => "sudoku",
        What::Block => "block",
        What::LineDebug => "line-debug",
        What::SudokuDebug => "debug",
        What::Solver => "solver",
        What::Cell(_) => "cell",
        What::Bits(..) => "bits",
        What::Error(..) => "error",
    };
    let printed = |o: &OpOut| -> Result<(bool, Vec<u8>, u32, u32), Violation> {
        match &o.res {
            Ok(Res::Printed { ok, text, writes, after_failure }) => Ok((*ok, text.clone(), *writes, *after_failure)),
            Err(p) => not_ok(p).map(|_| (false, vec![], 0, 0)),
            _ => Err(Violation { class: "harness".into(), msg: "outcome".into() }),
        }
    };
    let base = rec.run(&with(SinkSpec::default()));
    let (ok, text, writes, _) = printed(&base)?;
    rec.nontrivial();
    let show = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    if !ok {
        return viol(&format!("{}-failed", kind), "printing failed although the sink did not");
    }
    let want: Option<String> = match what {
        What::Line | What::Sudoku => Some(crate::text::pad(&refs::line(&src.0), spec)),
        What::Block => Some(crate::text::block(&src.0)),
        What::LineDebug => Some(format!("\"{}\"", refs::line(&src.0))),
        What::SudokuDebug => None,
        What::Solver => shown(&Model::new(&Start::Sudoku(*src)), Model::new(&Start::Sudoku(*src)).conflicting()),
        What::Cell(m) => Some(crate::text::pad(&crate::text::cell_text(m & !1), &Spec { width: spec.width, prec: None, align: 0, alt: false })),
        What::Bits(kind, b, c) => Some(crate::text::binary(*b as u128 | (*c as u128) << 64, [9, 27, 81][*kind as usize % 3])),
        What::Error(rd, b) => match crate::text::read(*rd, b) {
            Ok(_) => Some(String::new()),
            Err(e) => e.msg,
        },
    };
    if let Some(w) = &want {
        if w.as_bytes() != &text[..] {
            return viol(&format!("{}-text", kind), format!("printed\n{}\nexpected\n{}", show(&text), w));
        }
    }
    let mut sinks: Vec<SinkSpec> = vec![];
    let mut r = Prng::new(mix(&[text.len() as u64, writes as u64]));
    if writes <= 100 {
        sinks.extend((0..=writes).map(|k| SinkSpec { fail_at_write: Some(k), ..Default::default() }));
    } else {
        sinks.extend((0..60).map(|_| SinkSpec { fail_at_write: Some(r.us(writes as usize + 1) as u32), ..Default::default() }));
    }
    sinks.extend((0..8).map(|_| SinkSpec { fail_at_byte: Some(r.us(text.len() + 2) as u32), ..Default::default() }));
    sinks.push(SinkSpec { reenter: None, ..sink.clone() });
    for k in sinks {
        let o = rec.run(&with(k.clone()));
        let (ok, t, w, after) = printed(&o)?;
        let must_fail = k.fail_at_write.map_or(false, |n| n < writes) || k.fail_at_byte.map_or(false, |n| (n as usize) < text.len());
        if ok && (must_fail || t != text) {
            return viol(&format!("{}-swallowed", kind), format!("the sink fails ({:?}) but printing reports success after {:?}", k, show(&t)));
        }
        if !ok && !must_fail {
            return viol(&format!("{}-failed", kind), format!("printing failed although the sink ({:?}) did not", k));
        }
        if !text.starts_with(&t) {
            return viol(&format!("{}-prefix", kind), format!("the failing sink ({:?}) got {:?}", k, show(&t)));
        }
        if after > 0 {
            return viol(&format!("{}-continued", kind), format!("{} writes after the sink had failed ({:?})", after, k));
        }
        let _ = w;
    }
    // and afterwards it prints as before
    let (ok, t, _, _) = printed(&rec.run(&with(SinkSpec::default())))?;
    if !ok || t != text {
        return viol(&format!("{}-later", kind), "printing differs after failed sinks");
    }
    Ok(())
}

fn w02(s: &Step, rec: &mut Rec) -> Chk {
    let op = match &s.op {
        Op::Wire(w) if !w.src.is_empty() => w,
        _ => return Ok(()),
    };
    let out = rec.run(s);
    let o = match &out.res {
        Ok(Res::Wire(o)) => o,
        Err(p) => return not_ok(p),
        _ => return viol("harness", "outcome"),
    };
    rec.nontrivial();
    let f = format!("{:?}", op.fmt);
    let want = crate::wire::expected_bytes(op);
    let must_fail = matches!(op.write.fail_at, Some(n) if (n as usize) < want.len());
    if o.write_ok == must_fail {
        return viol(&format!("{}-write", f), format!("write success {} with transport {:?}", o.write_ok, op.write));
    }
    if must_fail && !want.starts_with(&o.written) || !must_fail && want != o.written {
        return viol(&format!("{}-bytes", f), format!("wrote {:?}, expected {:?}", String::from_utf8_lossy(&o.written), String::from_utf8_lossy(&want)));
    }
    let mut data = o.written.clone();
    for d in &op.damage {
        crate::wire::damage(&mut data, d);
    }
    let want = crate::wire::expected_read(op, &data);
    match (&o.read, want) {
        (Some(Ok(v)), Ok(w)) => {
            rec.one("read back");
            if *v != w {
                return viol(&format!("{}-read", f), format!("read {:?} from {:?}, expected {:?}", v, String::from_utf8_lossy(&data), w));
            }
        }
        (Some(Err(_)), Err(_)) => rec.one("refused"),
        (x, w) => return viol(&format!("{}-accept", f), format!("reading {:?} gives {:?}, expected {:?}", String::from_utf8_lossy(&data), x, w)),
    }
    Ok(())
}

fn w03(s: &Step, rec: &mut Rec) -> Chk {
    let (reader, bytes) = match &s.op {
        Op::Parse { reader, bytes } => (*reader, bytes),
        _ => return Ok(()),
    };
    let out = rec.run(s);
    let got = match &out.res {
        Ok(Res::Parsed(x)) => x,
        Err(p) => return not_ok(p),
        _ => return viol("harness", "outcome"),
    };
    rec.nontrivial();
    let f = format!("{:?}", reader);
    let want = crate::text::read(reader, bytes);
    let show = || format!("{:?}: {:?} gives {:?}, expected {:?}", reader, String::from_utf8_lossy(bytes), got, want.as_ref().map(refs::line));
    match (got, &want) {
        (Ok(v), Ok(w)) => {
            rec.one("accepted");
            if v[..] != w[..] {
                return viol(&format!("{}-cells", f), show());
            }
        }
        (Err(e), Err(x)) => {
            rec.one(&format!("refused: {}", x.kind.split('(').next().unwrap()));
            if e.kind != x.kind || x.msg.as_ref().map_or(false, |m| *m != e.msg) || x.pos.is_some() && x.pos != e.pos {
                return viol(&format!("{}-error", f), show());
            }
        }
        _ => return viol(&format!("{}-accept", f), show()),
    }
    Ok(())
}
