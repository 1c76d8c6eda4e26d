//! Operations on the library, their execution and their recorded outcomes.
use crate::ctx::{self, lib, lib_catch, CallerRng, Ctx, Panic};
use crate::refs::Grid;
use crate::rngs::{hash_bytes, StreamSpec};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt::Write as _;
use sudoku::board::positions::House;
use sudoku::board::{Candidate, Cell, CellState, Digit};
use sudoku::bitset::Set;
use sudoku::strategy::{Deduction, StrategySolver, Strategy};
use sudoku::{Sudoku, Symmetry};

/// a grid that serialises as its line form
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Gr(pub Grid);
impl Serialize for Gr {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::refs::line(&self.0))
    }
}
impl<'de> Deserialize<'de> for Gr {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Gr, D::Error> {
        Ok(Gr(crate::refs::parse(&String::deserialize(d)?)))
    }
}
impl std::fmt::Debug for Gr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&crate::refs::line(&self.0))
    }
}

pub const SYMS: [Symmetry; 10] = [
    Symmetry::VerticalMirror,
    Symmetry::HorizontalMirror,
    Symmetry::VerticalAndHorizontalMirror,
    Symmetry::DiagonalMirror,
    Symmetry::AntidiagonalMirror,
    Symmetry::BidiagonalMirror,
    Symmetry::QuarterRotation,
    Symmetry::HalfRotation,
    Symmetry::Dihedral,
    Symmetry::None,
];
pub const SYM_NONE: u8 = 9;
pub const SYM_HALF: u8 = 7;

pub const STRATS: [Strategy; 16] = [
    Strategy::NakedSingles,
    Strategy::HiddenSingles,
    Strategy::LockedCandidates,
    Strategy::NakedPairs,
    Strategy::NakedTriples,
    Strategy::NakedQuads,
    Strategy::HiddenPairs,
    Strategy::HiddenTriples,
    Strategy::HiddenQuads,
    Strategy::XWing,
    Strategy::Swordfish,
    Strategy::Jellyfish,
    Strategy::XyWing,
    Strategy::XyzWing,
    Strategy::MutantSwordfish,
    Strategy::MutantJellyfish,
];
pub fn strat_no(s: &Strategy) -> u8 {
    let n = format!("{:?}", s);
    STRATS.iter().position(|t| format!("{:?}", t) == n).map_or(99, |p| p as u8)
}
pub const STRAT_NAMES: [&str; 16] = ["naked-singles", "hidden-singles", "locked", "naked-pairs", "naked-triples", "naked-quads", "hidden-pairs", "hidden-triples", "hidden-quads", "xwing", "swordfish", "jellyfish", "xy", "xyz", "mutant3", "mutant4"];

/// where a random operation takes its numbers from
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rand {
    Ambient,
    Static(StreamSpec),
    Dyn(StreamSpec),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FromApi {
    /// generate_from
    Plain,
    /// generate_with_symmetry_from
    Sym,
    /// generate_with_symmetry_and_rng_from
    Rng(Rand),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SolveApi {
    Some,
    Unique,
    Count(usize),
    IsUnique,
    UpTo(usize),
    Buffer { cap: usize, limit: usize },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Start {
    Sudoku(Gr),
    SudokuAndClues(Gr, Gr),
    /// bit 0: the cell is filled with the single digit set; bits 1..=9: digits
    State(Vec<u16>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SStep {
    Insert { cell: u8, digit: u8 },
    ToSudoku,
    GridState,
    CellState(u8),
    IsSolved,
    Show,
    /// print into a sink that fails at this write
    ShowFailing(u32),
    /// work on a clone, then go on with the original
    OnClone(Vec<SStep>),
    /// drop the session, rebuild it from the grid state it showed
    Restart,
    /// solve a clone
    Solve(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Session {
    pub start: Start,
    pub steps: Vec<SStep>,
    /// consume the session at the end
    pub solve: Option<Vec<u8>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Reader {
    Line,
    Block,
    Permissive,
    Slice,
    Array,
    TrySlice,
    TryArray,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    Line,
    Sudoku,
    Block,
    LineDebug,
    SudokuDebug,
    /// session built from this sudoku
    Solver,
    /// a cell state: bit 0 = filled
    Cell(u16),
    /// a set of digits, houses or cells in binary: kind 0, 1, 2 and its members
    Bits(u8, u64, u64),
    /// the error a reader gives for this text
    Error(Reader, Vec<u8>),
}

/// format specification for `What::Line`, `What::Sudoku`, `What::Cell`
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Spec {
    pub width: Option<usize>,
    pub prec: Option<usize>,
    /// 0 none, 1 left, 2 right, 3 centre; 4.. with fill '*'
    pub align: u8,
    /// the `#` flag (with align 2)
    #[serde(default)]
    pub alt: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct SinkSpec {
    pub fail_at_write: Option<u32>,
    pub fail_at_byte: Option<u32>,
    pub reenter: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Solved { rand: Rand },
    Generate,
    GenerateSym { sym: u8 },
    From { src: Gr, sym: u8, api: FromApi },
    Shuffle { src: Gr, times: u32, by_value: bool },
    Canon { src: Gr },
    Solve { src: Gr, api: SolveApi },
    Session(Session),
    Parse { reader: Reader, bytes: Vec<u8> },
    Print { what: What, src: Gr, spec: Spec, sink: SinkSpec },
    Wire(crate::wire::WireOp),
    Ask(crate::ask::Ask),
    /// questions about one session, or the log of solving it, that all callers hold together
    Shared { session: Session, asks: Vec<SStep> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    pub ambient: StreamSpec,
    /// operation performed from inside re-entrant callbacks
    pub nested: Option<Box<Step>>,
}
impl Step {
    pub fn new(op: Op, ambient: StreamSpec) -> Step {
        Step { op, ambient, nested: None }
    }
}

// ------------------------------------------------------------------ outcomes

#[derive(Clone, Debug, PartialEq)]
pub struct PErr {
    pub kind: String,
    pub msg: String,
    /// row, column, block reported by InvalidEntry
    pub pos: Option<(u8, u8, u8)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ded {
    Naked { cell: u8, digit: u8 },
    Hidden { cell: u8, digit: u8, house: u8 },
    Locked { digit: u8, mini: u8, pointing: bool, conf: Vec<(u8, u8)> },
    Subset { house: u8, pos: u16, digits: u16, conf: Vec<(u8, u8)> },
    BasicFish { digit: u8, lines: u32, pos: u16, conf: Vec<(u8, u8)> },
    Fish { digit: u8, base: u32, cover: u32, conf: Vec<(u8, u8)> },
    Wing { hinge: u8, hinge_digits: u16, pincers: Vec<u8>, conf: Vec<(u8, u8)> },
    Unknown(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct SolveOut {
    pub ok: bool,
    pub grid: Gr,
    pub log: Vec<(Ded, u8)>,
    /// inconsistencies between len, is_empty, get and iter
    pub log_err: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SOut {
    Insert(bool),
    Grid(Gr),
    /// bit 0: filled
    State(Vec<u16>),
    Cell(u16),
    Bool(bool),
    Text(String),
    Failing { ok: bool, text: String, after: u32 },
    Clone(Vec<SOut>),
    Restart,
    Solve(SolveOut),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Grid(Gr),
    OptGrid(Option<Gr>),
    Canon(Option<(Gr, usize)>),
    Count(usize),
    Bool(bool),
    Grids(Vec<Gr>),
    /// cells are raw, so any garbage shows
    Buffer { ret: usize, cells: Vec<Vec<u8>> },
    /// grids after each shuffle; the last one is the content after a failure
    Shuffles { grids: Vec<Gr>, panic: Option<Panic> },
    Session { outs: Vec<SOut>, solve: Option<SolveOut> },
    Parsed(Result<Vec<u8>, PErr>),
    Printed { ok: bool, text: Vec<u8>, writes: u32, after_failure: u32 },
    Wire(crate::wire::WireOut),
    Answers(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct OpOut {
    pub res: Result<Res, Panic>,
    pub ambient: u64,
    pub caller: u64,
    pub entropy: u64,
    /// next value of the caller's source afterwards: how far it was consumed
    pub next: u64,
    pub nested: Vec<OpOut>,
    pub mem_peak: usize,
}
impl OpOut {
    /// hash of everything a caller can observe (memory use excluded)
    pub fn digest(&self) -> u64 {
        let mut s = String::new();
        let _ = write!(s, "{:?} {} {} {} {} ", self.res, self.ambient, self.caller, self.entropy, self.next);
        for n in &self.nested {
            let _ = write!(s, "{} ", n.digest());
        }
        hash_bytes(s.as_bytes())
    }
    /// the same without the nested outcomes
    pub fn own_digest(&self) -> u64 {
        hash_bytes(format!("{:?} {} {} {} {}", self.res, self.ambient, self.caller, self.entropy, self.next).as_bytes())
    }
}

// ------------------------------------------------------------------ execution

pub fn to_lib(g: &Gr) -> Sudoku {
    Sudoku::from_bytes(g.0).expect("harness: invalid grid")
}
pub fn from_lib(s: Sudoku) -> Gr {
    Gr(s.to_bytes())
}
pub fn digits_to_bits(s: Set<Digit>) -> u16 {
    let mut m = 0;
    for d in s {
        m |= 1 << d.get();
    }
    m
}
pub fn bits_to_digits(m: u16) -> Set<Digit> {
    let mut s = Set::NONE;
    for d in 1..=9u8 {
        if m & (1 << d) != 0 {
            s |= Digit::new(d).as_set();
        }
    }
    s
}
pub fn cell_state_bits(c: CellState) -> u16 {
    match c {
        CellState::Digit(d) => 1 | 1 << d.get(),
        CellState::Candidates(s) => digits_to_bits(s),
    }
}
pub fn bits_cell_state(m: u16) -> CellState {
    if m & 1 != 0 {
        CellState::Digit(Digit::new(m.trailing_zeros_from1()))
    } else {
        CellState::Candidates(bits_to_digits(m))
    }
}
trait Tz {
    fn trailing_zeros_from1(self) -> u8;
}
impl Tz for u16 {
    fn trailing_zeros_from1(self) -> u8 {
        (self & !1).trailing_zeros() as u8
    }
}

/// a library call that can be made with a source of any type
trait WithSource {
    type Out;
    fn call<R: rand::Rng + ?Sized>(self, r: &mut R) -> Self::Out;
}
struct SolvedFrom;
impl WithSource for SolvedFrom {
    type Out = Sudoku;
    fn call<R: rand::Rng + ?Sized>(self, r: &mut R) -> Sudoku {
        Sudoku::generate_solved_with_rng(r)
    }
}
struct PuzzleFrom(Sudoku, sudoku::Symmetry);
impl WithSource for PuzzleFrom {
    type Out = Sudoku;
    fn call<R: rand::Rng + ?Sized>(self, r: &mut R) -> Sudoku {
        Sudoku::generate_with_symmetry_and_rng_from(self.0, self.1, r)
    }
}

/// the same source as an object of another size
#[repr(align(64))]
struct Large {
    _pad: [u64; 48],
    r: CallerRng,
}
struct Handle;
thread_local! {
    static HANDLED: std::cell::RefCell<Vec<CallerRng>> = const { std::cell::RefCell::new(vec![]) };
}
impl Handle {
    /// the source is taken out while it runs: it may call back into the library
    fn with<T>(&self, f: impl FnOnce(&mut CallerRng) -> T) -> T {
        let mut r = HANDLED.with(|h| h.borrow_mut().pop()).expect("a source");
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r)));
        HANDLED.with(|h| h.borrow_mut().push(r));
        out.unwrap_or_else(|e| std::panic::resume_unwind(e))
    }
}
impl rand::RngCore for Large {
    fn next_u32(&mut self) -> u32 {
        self.r.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.r.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.r.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.r.try_fill_bytes(d)
    }
}
impl rand::RngCore for Handle {
    fn next_u32(&mut self) -> u32 {
        self.with(|r| r.next_u32())
    }
    fn next_u64(&mut self) -> u64 {
        self.with(|r| r.next_u64())
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.with(|r| r.fill_bytes(d))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.with(|r| r.try_fill_bytes(d))
    }
}
pub const WRAPS: u8 = 5;

fn with_rng<C: WithSource>(spec: &StreamSpec, next: &mut u64, dynamic: bool, call: C) -> Result<C::Out, Panic> {
    use rand::RngCore;
    let mut r = CallerRng::new(spec);
    let (out, mut r) = match (spec.wrap % WRAPS, dynamic) {
        (1, _) => {
            let mut big = Large { _pad: [0; 48], r };
            let out = if dynamic {
                let d: &mut dyn RngCore = &mut big;
                lib_catch(|| call.call(d))
            } else {
                lib_catch(|| call.call(&mut big))
            };
            (out, big.r)
        }
        (2, _) => {
            HANDLED.with(|h| h.borrow_mut().push(r));
            let out = if dynamic {
                let d: &mut dyn RngCore = &mut Handle;
                lib_catch(|| call.call(d))
            } else {
                lib_catch(|| call.call(&mut Handle))
            };
            (out, HANDLED.with(|h| h.borrow_mut().pop()).expect("a source"))
        }
        (3, _) => {
            let mut b: Box<dyn RngCore> = Box::new(&mut r);
            let out = lib_catch(|| call.call(&mut b));
            drop(b);
            (out, r)
        }
        (4, false) => {
            let out = lib_catch(|| call.call(&mut &mut r));
            (out, r)
        }
        (_, true) => {
            let d: &mut dyn RngCore = &mut r;
            let out = lib_catch(|| call.call(d));
            (out, r)
        }
        _ => {
            let out = lib_catch(|| call.call(&mut r));
            (out, r)
        }
    };
    *next = r.stream.next();
    out
}

fn generic_panic<T>(r: Result<T, Panic>, f: impl FnOnce(T) -> Res) -> Result<Res, Panic> {
    r.map(f)
}

pub fn run_step(step: &Step) -> OpOut {
    let saved = ctx::swap_ctx(Some(Box::new(Ctx::new(&step.ambient, step.nested.as_deref().cloned()))));
    let mut next = 0;
    ctx::mem_reset(1 << 30);
    let res = run_op(&step.op, &mut next);
    let mem_peak = ctx::mem_peak();
    let c = ctx::swap_ctx(saved).unwrap();
    OpOut { res, ambient: c.n.ambient, caller: c.n.caller, entropy: c.n.entropy, next, nested: c.nested_out, mem_peak }
}

fn run_op(op: &Op, next: &mut u64) -> Result<Res, Panic> {
    match op {
        Op::Solved { rand } => generic_panic(
            match rand {
                Rand::Ambient => lib_catch(Sudoku::generate_solved),
                Rand::Static(s) => with_rng(s, next, false, SolvedFrom),
                Rand::Dyn(s) => with_rng(s, next, true, SolvedFrom),
            },
            |s| Res::Grid(from_lib(s)),
        ),
        Op::Generate => generic_panic(lib_catch(Sudoku::generate), |s| Res::Grid(from_lib(s))),
        Op::GenerateSym { sym } => generic_panic(lib_catch(|| Sudoku::generate_with_symmetry(SYMS[*sym as usize])), |s| Res::Grid(from_lib(s))),
        Op::From { src, sym, api } => {
            let s = to_lib(src);
            let y = SYMS[*sym as usize];
            generic_panic(
                match api {
                    FromApi::Plain => lib_catch(|| Sudoku::generate_from(s)),
                    FromApi::Sym => lib_catch(|| Sudoku::generate_with_symmetry_from(s, y)),
                    FromApi::Rng(Rand::Ambient) => lib_catch(|| Sudoku::generate_with_symmetry_and_rng_from(s, y, &mut rand::thread_rng())),
                    FromApi::Rng(Rand::Static(r)) => with_rng(r, next, false, PuzzleFrom(s, y)),
                    FromApi::Rng(Rand::Dyn(r)) => with_rng(r, next, true, PuzzleFrom(s, y)),
                },
                |s| Res::Grid(from_lib(s)),
            )
        }
        Op::Shuffle { src, times, by_value } => {
            let mut s = to_lib(src);
            let mut grids = vec![];
            let mut panic = None;
            for _ in 0..*times {
                let r = if *by_value {
                    let old = s;
                    lib_catch(|| old.shuffled()).map(|n| s = n)
                } else {
                    lib_catch(|| s.shuffle())
                };
                grids.push(from_lib(s));
                if let Err(p) = r {
                    panic = Some(p);
                    break;
                }
            }
            Ok(Res::Shuffles { grids, panic })
        }
        Op::Canon { src } => {
            let s = to_lib(src);
            generic_panic(lib_catch(|| s.canonicalized()), |r| Res::Canon(r.map(|(g, n)| (from_lib(g), n))))
        }
        Op::Solve { src, api } => {
            let s = to_lib(src);
            match api {
                SolveApi::Some => generic_panic(lib_catch(|| s.some_solution()), |r| Res::OptGrid(r.map(from_lib))),
                SolveApi::Unique => generic_panic(lib_catch(|| s.solution()), |r| Res::OptGrid(r.map(from_lib))),
                SolveApi::Count(l) => generic_panic(lib_catch(|| s.solutions_count_up_to(*l)), Res::Count),
                SolveApi::IsUnique => generic_panic(lib_catch(|| s.is_uniquely_solvable()), Res::Bool),
                SolveApi::UpTo(l) => generic_panic(lib_catch(|| s.solutions_up_to(*l)), |v| {
                    ctx::harness(|| Res::Grids(v.into_iter().map(from_lib).collect()))
                }),
                SolveApi::Buffer { cap, limit } => {
                    let mut buf = vec![[0xAAu8; 81]; *cap];
                    let r = lib_catch(|| s.solutions_up_to_buffer(&mut buf, *limit));
                    generic_panic(r, |ret| Res::Buffer { ret, cells: buf.iter().map(|b| b.to_vec()).collect() })
                }
            }
        }
        Op::Session(s) => run_session(s),
        Op::Parse { reader, bytes } => generic_panic(parse(*reader, bytes), Res::Parsed),
        Op::Print { what, src, spec, sink } => print(what, src, spec, sink),
        Op::Wire(w) => generic_panic(crate::wire::run(w), Res::Wire),
        Op::Shared { session, asks } => run_shared(session, asks),
        Op::Ask(q) => Ok(Res::Answers(crate::ask::run(q))),
    }
}

// ------------------------------------------------------------------ sessions

pub fn make_session(start: &Start) -> StrategySolver {
    match start {
        Start::Sudoku(g) => {
            let s = to_lib(g);
            lib(|| StrategySolver::from_sudoku(s))
        }
        Start::SudokuAndClues(g, c) => {
            let (s, c) = (to_lib(g), to_lib(c));
            lib(|| StrategySolver::from_sudoku_and_clues(s, c))
        }
        Start::State(v) => {
            let a: [CellState; 81] = std::array::from_fn(|i| bits_cell_state(v[i]));
            lib(|| StrategySolver::from_grid_state(a))
        }
    }
}

pub fn strategies(v: &[u8]) -> Vec<Strategy> {
    v.iter().map(|&i| STRATS[i as usize].clone()).collect()
}

fn conf(c: &[Candidate]) -> Vec<(u8, u8)> {
    c.iter().map(|c| (c.cell.get(), c.digit.get())).collect()
}

pub fn ded(d: &Deduction<&[Candidate]>) -> Ded {
    match *d {
        Deduction::NakedSingles(c) => Ded::Naked { cell: c.cell.get(), digit: c.digit.get() },
        Deduction::HiddenSingles(c, h) => {
            use sudoku::board::positions::HouseType::*;
            Ded::Hidden {
                cell: c.cell.get(),
                digit: c.digit.get(),
                house: match h {
                    Row(x) => x.get(),
                    Col(x) => 9 + x.get(),
                    Block(x) => 18 + x.get(),
                },
            }
        }
        Deduction::LockedCandidates { digit, miniline, is_pointing, conflicts } => Ded::Locked { digit: digit.get(), mini: miniline.get(), pointing: is_pointing, conf: conf(conflicts) },
        Deduction::Subsets { house, positions, digits, conflicts } => {
            let mut pos = 0;
            for p in positions {
                pos |= 1 << p.get();
            }
            Ded::Subset { house: house.get(), pos, digits: digits_to_bits(digits), conf: conf(conflicts) }
        }
        Deduction::BasicFish { digit, lines, positions, conflicts } => {
            let mut pos = 0;
            for p in positions {
                pos |= 1 << p.get();
            }
            let mut l = 0;
            for x in lines {
                l |= 1 << x.get();
            }
            Ded::BasicFish { digit: digit.get(), lines: l, pos, conf: conf(conflicts) }
        }
        Deduction::Fish { digit, base, cover, conflicts } => {
            let f = |s: Set<sudoku::board::positions::House>| {
                let mut m = 0u32;
                for x in s {
                    m |= 1 << x.get();
                }
                m
            };
            Ded::Fish { digit: digit.get(), base: f(base), cover: f(cover), conf: conf(conflicts) }
        }
        Deduction::Wing { hinge, hinge_digits, pincers, conflicts } => {
            let mut p = vec![];
            for c in pincers {
                p.push(c.get());
            }
            Ded::Wing { hinge: hinge.get(), hinge_digits: digits_to_bits(hinge_digits), pincers: p, conf: conf(conflicts) }
        }
        ref x => Ded::Unknown(format!("{:?}", x)),
    }
}

pub fn solve_session(s: StrategySolver, strats: &[u8]) -> SolveOut {
    let st = strategies(strats);
    let r = lib(|| s.solve(&st));
    let (ok, (grid, log)) = match r {
        Ok(x) => (true, x),
        Err(x) => (false, x),
    };
    read_log(ok, from_lib(grid), &log)
}

fn read_log(ok: bool, grid: Gr, log: &sudoku::strategy::deduction::Deductions) -> SolveOut {
    let mut out = SolveOut { ok, grid, log: vec![], log_err: None };
    let n = log.len();
    let mut i = 0;
    for d in log.iter() {
        match log.get(i) {
            None => out.log_err = Some(format!("get({}) is None although iteration goes on", i)),
            Some(e) => {
                if ded(&e) != ded(&d) || e != d {
                    out.log_err = Some(format!("get({}) differs from iteration", i));
                }
            }
        }
        let strat = lib(|| d.strategy());
        out.log.push((ded(&d), strat_no(&strat)));
        i += 1;
    }
    if i != n {
        out.log_err = Some(format!("len {} but {} items", n, i));
    }
    if log.is_empty() != (n == 0) {
        out.log_err = Some("is_empty disagrees with len".into());
    }
    if log.get(n).is_some() || log.get(n + 7).is_some() {
        out.log_err = Some("get beyond the end".into());
    }
    out
}

pub struct Sink {
    pub text: Vec<u8>,
    pub spec: SinkSpec,
    pub writes: u32,
    pub failed: bool,
    pub after: u32,
}
impl Sink {
    pub fn new(spec: &SinkSpec) -> Sink {
        Sink { text: vec![], spec: spec.clone(), writes: 0, failed: false, after: 0 }
    }
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        ctx::harness(|| {
            ctx::yield_at("sink");
            if let Some(n) = self.spec.reenter {
                if self.writes % n.max(1) == n.max(1) - 1 {
                    ctx::reenter();
                }
            }
            if self.failed {
                self.after += 1;
                return Err(std::fmt::Error);
            }
            if s.is_empty() {
                return Ok(());
            }
            if self.spec.fail_at_write == Some(self.writes) {
                self.failed = true;
                return Err(std::fmt::Error);
            }
            self.writes += 1;
            if let Some(b) = self.spec.fail_at_byte {
                if self.text.len() + s.len() > b as usize {
                    let room = b as usize - self.text.len();
                    self.text.extend_from_slice(&s.as_bytes()[..room]);
                    self.failed = true;
                    return Err(std::fmt::Error);
                }
            }
            self.text.extend_from_slice(s.as_bytes());
            Ok(())
        })
    }
}

/// what can be asked without owning the session
fn ask_session(s: &StrategySolver, st: &SStep) -> Option<SOut> {
    Some(match st {
        SStep::GridState => {
            let g = lib(|| s.grid_state());
            SOut::State(g.iter().map(|&c| cell_state_bits(c)).collect())
        }
        SStep::IsSolved => SOut::Bool(lib(|| s.is_solved())),
        SStep::Show => {
            let mut k = Sink::new(&SinkSpec::default());
            let _ = lib(|| write!(k, "{}", s));
            SOut::Text(String::from_utf8_lossy(&k.text).into_owned())
        }
        SStep::ShowFailing(n) => {
            let mut k = Sink::new(&SinkSpec { fail_at_write: Some(*n), fail_at_byte: None, reenter: None });
            let r = lib(|| write!(k, "{}", s));
            SOut::Failing { ok: r.is_ok(), text: String::from_utf8_lossy(&k.text).into_owned(), after: k.after }
        }
        SStep::OnClone(v) => {
            let mut c = lib(|| s.clone());
            SOut::Clone(v.iter().map(|st| run_sstep(&mut c, st)).collect())
        }
        SStep::Solve(v) => {
            let c = lib(|| s.clone());
            SOut::Solve(solve_session(c, v))
        }
        _ => return None,
    })
}

fn run_sstep(s: &mut StrategySolver, st: &SStep) -> SOut {
    if let Some(o) = ask_session(s, st) {
        return o;
    }
    match st {
        SStep::Insert { cell, digit } => {
            let c = Candidate::new(*cell, *digit);
            SOut::Insert(lib(|| s.insert_candidate(c)).is_ok())
        }
        SStep::ToSudoku => SOut::Grid(from_lib(lib(|| s.to_sudoku()))),
        SStep::CellState(c) => SOut::Cell(cell_state_bits(lib(|| s.cell_state(Cell::new(*c))))),
        SStep::Restart => {
            let n = lib(|| {
                let g = s.grid_state();
                StrategySolver::from_grid_state(g)
            });
            *s = n;
            SOut::Restart
        }
        _ => unreachable!(),
    }
}

/// a session and the log of solving it, in the hands of several threads at a time
struct SharedObject {
    session: StrategySolver,
    solved: Option<(bool, Gr, sudoku::strategy::deduction::Deductions)>,
}
struct Probe<T>(std::marker::PhantomData<T>);
trait NotShareable {
    const SHAREABLE: bool = false;
}
impl<T> NotShareable for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    const SHAREABLE: bool = true;
}
/// only used if the compiler allows the value to be shared
struct Held(SharedObject);
unsafe impl Send for Held {}
unsafe impl Sync for Held {}
static HELD: std::sync::OnceLock<Vec<(Session, Held)>> = std::sync::OnceLock::new();

fn shared_object(se: &Session) -> SharedObject {
    let mut s = make_session(&se.start);
    for st in &se.steps {
        run_sstep(&mut s, st);
    }
    let solved = se.solve.as_ref().map(|v| {
        let st = strategies(v);
        let c = lib(|| s.clone());
        match lib(|| c.solve(&st)) {
            Ok((g, log)) => (true, from_lib(g), log),
            Err((g, log)) => (false, from_lib(g), log),
        }
    });
    SharedObject { session: s, solved }
}

/// builds what the tasks share, once per process
pub fn hold(tasks: &[Vec<Step>]) {
    if !Probe::<SharedObject>::SHAREABLE {
        return;
    }
    let mut v: Vec<(Session, Held)> = vec![];
    for s in tasks.iter().flatten() {
        if let Op::Shared { session, .. } = &s.op {
            if !v.iter().any(|x| x.0 == *session) {
                if let Ok(o) = lib_catch(|| ctx::harness(|| shared_object(session))) {
                    v.push((session.clone(), Held(o)));
                }
            }
        }
    }
    if !v.is_empty() {
        let _ = HELD.set(v);
    }
}

fn run_shared(se: &Session, asks: &[SStep]) -> Result<Res, Panic> {
    lib_catch(|| {
        ctx::harness(|| {
            let own;
            let o = match HELD.get().and_then(|v| v.iter().find(|x| x.0 == *se)) {
                Some(x) => &x.1 .0,
                None => {
                    own = shared_object(se);
                    &own
                }
            };
            let outs = asks.iter().filter_map(|st| ask_session(&o.session, st)).collect();
            let solve = o.solved.as_ref().map(|(ok, grid, log)| read_log(*ok, *grid, log));
            Res::Session { outs, solve }
        })
    })
}

fn run_session(se: &Session) -> Result<Res, Panic> {
    lib_catch(|| {
        ctx::harness(|| {
            let mut s = make_session(&se.start);
            let outs = se.steps.iter().map(|st| run_sstep(&mut s, st)).collect();
            let solve = se.solve.as_ref().map(|v| solve_session(s, v));
            Res::Session { outs, solve }
        })
    })
}

// ------------------------------------------------------------------ text

use sudoku::errors::*;

fn inv(e: InvalidEntry) -> (String, Option<(u8, u8, u8)>) {
    (format!("InvalidEntry({},{:?})", e.cell, e.ch), Some((e.row(), e.col(), e.block())))
}

pub fn parse(reader: Reader, bytes: &[u8]) -> Result<Result<Vec<u8>, PErr>, Panic> {
    let arr = |b: &[u8]| -> [u8; 81] { std::array::from_fn(|i| b.get(i).copied().unwrap_or(0)) };
    let slice_err = |e: FromBytesSliceError| {
        let msg = e.to_string();
        match e {
            FromBytesSliceError::WrongLength(n) => PErr { kind: format!("WrongLength({})", n), msg, pos: None },
            FromBytesSliceError::FromBytesError(_) => PErr { kind: "FromBytesError".into(), msg, pos: None },
        }
    };
    let arr_err = |e: FromBytesError| PErr { kind: "FromBytesError".into(), msg: e.to_string(), pos: None };
    let ok = |s: Sudoku| -> Vec<u8> { s.to_bytes().to_vec() };
    Ok(match reader {
        Reader::Slice => lib_catch(|| Sudoku::from_bytes_slice(bytes))?.map(ok).map_err(slice_err),
        Reader::TrySlice => lib_catch(|| Sudoku::try_from(bytes))?.map(ok).map_err(slice_err),
        Reader::Array => lib_catch(|| Sudoku::from_bytes(arr(bytes)))?.map(ok).map_err(arr_err),
        Reader::TryArray => lib_catch(|| Sudoku::try_from(arr(bytes)))?.map(|s| { let a: [u8; 81] = s.into(); a.to_vec() }).map_err(arr_err),
        Reader::Line => {
            let s = String::from_utf8_lossy(bytes);
            lib_catch(|| Sudoku::from_str_line(&s))?.map(ok).map_err(|e| {
                let msg = e.to_string();
                let (kind, pos) = match e {
                    LineParseError::InvalidEntry(i) => inv(i),
                    LineParseError::NotEnoughCells(n) => (format!("NotEnoughCells({})", n), None),
                    LineParseError::TooManyCells => ("TooManyCells".into(), None),
                    LineParseError::MissingCommentDelimiter => ("MissingCommentDelimiter".into(), None),
                };
                PErr { kind, msg, pos }
            })
        }
        Reader::Block => {
            let s = String::from_utf8_lossy(bytes);
            lib_catch(|| Sudoku::from_str_block(&s))?.map(ok).map_err(|e| {
                let msg = e.to_string();
                let (kind, pos) = match e {
                    BlockParseError::InvalidEntry(i) => inv(i),
                    BlockParseError::InvalidLineLength(n) => (format!("InvalidLineLength({})", n), None),
                    BlockParseError::NotEnoughRows(n) => (format!("NotEnoughRows({})", n), None),
                    BlockParseError::IncorrectFieldDelimiter => ("IncorrectFieldDelimiter".into(), None),
                    BlockParseError::TooManyRows => ("TooManyRows".into(), None),
                    BlockParseError::MissingCommentDelimiter(n) => (format!("MissingCommentDelimiter({})", n), None),
                };
                PErr { kind, msg, pos }
            })
        }
        Reader::Permissive => {
            let s = String::from_utf8_lossy(bytes);
            lib_catch(|| Sudoku::from_str_block_permissive(&s))?.map(ok).map_err(|e| PErr { kind: format!("NotEnoughRows({})", e.0), msg: e.to_string(), pos: None })
        }
    })
}

fn put(k: &mut Sink, spec: &Spec, v: &dyn std::fmt::Display) -> std::fmt::Result {
    let w = spec.width.unwrap_or(0);
    if spec.alt {
        return match (spec.width.is_some(), spec.prec) {
            (false, None) => write!(k, "{:#}", v),
            (false, Some(p)) => write!(k, "{:#.p$}", v),
            (true, None) => write!(k, "{:>#w$}", v),
            (true, Some(p)) => write!(k, "{:>#w$.p$}", v),
        };
    }
    match (spec.width.is_some(), spec.prec, spec.align) {
        (false, None, _) => write!(k, "{}", v),
        (false, Some(p), _) => write!(k, "{:.p$}", v),
        (true, None, 0) => write!(k, "{:w$}", v),
        (true, None, 1) => write!(k, "{:<w$}", v),
        (true, None, 2) => write!(k, "{:>w$}", v),
        (true, None, 3) => write!(k, "{:^w$}", v),
        (true, None, 4) => write!(k, "{:*<w$}", v),
        (true, None, 5) => write!(k, "{:*>w$}", v),
        (true, None, _) => write!(k, "{:*^w$}", v),
        (true, Some(p), 0) => write!(k, "{:w$.p$}", v),
        (true, Some(p), 1) => write!(k, "{:<w$.p$}", v),
        (true, Some(p), 2) => write!(k, "{:>w$.p$}", v),
        (true, Some(p), 3) => write!(k, "{:^w$.p$}", v),
        (true, Some(p), 4) => write!(k, "{:*<w$.p$}", v),
        (true, Some(p), 5) => write!(k, "{:*>w$.p$}", v),
        (true, Some(p), _) => write!(k, "{:*^w$.p$}", v),
    }
}

fn print(what: &What, src: &Gr, spec: &Spec, sink: &SinkSpec) -> Result<Res, Panic> {
    let mut k = Sink::new(sink);
    let s = to_lib(src);
    let r = lib_catch(|| match what {
        What::Line => put(&mut k, spec, &s.to_str_line()),
        What::Sudoku => put(&mut k, spec, &s),
        What::Block if spec.alt => write!(k, "{:#}", s.display_block()),
        What::Block => write!(k, "{}", s.display_block()),
        What::LineDebug => write!(k, "{:?}", s.to_str_line()),
        What::SudokuDebug => write!(k, "{:?}", s),
        What::Solver => {
            let se = StrategySolver::from_sudoku(s);
            if spec.alt { write!(k, "{:#}", se) } else { write!(k, "{}", se) }
        }
        What::Cell(m) => {
            let c = bits_cell_state(*m);
            put(&mut k, &Spec { width: spec.width, prec: None, align: 0, alt: false }, &c)
        }
        What::Bits(0, b, _) => write!(k, "{:b}", (1..10).filter(|d| b >> (d - 1) & 1 != 0).fold(Set::<Digit>::NONE, |s, d| s | Digit::new(d).as_set())),
        What::Bits(1, b, _) => write!(k, "{:b}", (0..27).filter(|d| b >> d & 1 != 0).fold(Set::<House>::NONE, |s, d| s | House::new(d).as_set())),
        What::Bits(_, b, c) => write!(k, "{:b}", (0..81).filter(|d| (*b as u128 | (*c as u128) << 64) >> d & 1 != 0).fold(Set::<Cell>::NONE, |s, d| s | Cell::new(d).as_set())),
        What::Error(reader, bytes) => {
            let txt = String::from_utf8_lossy(bytes).into_owned();
            let a: [u8; 81] = std::array::from_fn(|i| bytes.get(i).copied().unwrap_or(0));
            let e: Option<Box<dyn std::fmt::Display>> = match reader {
                Reader::Line => Sudoku::from_str_line(&txt).err().map(|e| Box::new(e) as _),
                Reader::Block => Sudoku::from_str_block(&txt).err().map(|e| Box::new(e) as _),
                Reader::Permissive => Sudoku::from_str_block_permissive(&txt).err().map(|e| Box::new(e) as _),
                Reader::Slice | Reader::TrySlice => Sudoku::from_bytes_slice(bytes).err().map(|e| Box::new(e) as _),
                Reader::Array | Reader::TryArray => Sudoku::from_bytes(a).err().map(|e| Box::new(e) as _),
            };
            match e {
                Some(e) => write!(k, "{}", e),
                None => Ok(()),
            }
        }
    });
    r.map(|r| Res::Printed { ok: r.is_ok(), text: k.text, writes: k.writes, after_failure: k.after })
}
