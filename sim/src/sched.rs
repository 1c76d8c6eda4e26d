//! T01: several callers on real threads of which exactly one runs at a time. A seeded
//! schedule decides at every seam crossing who runs next.
use crate::ctx;
use crate::gens::SessionOpts;
use crate::ops::*;
use crate::plan::*;
use crate::props::{any_step, step_of, Mix};
use crate::rngs::{mix, Prng, StreamSpec};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::Duration;

// ---------------------------------------------------------------- generation

fn make_nested(r: &mut Prng, s: &mut Step) {
    let every = 1 + r.us(30) as u32;
    let hooked = match &mut s.op {
        Op::Solved { rand: Rand::Static(x) | Rand::Dyn(x) } | Op::From { api: FromApi::Rng(Rand::Static(x) | Rand::Dyn(x)), .. } => {
            x.reenter = Some(every);
            true
        }
        Op::Print { sink, .. } => {
            sink.reenter = Some(every);
            true
        }
        _ => false,
    };
    if hooked {
        let mut inner = if r.chance(1, 2) { step_of(r, class_of(s), Mix::Light, 20) } else { any_step(r, Mix::Light, 20) };
        inner.nested = None;
        s.nested = Some(Box::new(inner));
    }
}

fn class_of(s: &Step) -> usize {
    match &s.op {
        Op::Solved { .. } => 0,
        Op::From { .. } => 2,
        Op::Shuffle { .. } => 3,
        Op::Canon { .. } => 4,
        Op::Solve { .. } => 5,
        Op::Session(_) => 8,
        Op::Parse { .. } => 11,
        Op::Print { .. } => 13,
        Op::Wire(_) => 14,
        Op::Ask(_) => 16,
        Op::Shared { .. } => 17,
        _ => 15,
    }
}

fn maybe_fail(r: &mut Prng, s: &mut Step) {
    if !r.chance(1, 6) {
        return;
    }
    let k = Some(r.below(120));
    match &mut s.op {
        Op::Solved { rand: Rand::Static(x) | Rand::Dyn(x) } | Op::From { api: FromApi::Rng(Rand::Static(x) | Rand::Dyn(x)), .. } => x.fail_at = k,
        _ => s.ambient.fail_at = k,
    }
}

pub fn gen(r: &mut Prng, p: &mut Plan) {
    // the build that sees every access to a static is slow: only interleaved tasks
    let kind = if BUILD == "statics" { 3 } else { r.us(10) };
    if kind == 0 && r.chance(1, 12) {
        // one question, then another tens of thousands of times, then the first and others like it
        let (class, n) = *r.pick(&[(0usize, 6_000usize), (3, 20_000), (5, 10_000), (4, 700), (8, 1_500), (11, 0), (11, 0), (11, 0), (13, 0), (14, 20_000), (15, 500), (16, 0), (16, 0), (16, 0)]);
        let step = |r: &mut Prng| match class {
            5 => Step::new(Op::Solve { src: Gr(crate::gens::unique(r)), api: SolveApi::UpTo(2) }, StreamSpec::healthy(1)),
            _ => step_of(r, class, Mix::Light, 0),
        };
        let mut t: Vec<Step> = (0..if n == 0 || n > 9000 { 40 } else { 6 }).map(|_| step(r)).collect();
        if r.chance(2, 3) {
            // the same question about other things
            let first = t[0].op.clone();
            for s in &mut t[1..] {
                match (&first, &mut s.op) {
                    (Op::Ask(f), Op::Ask(a)) => a.what = f.what,
                    (Op::Parse { reader: f, .. }, Op::Parse { reader, .. }) => *reader = *f,
                    _ => {}
                }
            }
        }
        let single = class == 16 && r.chance(1, 2);
        if single {
            // one question counted exactly, the last asked of a grid with some cells empty
            let kind = if r.chance(1, 2) { 0 } else { r.us(4) as u8 };
            let k = t.len() - 1;
            for (i, s) in t.iter_mut().enumerate() {
                if let Op::Ask(a) = &mut s.op {
                    (a.what, a.n) = (7, kind);
                    let mut g = crate::gens::solved(r);
                    if i == k || i > 0 && r.chance(1, 2) {
                        let from = *r.pick(&[0usize, 0, 0, 9, 40, 72]);
                        for c in from..(from + 1 + r.us(40)).min(81) {
                            g[c] = 0;
                        }
                    }
                    a.a = Gr(g);
                }
            }
        }
        p.batch = match n {
            0 if single && r.chance(3, 4) => 65_535,
            0 if r.chance(1, 2) => *r.pick(&[65_534u32, 65_535, 65_535, 65_535, 65_536, 32_767, 32_768, 21_845, 21_845]),
            0 => 60_000 + r.us(8_000) as u32,
            n => (n - r.us(n / 50)) as u32,
        };
        p.tasks.push(t);
        return;
    }
    if kind == 0 && r.chance(1, 5) {
        // few different operations again and again: counters wrap, tables fill up
        let class = *r.pick(&[0usize, 3, 3, 5, 5, 8, 11, 13, 14, 15, 16]);
        let mut few: Vec<Step> = (0..1 + r.us(3)).map(|_| step_of(r, class, Mix::Light, 4)).collect();
        if r.chance(1, 3) {
            few.push(any_step(r, Mix::Light, 4));
        }
        let n = 260 + r.us(900);
        p.tasks.push((0..n).map(|i| few[i % few.len()].clone()).collect());
        return;
    }
    if kind == 0 {
        // one caller with a long history
        let n = 30 + r.us(150);
        let mut t = vec![];
        for _ in 0..n {
            let class = *r.pick(&[0usize, 3, 5, 5, 8, 11, 13, 14]);
            let mut s = step_of(r, class, Mix::Light, 20);
            maybe_fail(r, &mut s);
            t.push(s);
        }
        p.tasks.push(t);
        return;
    }
    let n_tasks = if kind <= 2 { 1 } else { 2 + r.us(3) };
    if n_tasks > 1 && r.chance(1, 3) {
        // callers that ask the same few questions over and over
        let class = *r.pick(&[0usize, 2, 3, 4, 5, 5, 8, 11, 11, 13, 14, 15, 16, 16]);
        let pool: Vec<Step> = (0..1 + r.us(4)).map(|_| step_of(r, class, Mix::Light, 6)).collect();
        for _ in 0..n_tasks {
            let n = 2 + r.us(8);
            p.tasks.push((0..n).map(|_| r.pick(&pool).clone()).collect());
        }
        switches(r, p);
        return;
    }
    if n_tasks > 1 && r.chance(1, 8) {
        // callers that hold one session, or the log of one, together
        let o = SessionOpts { near: 3, planted: 20, dirty: 5, restarts: 0, queries: 5, solves: 0, clones: 0, max_steps: 10, final_solve: r.chance(1, 2) };
        let se = if r.chance(1, 3) { Session { start: Start::Sudoku(Gr(crate::gens::solved(r))), steps: vec![], solve: None } } else { crate::gens::session(r, &o) };
        for _ in 0..n_tasks {
            let n = 1 + r.us(4);
            let t = (0..n)
                .map(|_| {
                    let asks = (0..1 + r.us(3)).map(|_| match r.us(12) {
                        0..=3 => SStep::GridState,
                        4..=6 => SStep::IsSolved,
                        7 | 8 => SStep::Show,
                        9 => SStep::ShowFailing(r.us(60) as u32),
                        10 => SStep::OnClone(vec![SStep::CellState(r.us(81) as u8), SStep::ToSudoku]),
                        _ => SStep::Solve(crate::gens::strategy_list(r)),
                    });
                    Step::new(Op::Shared { session: se.clone(), asks: asks.collect() }, StreamSpec::healthy(1))
                })
                .collect();
            p.tasks.push(t);
        }
        switches(r, p);
        return;
    }
    let focus: Option<usize> = if r.chance(2, 3) { Some(*r.pick(&[0usize, 2, 3, 4, 5, 5, 8, 8, 11, 13, 14, 15, 16])) } else { None };
    for _ in 0..n_tasks {
        let n = 1 + r.us(3);
        let mut t = vec![];
        for _ in 0..n {
            let mut s = match focus {
                Some(c) => step_of(r, c, Mix::Light, 20),
                None => any_step(r, Mix::Light, 20),
            };
            maybe_fail(r, &mut s);
            if n_tasks == 1 || r.chance(1, 4) {
                make_nested(r, &mut s);
            }
            t.push(s);
        }
        p.tasks.push(t);
    }
    if n_tasks > 1 {
        switches(r, p);
    }
}

fn switches(r: &mut Prng, p: &mut Plan) {
    let style = r.us(5);
    let n = 1 + r.us(40);
    // the first switch comes early, or short operations never meet
    let early = if r.chance(1, 2) { 4 } else { 25 };
    p.sched.push((r.us(early) as u32, 1 + r.us(7) as u8));
    for _ in 0..n {
        let gap = match style {
            0 => r.us(3),
            1 => r.us(8),
            2 => r.us(40),
            3 => r.us(400),
            _ => *r.pick(&[0usize, 0, 1, 2, 5, 12, 40, 150, 600, 2000]),
        } as u32;
        p.sched.push((gap, r.us(8) as u8));
    }
}

// ---------------------------------------------------------------- baton passing

struct State {
    current: usize,
    alive: Vec<bool>,
    started: usize,
    parked: Vec<Option<&'static str>>,
    tids: Vec<i32>,
    gap: u32,
    pos: usize,
    sched: Vec<(u32, u8)>,
    switches: u64,
    crossings: u64,
    forced: u64,
    trace: u64,
    abandon: bool,
    /// asleep until this word no longer has this value
    asleep: Vec<Option<(usize, u32)>>,
    sleeps: u64,
    accesses: u64,
    /// accesses in a row to one address
    spin: (usize, u64),
    /// when each task last held the turn
    ran: Vec<u64>,
    verdict: Option<Violation>,
}
struct Shared {
    m: Mutex<State>,
    cv: Condvar,
}
static SHARED: OnceLock<Shared> = OnceLock::new();
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn is_callback(site: &str) -> bool {
    matches!(site, "caller-rng" | "sink" | "transport" | "ambient")
}

fn lock(s: &Shared) -> std::sync::MutexGuard<'_, State> {
    s.m.lock().unwrap_or_else(|e| e.into_inner())
}

fn site_no(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| h.wrapping_mul(31).wrapping_add(b as u64))
}

impl State {
    fn load_gap(&mut self) {
        self.gap = if self.sched.is_empty() { u32::MAX } else { self.sched[self.pos % self.sched.len()].0 };
    }
    fn runnable(&self, i: usize) -> bool {
        self.alive[i]
            && match self.asleep[i] {
                Some((word, value)) => unsafe { &*(word as *const AtomicU32) }.load(Ordering::SeqCst) != value,
                None => true,
            }
    }
    /// can go on without its callback returning
    fn free(&self, i: usize) -> bool {
        self.runnable(i) && self.parked[i].map_or(false, |s| !is_callback(s))
    }
    fn describe(&self, cur: usize) -> Violation {
        let held: Vec<String> = (0..self.alive.len()).filter(|&i| i != cur && self.alive[i]).map(|i| format!("task {} stalled in {}", i, self.parked[i].unwrap_or("?"))).collect();
        Violation { class: "stalled".into(), msg: format!("task {} is held up; {}", cur, if held.is_empty() { "no other task is active".to_string() } else { held.join(", ") }) }
    }
    fn next_task(&mut self) -> Option<usize> {
        let n = (0..self.alive.len()).filter(|&i| self.runnable(i)).count();
        if n == 0 {
            return None;
        }
        let k = if self.sched.is_empty() { 0 } else { self.sched[self.pos % self.sched.len()].1 as usize };
        self.pos += 1;
        self.load_gap();
        let mut k = k % n;
        for i in 0..self.alive.len() {
            if self.runnable(i) {
                if k == 0 {
                    return Some(i);
                }
                k -= 1;
            }
        }
        None
    }
}

fn wait_for(s: &Shared, mut st: std::sync::MutexGuard<State>, me: usize) {
    while st.current != me {
        if st.abandon {
            park_for_good(st)
        }
        st = s.cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    st.parked[me] = None;
    st.asleep[me] = None;
}

fn park_for_good(st: std::sync::MutexGuard<State>) -> ! {
    drop(st);
    loop {
        std::thread::park();
    }
}

/// instrumented build: a task is about to sleep on a futex
pub fn on_sleep(word: usize, value: u32) -> bool {
    if !ctx::in_lib() {
        return false;
    }
    ctx::harness(|| {
        let me = ME.with(|m| m.get());
        let s = match SHARED.get() {
            Some(s) if me != usize::MAX => s,
            _ => return false,
        };
        let mut st = lock(s);
        if st.current != me {
            return false;
        }
        if unsafe { &*(word as *const AtomicU32) }.load(Ordering::SeqCst) != value {
            return true;
        }
        st.sleeps += 1;
        let n = st.alive.len();
        match (1..n).map(|k| (me + k) % n).find(|&i| st.free(i)) {
            Some(next) => {
                st.trace = mix(&[st.trace, me as u64, next as u64, site_no("sleep"), st.crossings]);
                st.switches += 1;
                st.asleep[me] = Some((word, value));
                st.parked[me] = Some("lock");
                st.current = next;
                s.cv.notify_all();
                wait_for(s, st, me);
                true
            }
            None => {
                let threads = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
                if threads > n + 1 {
                    // the library's own threads may wake it
                    return false;
                }
                st.verdict = Some(st.describe(me));
                st.abandon = true;
                s.cv.notify_all();
                park_for_good(st)
            }
        }
    })
}

/// instrumented build: a task is about to touch an atomic or a static
pub fn on_access(site: &'static str, address: usize) {
    let me = ME.with(|m| m.get());
    if let (Some(s), true) = (SHARED.get(), me != usize::MAX) {
        let mut st = lock(s);
        st.accesses += 1;
        st.spin = if st.spin.0 == address { (address, st.spin.1 + 1) } else { (address, 0) };
        if st.spin.1 > 2_000 && st.current == me {
            // maybe it spins until another task goes on: let the one that waited longest
            // run, and long enough to get out of what it holds
            st.spin.1 = 0;
            let now = st.accesses;
            st.ran[me] = now;
            let n = st.alive.len();
            if let Some(next) = (0..n).filter(|&i| i != me && st.free(i)).min_by_key(|&i| (st.ran[i], i)) {
                st.forced += 1;
                st.trace = mix(&[st.trace, me as u64, next as u64, site_no("spin"), st.crossings]);
                st.parked[me] = Some(site);
                st.gap = st.gap.max(3_000);
                st.current = next;
                s.cv.notify_all();
                wait_for(s, st, me);
                return;
            }
        }
    }
    on_yield(site);
}

fn on_yield(site: &'static str) {
    let me = ME.with(|m| m.get());
    let s = match SHARED.get() {
        Some(s) if me != usize::MAX => s,
        _ => return,
    };
    let mut st = lock(s);
    if st.current != me {
        // was held up by a lock and goes on now: wait for its turn
        st.parked[me] = Some(site);
        wait_for(s, st, me);
        return;
    }
    st.crossings += 1;
    if st.gap > 0 {
        st.gap -= 1;
        return;
    }
    let next = match st.next_task() {
        Some(n) => n,
        None => return,
    };
    if next == me {
        return;
    }
    st.switches += 1;
    st.trace = mix(&[st.trace, me as u64, next as u64, site_no(site), st.crossings]);
    st.parked[me] = Some(site);
    st.current = next;
    s.cv.notify_all();
    wait_for(s, st, me);
}

fn thread_stat(tid: i32) -> Option<(char, u64)> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &t[t.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}

/// outcome digests of the operation alone in a fresh process
fn alone(step: &Step) -> Option<u64> {
    let mut s = step.clone();
    s.nested = None;
    match &mut s.op {
        Op::Solved { rand: Rand::Static(x) | Rand::Dyn(x) } | Op::From { api: FromApi::Rng(Rand::Static(x) | Rand::Dyn(x)), .. } => x.reenter = None,
        Op::Print { sink, .. } => sink.reenter = None,
        _ => {}
    }
    let w = mix(&[step.ambient.seed, 0xa10e]);
    let r = crate::driver::forked(
        move || {
            ctx::set_world(w);
            let out = run_step(&s);
            let mut r = Report::default();
            r.digests.push(out.own_digest());
            r
        },
        20,
    );
    match r {
        crate::driver::Outcome::Done(r) => r.digests.first().copied(),
        _ => None,
    }
}

pub fn check(p: &Plan, rec: &mut Rec) -> Result<(), Violation> {
    let tasks: Vec<Vec<Step>> = p.tasks.iter().filter(|t| !t.is_empty()).cloned().collect();
    if tasks.is_empty() {
        return Ok(());
    }
    // expected outcomes, before this process has run anything
    let mut expected: Vec<Vec<(Option<u64>, Option<u64>)>> = vec![];
    for t in &tasks {
        let mut known: Vec<(&Step, Option<u64>)> = vec![];
        let mut e = vec![];
        for s in t {
            let own = match known.iter().find(|k| k.0 == s) {
                Some(k) => k.1,
                None => {
                    let d = alone(s);
                    if known.len() < 8 {
                        known.push((s, d));
                    }
                    d
                }
            };
            e.push((own, s.nested.as_ref().and_then(|n| alone(n))));
        }
        expected.push(e);
    }
    rec.add("operations run alone", expected.iter().map(|t| t.len() as u64).sum());
    hold(&tasks);
    let n = tasks.len();
    let mut st = State { current: 0, alive: vec![true; n], started: 0, parked: vec![Some("start"); n], tids: vec![0; n], gap: 0, pos: 0, sched: p.sched.clone(), switches: 0, crossings: 0, forced: 0, trace: 0, abandon: false, asleep: vec![None; n], sleeps: 0, accesses: 0, spin: (0, 0), ran: vec![0; n], verdict: None };
    st.load_gap();
    let shared = SHARED.get_or_init(|| Shared { m: Mutex::new(st), cv: Condvar::new() });
    let (tx, rx) = std::sync::mpsc::channel();
    for (i, t) in tasks.iter().cloned().enumerate() {
        let tx = tx.clone();
        let batch = if n == 1 { p.batch as usize } else { 0 };
        let own: Vec<Option<u64>> = expected[i].iter().map(|e| e.0).collect();
        let w = mix(&[p.seed, i as u64, 0x77]);
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                ME.with(|m| m.set(i));
                ctx::set_world(w);
                let s = SHARED.get().unwrap();
                let mut st = lock(s);
                st.tids[i] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                st.started += 1;
                s.cv.notify_all();
                while st.started < st.alive.len() {
                    st = s.cv.wait(st).unwrap();
                }
                wait_for(s, st, i);
                let mut early = None;
                for k in 0..if batch > 0 { batch + 1 } else { 0 } {
                    let j = if k == 0 { 0 } else { t.len() - 1 };
                    let o = run_step(&t[j]);
                    if own[j].map_or(false, |e| e != o.own_digest()) {
                        early = Some((k, j, o));
                        break;
                    }
                }
                ctx::set_yield(Some(on_yield));
                let outs: Vec<OpOut> = t.iter().map(run_step).collect();
                ctx::set_yield(None);
                let _ = tx.send((i, outs, early));
                let mut st = lock(s);
                st.alive[i] = false;
                if st.current == i {
                    if let Some(n) = st.next_task() {
                        st.current = n;
                    } else if let Some(k) = (0..st.alive.len()).find(|&k| st.alive[k]) {
                        st.verdict = Some(st.describe(k));
                        st.abandon = true;
                    }
                }
                s.cv.notify_all();
            })
            .unwrap();
    }
    // watch
    let mut last = u64::MAX;
    let mut idle = 0;
    let mut cpu = 0;
    let verdict = {
        let mut st = lock(shared);
        loop {
            if st.alive.iter().all(|a| !a) {
                break Ok(());
            }
            if let Some(v) = st.verdict.take() {
                break Err(v);
            }
            let (g, to) = shared.cv.wait_timeout(st, Duration::from_millis(20)).unwrap();
            st = g;
            if st.crossings != last {
                last = st.crossings;
                idle = 0;
                continue;
            }
            if !to.timed_out() {
                continue;
            }
            let cur = st.current;
            if st.parked[cur].is_some() {
                // has its turn, but has not woken up yet
                idle = 0;
                continue;
            }
            match thread_stat(st.tids[cur]) {
                Some(('S', c)) if c == cpu && idle > 0 => idle += 1,
                Some(('S', c)) => {
                    cpu = c;
                    idle = 1;
                }
                Some((_, c)) => {
                    cpu = c;
                    idle = 0;
                }
                None => idle += 1,
            }
            if idle < 8 {
                continue;
            }
            // the running task waits for something: only another task can provide it
            idle = 0;
            let free = (0..n).find(|&i| i != cur && st.free(i));
            match free {
                Some(i) if st.forced < 50 => {
                    st.forced += 1;
                    st.parked[cur] = None;
                    st.current = i;
                    shared.cv.notify_all();
                }
                _ => {
                    st.abandon = true;
                    break Err(st.describe(cur));
                }
            }
        }
    };
    {
        let st = lock(shared);
        rec.add("task switches", st.switches);
        rec.add("seam crossings", st.crossings);
        rec.add("switches past a lock", st.forced + st.sleeps);
        rec.add("accesses to shared memory", st.accesses);
        rec.log(st.trace);
        if st.switches > 0 {
            rec.nontrivial();
            rec.one("runs with interleaving");
        }
    }
    verdict?;
    drop(tx);
    let mut all: Vec<(usize, Vec<OpOut>, Option<(usize, usize, OpOut)>)> = rx.iter().take(n).collect();
    all.sort_by_key(|x| x.0);
    for (i, outs, early) in all {
        if let Some((k, j, o)) = early {
            return viol("differs", format!("task {} repetition {} ({:?}) gives {:?} (draws {} {}), not what it gives alone", i, k, brief(&tasks[i][j]), o.res, o.ambient, o.caller));
        }
        if p.batch > 0 && n == 1 {
            rec.nontrivial();
            rec.one("runs with the same questions tens of thousands of times");
            rec.add("repeated operations", p.batch as u64);
        }
        for (j, o) in outs.iter().enumerate() {
            let step = &tasks[i][j];
            rec.note(step, o);
            if step.nested.is_some() && !o.nested.is_empty() || tasks[i].len() > 20 {
                rec.nontrivial();
            }
            let (e, en) = expected[i][j];
            if let Some(e) = e {
                if e != o.own_digest() {
                    return viol("differs", format!("task {} operation {} ({:?}) gives {:?} (draws {} {}), not what it gives alone", i, j, brief(step), o.res, o.ambient, o.caller));
                }
            }
            if let Some(en) = en {
                for x in &o.nested {
                    if x.own_digest() != en {
                        return viol("nested-differs", format!("task {} operation {}: the operation called from its callback ({:?}) gives {:?}, not what it gives alone", i, j, brief(step.nested.as_ref().unwrap()), x.res));
                    }
                }
            }
        }
    }
    Ok(())
}

fn brief(s: &Step) -> String {
    let mut t = format!("{:?}", s.op);
    if t.len() > 300 {
        let mut k = 300;
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        t.truncate(k);
        t += "...";
    }
    t
}

pub fn healthy() -> StreamSpec {
    StreamSpec::healthy(1)
}
