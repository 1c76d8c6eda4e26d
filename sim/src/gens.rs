//! Workload generators: sudokus of every kind, strategy lists, sessions, text, faults.
use crate::ops::*;
use crate::refs::{self, Grid, Transform};
use crate::rngs::{Prng, StreamSpec};
use crate::wire::{Chan, Damage, WireOp, FMTS};

pub struct Corpus {
    pub easy: Vec<Grid>,
    pub medium: Vec<Grid>,
    pub hard: Vec<Grid>,
    pub invalid: Vec<Grid>,
    pub auto: Vec<Grid>,
}

pub fn corpus() -> &'static Corpus {
    static C: std::sync::OnceLock<Corpus> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let rd = |s: &str| s.lines().filter(|l| l.len() == 81).map(refs::parse).collect::<Vec<_>>();
        let mut auto = rd(include_str!("../corpus/automorphic.txt"));
        // cyclic constructions
        for shift in [1usize, 2] {
            for inner in [3usize, 6] {
                let mut g = [0u8; 81];
                for r in 0..9 {
                    for c in 0..9 {
                        g[r * 9 + c] = ((r % 3 * inner + r / 3 * shift + c) % 9) as u8 + 1;
                    }
                }
                if refs::is_complete_valid(&g) {
                    auto.push(g);
                }
            }
        }
        auto.sort();
        auto.dedup();
        assert!(auto.iter().all(refs::is_complete_valid) && auto.len() > 2);
        Corpus { easy: rd(include_str!("../corpus/easy.txt")), medium: rd(include_str!("../corpus/medium.txt")), hard: rd(include_str!("../corpus/hard.txt")), invalid: rd(include_str!("../corpus/invalid.txt")), auto }
    })
}

/// build every lazily built table; done once before forking
pub fn prepare() {
    refs::tables();
    refs::all_line_perms();
    corpus();
}

pub fn scramble(r: &mut Prng, g: &Grid) -> Grid {
    if r.chance(1, 4) {
        *g
    } else {
        Transform::random(r).apply(g)
    }
}

/// a grid that is filled so as to be invariant under a cell automorphism
fn symmetric_fill(r: &mut Prng) -> Option<Grid> {
    // choose a random transformation of cells and digits of small order and complete a
    // grid by placing whole orbits at once
    let mut t = Transform { transpose: false, rows: [0, 1, 2, 3, 4, 5, 6, 7, 8], cols: [0, 1, 2, 3, 4, 5, 6, 7, 8], digits: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9] };
    match r.us(6) {
        0 => {
            // half turn
            t.rows.reverse();
            t.cols.reverse();
            t.digits = [0, 9, 8, 7, 6, 5, 4, 3, 2, 1];
        }
        1 => {
            // diagonal mirror, three fixed digits
            t.transpose = true;
            t.digits = [0, 1, 2, 3, 5, 4, 7, 6, 9, 8];
        }
        2 => {
            // bands rotate
            t.rows = [3, 4, 5, 6, 7, 8, 0, 1, 2];
            t.digits = [0, 2, 3, 1, 5, 6, 4, 8, 9, 7];
        }
        3 => {
            // rows rotate within bands, columns within stacks
            t.rows = [1, 2, 0, 4, 5, 3, 7, 8, 6];
            t.cols = [1, 2, 0, 4, 5, 3, 7, 8, 6];
            t.digits = [0, 2, 3, 1, 5, 6, 4, 8, 9, 7];
        }
        4 => {
            // bands rotate and columns rotate within stacks
            t.rows = [3, 4, 5, 6, 7, 8, 0, 1, 2];
            t.cols = [1, 2, 0, 4, 5, 3, 7, 8, 6];
            t.digits = [0, 2, 3, 1, 5, 6, 4, 8, 9, 7];
        }
        _ => {
            // quarter turn
            t.transpose = true;
            t.rows = [8, 7, 6, 5, 4, 3, 2, 1, 0];
            t.digits = [0, 2, 3, 4, 1, 6, 7, 8, 5, 9];
        }
    }
    // image of cell/digit: new cell (i,j) takes old cell; so old -> new
    let mut img = [0usize; 81];
    for i in 0..9 {
        for j in 0..9 {
            let (a, b) = (t.rows[i], t.cols[j]);
            let old = if t.transpose { b * 9 + a } else { a * 9 + b };
            img[old] = i * 9 + j;
        }
    }
    fn put(g: &mut Grid, c: usize, d: u8, img: &[usize; 81], dig: &[u8; 10], trail: &mut Vec<usize>) -> bool {
        let (mut c, mut d) = (c, d);
        for _ in 0..73 {
            if g[c] == d {
                return true;
            }
            if g[c] != 0 || refs::tables().peers[c].iter().any(|&p| g[p] == d) {
                return false;
            }
            g[c] = d;
            trail.push(c);
            c = img[c];
            d = dig[d as usize];
        }
        false
    }
    fn go(g: &mut Grid, img: &[usize; 81], dig: &[u8; 10], r: &mut Prng, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let mut best = None;
        for c in 0..81 {
            if g[c] == 0 {
                let mut m = refs::ALLM;
                for &p in &refs::tables().peers[c] {
                    m &= !(1 << g[p]);
                }
                let n = m.count_ones();
                if best.map_or(true, |(_, _, k)| n < k) {
                    best = Some((c, m, n));
                }
            }
        }
        let (c, m, _) = match best {
            None => return true,
            Some(b) => b,
        };
        let mut ds: Vec<u8> = (1..=9).filter(|&d| m & (1 << d) != 0).collect();
        r.shuffle(&mut ds);
        for d in ds {
            let mut trail = vec![];
            if put(g, c, d, img, dig, &mut trail) && go(g, img, dig, r, budget) {
                return true;
            }
            for t in trail {
                g[t] = 0;
            }
        }
        false
    }
    let mut g = [0; 81];
    let mut budget = 3000;
    if go(&mut g, &img, &t.digits, r, &mut budget) && refs::is_complete_valid(&g) {
        Some(g)
    } else {
        None
    }
}

pub fn solved(r: &mut Prng) -> Grid {
    match r.us(10) {
        0 | 1 => {
            let g = *r.pick(&corpus().auto);
            scramble(r, &g)
        }
        2 | 3 => match symmetric_fill(r) {
            Some(g) => scramble(r, &g),
            None => refs::random_solved(r),
        },
        4 => {
            let g = *r.pick(&corpus().easy);
            refs::solutions(&g, 1).ok().and_then(|v| v.first().copied()).unwrap_or_else(|| refs::random_solved(r))
        }
        _ => refs::random_solved(r),
    }
}

/// uniquely solvable with some cells empty
pub fn puzzle(r: &mut Prng) -> Grid {
    match r.us(12) {
        0 => {
            let g = *r.pick(&corpus().easy);
            scramble(r, &g)
        }
        1 => {
            let g = *r.pick(&corpus().medium);
            scramble(r, &g)
        }
        2 => {
            let g = *r.pick(&corpus().hard);
            scramble(r, &g)
        }
        3 => {
            // corpus puzzle with more clues
            let g = match r.us(2) {
                0 => *r.pick(&corpus().hard),
                _ => *r.pick(&corpus().medium),
            };
            let mut g = scramble(r, &g);
            if let Ok(s) = refs::solutions(&g, 1) {
                if let Some(s) = s.first() {
                    for _ in 0..r.us(20) {
                        let c = r.us(81);
                        g[c] = s[c];
                    }
                }
            }
            g
        }
        4 | 5 => {
            // symmetric removal keeps the automorphisms
            let s = solved(r);
            refs::reduce(&s, r, 22)
        }
        6 => {
            let s = refs::random_solved(r);
            let n = r.range(26, 60);
            refs::reduce(&s, r, n)
        }
        7 => {
            // nearly full
            let mut s = solved(r);
            for _ in 0..r.range(1, 8) {
                let c = r.us(81);
                let old = s[c];
                s[c] = 0;
                if refs::count(&s, 2) != Ok(1) {
                    s[c] = old;
                }
            }
            s
        }
        8 => {
            // one digit missing altogether: still unique
            let mut s = solved(r);
            let d = 1 + r.us(9) as u8;
            for c in s.iter_mut() {
                if *c == d {
                    *c = 0;
                }
            }
            let n = r.range(24, 50);
            refs::reduce(&s, r, n)
        }
        _ => {
            let s = refs::random_solved(r);
            refs::reduce(&s, r, 17)
        }
    }
}

pub fn unique(r: &mut Prng) -> Grid {
    if r.chance(1, 3) {
        solved(r)
    } else {
        puzzle(r)
    }
}

/// more than one solution
pub fn ambiguous(r: &mut Prng) -> Grid {
    for _ in 0..20 {
        let g = match r.us(6) {
            0 | 1 => {
                // a minimal puzzle without a few clues
                let mut g = puzzle(r);
                for _ in 0..r.range(1, 4) {
                    let clues: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
                    if !clues.is_empty() {
                        g[*r.pick(&clues)] = 0;
                    }
                }
                g
            }
            2 => {
                // two digits interchangeable
                let mut g = solved(r);
                let (a, b) = (1 + r.us(9) as u8, 1 + r.us(9) as u8);
                for c in g.iter_mut() {
                    if *c == a || *c == b {
                        *c = 0;
                    }
                }
                if r.chance(1, 2) {
                    for _ in 0..r.us(30) {
                        g[r.us(81)] = 0;
                    }
                }
                g
            }
            3 => {
                // chutes or single rows only
                let s = solved(r);
                let mut g = [0; 81];
                let k = r.range(1, 7);
                for i in 0..k * 9 {
                    g[i] = s[i];
                }
                scramble(r, &g)
            }
            4 => {
                // very sparse
                let s = solved(r);
                let mut g = [0; 81];
                for _ in 0..r.us(16) {
                    let c = r.us(81);
                    g[c] = s[c];
                }
                g
            }
            _ => {
                // random deletion
                let s = solved(r);
                let mut g = s;
                for _ in 0..r.range(30, 70) {
                    g[r.us(81)] = 0;
                }
                g
            }
        };
        if refs::count(&g, 2) == Ok(2) {
            return g;
        }
    }
    [0; 81]
}

/// filled, but with some kinds of houses broken and others intact; sometimes with a few cells cleared
pub fn almost_solved(r: &mut Prng) -> Grid {
    let mut g = solved(r);
    let at = |k: usize, i: usize, kind: usize| match kind {
        0 => k * 9 + i,
        1 => i * 9 + k,
        _ => (k / 3 * 3 + i / 3) * 9 + k % 3 * 3 + i % 3,
    };
    match r.us(5) {
        0 => {
            // cells exchanged within one house, once or more often: that kind of house stays complete
            let kind = r.us(3);
            for _ in 0..r.range(1, 4) {
                let k = r.us(9);
                let (a, b) = (r.us(9), r.us(9));
                g.swap(at(k, a, kind), at(k, b, kind));
            }
        }
        1 => {
            // lines of different chutes exchanged: rows and columns stay complete
            let (a, b) = (r.us(9), r.us(9));
            let kind = r.us(2);
            for i in 0..9 {
                g.swap(at(a, i, kind), at(b, i, kind));
            }
        }
        2 => {
            // chutes of two grids joined: rows (or columns) and blocks stay complete
            let h = solved(r);
            let kind = r.us(2);
            for k in 0..3 * r.range(1, 3) {
                for i in 0..9 {
                    let c = at(k, i, kind);
                    g[c] = h[c];
                }
            }
        }
        3 => {
            // every digit nine times, houses broken anywhere
            for _ in 0..r.range(1, 40) {
                let (a, b) = (r.us(81), r.us(81));
                g.swap(a, b);
            }
        }
        _ => {
            // one digit wrong
            let c = r.us(81);
            g[c] = 1 + (g[c] + r.us(8) as u8) % 9;
        }
    }
    if r.chance(1, 3) {
        for _ in 0..*r.pick(&[1usize, 2, 5, 20]) {
            g[r.us(81)] = 0;
        }
    }
    g
}

/// no solution
pub fn contradictory(r: &mut Prng) -> Grid {
    for _ in 0..30 {
        let g = match r.us(9) {
            0 => {
                let g = *r.pick(&corpus().invalid);
                scramble(r, &g)
            }
            1 => {
                // duplicate in a house
                let mut g = if r.chance(1, 2) { puzzle(r) } else { solved(r) };
                let clues: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
                if clues.is_empty() {
                    continue;
                }
                let c = *r.pick(&clues);
                let p = *r.pick(&refs::tables().peers[c]);
                g[p] = g[c];
                g
            }
            2 | 3 => {
                // a wrong but locally fitting clue in a puzzle
                let mut g = puzzle(r);
                let empty: Vec<usize> = (0..81).filter(|&c| g[c] == 0).collect();
                if empty.is_empty() {
                    continue;
                }
                let sol = match refs::solutions(&g, 1) {
                    Ok(v) if !v.is_empty() => v[0],
                    _ => continue,
                };
                let c = *r.pick(&empty);
                let mut m = refs::ALLM & !(1 << sol[c]);
                for &p in &refs::tables().peers[c] {
                    m &= !(1 << g[p]);
                }
                let ds: Vec<u8> = (1..=9).filter(|d| m & (1 << d) != 0).collect();
                if ds.is_empty() {
                    continue;
                }
                g[c] = *r.pick(&ds);
                g
            }
            7 | 8 => almost_solved(r),
            4 => {
                // a clue changed; removing it may make the rest unique
                let mut g = puzzle(r);
                let clues: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
                if clues.is_empty() {
                    continue;
                }
                let c = *r.pick(&clues);
                g[c] = 1 + (g[c] + r.us(8) as u8) % 9;
                g
            }
            5 => {
                // cell without candidates
                let mut g = [0u8; 81];
                let mut ds: Vec<u8> = (1..=9).collect();
                r.shuffle(&mut ds);
                for i in 0..5 {
                    g[1 + i] = ds[i];
                }
                for i in 5..9 {
                    g[9 * (i - 1)] = ds[i];
                }
                scramble(r, &g)
            }
            _ => {
                let mut g = [0u8; 81];
                for _ in 0..r.range(2, 60) {
                    g[r.us(81)] = 1 + r.us(9) as u8;
                }
                g
            }
        };
        if refs::count_cap(&g, 1, 20_000) == Ok(0) {
            return g;
        }
    }
    let mut g = [0; 81];
    g[0] = 1;
    g[8] = 1;
    g
}

pub fn any_grid(r: &mut Prng) -> Grid {
    match r.us(10) {
        0 | 1 => solved(r),
        2 | 3 | 4 => puzzle(r),
        5 | 6 => ambiguous(r),
        7 | 8 => contradictory(r),
        _ if r.chance(1, 3) => almost_solved(r),
        _ => {
            let mut g = [0; 81];
            for c in g.iter_mut() {
                if r.chance(1, 3) {
                    *c = r.us(10) as u8;
                }
            }
            g
        }
    }
}

/// a close relative of a sudoku: results remembered under an imprecise key show with these
pub fn relative(r: &mut Prng, g: &Grid, keep_class: bool) -> Grid {
    let mut t = Transform { transpose: false, rows: [0, 1, 2, 3, 4, 5, 6, 7, 8], cols: [0, 1, 2, 3, 4, 5, 6, 7, 8], digits: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9] };
    match r.us(if keep_class { 8 } else { 14 }) {
        0 => return *g,
        1 => {
            // same beginning
            let k = *r.pick(&[(7usize, 8usize), (6, 8), (6, 7)]);
            t.rows.swap(k.0, k.1);
        }
        2 => {
            // same end
            let k = *r.pick(&[(0usize, 1usize), (0, 2), (1, 2)]);
            t.rows.swap(k.0, k.1);
        }
        3 => {
            // same rows as sets
            let b = 3 * r.us(3);
            let k = *r.pick(&[(0usize, 1usize), (0, 2), (1, 2)]);
            t.cols.swap(b + k.0, b + k.1);
        }
        4 => {
            // same pattern of filled cells
            let (a, b) = (1 + r.us(9), 1 + r.us(9));
            t.digits.swap(a, b);
        }
        5 => t.transpose = true,
        6 => {
            let k = *r.pick(&[(0usize, 1usize), (0, 2), (1, 2)]);
            for i in 0..3 {
                t.rows.swap(3 * k.0 + i, 3 * k.1 + i);
            }
        }
        7 => {
            t.rows.reverse();
            t.cols.reverse();
        }
        8 | 9 => {
            // one clue less
            let mut h = *g;
            let c: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
            if !c.is_empty() {
                h[*r.pick(&c)] = 0;
            }
            return h;
        }
        10 => {
            // one more cell of a solution
            let mut h = *g;
            if let Ok(v) = refs::solutions(g, 1) {
                let e: Vec<usize> = (0..81).filter(|&c| g[c] == 0).collect();
                if !v.is_empty() && !e.is_empty() {
                    let c = *r.pick(&e);
                    h[c] = v[0][c];
                }
            }
            return h;
        }
        11 => {
            // same number of clues
            let mut h = *g;
            let (a, b) = (r.us(81), r.us(81));
            h.swap(a, b);
            return h;
        }
        12 => {
            // only the last cells differ
            let mut h = *g;
            let c = 80 - r.us(9);
            h[c] = if h[c] == 0 { 1 + r.us(9) as u8 } else { 0 };
            return h;
        }
        _ => {
            let mut h = *g;
            let c = r.us(81);
            h[c] = r.us(10) as u8;
            return h;
        }
    }
    t.apply(g)
}

pub fn source(op: &mut Op) -> Option<&mut Gr> {
    match op {
        Op::From { src, .. } | Op::Shuffle { src, .. } | Op::Canon { src } | Op::Solve { src, .. } | Op::Print { src, .. } => Some(src),
        Op::Ask(q) => Some(&mut q.a),
        Op::Session(Session { start: Start::Sudoku(g), .. }) => Some(g),
        _ => None,
    }
}

/// lets some steps work on close relatives of what earlier steps worked on
pub fn relate(r: &mut Prng, tasks: &mut [Vec<crate::ops::Step>], keep_class: bool, pct: u64) {
    let mut last: Option<Grid> = None;
    for t in tasks.iter_mut() {
        for s in t.iter_mut() {
            if let Some(g) = source(&mut s.op) {
                if let Some(l) = last {
                    if r.chance(pct, 100) {
                        g.0 = relative(r, &l, keep_class);
                    }
                }
                last = Some(g.0);
            }
            if let (Some(l), Some(n)) = (last, s.nested.as_mut()) {
                if let Some(g) = source(&mut n.op) {
                    if r.chance(pct, 100) {
                        g.0 = relative(r, &l, keep_class);
                    }
                }
            }
        }
    }
}

pub fn caller_rand(r: &mut Prng, nasty: u64) -> Rand {
    let mut s = StreamSpec::gen(r, nasty);
    s.wrap = r.us(crate::ops::WRAPS as usize) as u8;
    if r.chance(1, 2) {
        Rand::Static(s)
    } else {
        Rand::Dyn(s)
    }
}
pub fn any_rand(r: &mut Prng, nasty: u64) -> Rand {
    if r.chance(1, 5) {
        Rand::Ambient
    } else {
        caller_rand(r, nasty)
    }
}

// ---------------------------------------------------------------- limits

pub fn solve_api(r: &mut Prng, n: usize) -> SolveApi {
    let lim = |r: &mut Prng| -> usize {
        match r.us(12) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => n.saturating_sub(1),
            4 => n,
            5 => n + 1,
            6 => n + 1 + r.us(20),
            7 => r.us(n + 1),
            8 => n * 2,
            9 => r.us(64),
            10 => 1 + r.us(600),
            _ => 3 + r.us(5),
        }
    };
    match r.us(9) {
        0 => SolveApi::Some,
        1 => SolveApi::Unique,
        2 => SolveApi::IsUnique,
        3 | 4 => SolveApi::Count(lim(r)),
        5 | 6 => SolveApi::UpTo(lim(r)),
        _ => {
            let limit = lim(r);
            let cap = match r.us(6) {
                0 => limit,
                1 => limit.saturating_sub(1),
                2 => limit + 1,
                3 => 0,
                4 => r.us(limit + 2),
                _ => r.us(20),
            };
            SolveApi::Buffer { cap: cap.min(4000), limit }
        }
    }
}

// ---------------------------------------------------------------- strategies

/// which strategies each strategy degenerates to; bits are strategy numbers
pub const NEEDS: [u32; 16] = [0, 0, 0, 0b1, 0b1001, 0b11001, 0b10, 0b1000010, 0b11000010, 0b10, 0b1000000010, 0b11000000010, 0b1, 0b1000000001001, 0, 0];

pub fn is_closed(set: u32) -> bool {
    (0..16).all(|i| set & (1 << i) == 0 || NEEDS[i] & !set == 0)
}
pub fn set_of(v: &[u8]) -> u32 {
    v.iter().fold(0, |m, &s| m | 1 << s)
}
pub fn close(mut set: u32) -> u32 {
    for _ in 0..6 {
        for i in 0..16 {
            if set & (1 << i) != 0 {
                set |= NEEDS[i];
            }
        }
    }
    set
}
pub fn strategy_list(r: &mut Prng) -> Vec<u8> {
    let mut v: Vec<u8> = match r.us(12) {
        0 => (0..14).collect(),
        1 => vec![0],
        2 => vec![r.us(16) as u8],
        3 => vec![0, 1],
        4 => (0..16).collect(),
        5 => vec![1, 0],
        6 => {
            // one advanced strategy with singles
            vec![0, 1, 2 + r.us(14) as u8]
        }
        7 => vec![],
        _ => {
            let p = 1 + r.us(9) as u64;
            (0..16u8).filter(|_| r.chance(p, 10)).collect()
        }
    };
    if r.chance(3, 5) {
        r.shuffle(&mut v);
    }
    if r.chance(1, 12) && !v.is_empty() {
        let x = *r.pick(&v);
        let at = r.us(v.len() + 1);
        v.insert(at, x);
    }
    v
}

/// lists for the order independence check
pub fn closed_list(r: &mut Prng) -> Vec<u8> {
    loop {
        let p = 1 + r.us(6) as u64;
        let seed = (0..14).filter(|_| r.chance(p, 10)).fold(0u32, |m, i| m | 1 << i);
        let set = close(seed);
        let mut v: Vec<u8> = (0..14u8).filter(|&i| set & (1 << i) != 0).collect();
        if v.len() >= 2 {
            r.shuffle(&mut v);
            return v;
        }
    }
}

// ---------------------------------------------------------------- sessions

pub struct SessionOpts {
    /// percentage of nearly solved starts with doctored candidates
    pub near: u64,
    /// percentage of starts with planted patterns
    pub planted: u64,
    /// wrong or conflicting inserts may happen
    pub dirty: u64,
    pub restarts: u64,
    pub queries: u64,
    pub solves: u64,
    pub clones: u64,
    pub max_steps: usize,
    pub final_solve: bool,
}

/// candidate state derived from a solution: filled cells and candidates that keep it
pub fn candidate_state(r: &mut Prng, g: &Grid, keep: &[Grid], percent: u64) -> Vec<u16> {
    let t = refs::tables();
    (0..81)
        .map(|i| {
            if g[i] != 0 {
                return 1 | 1 << g[i];
            }
            let mut m = refs::ALLM;
            if r.chance(9, 10) {
                for &p in &t.peers[i] {
                    if g[p] != 0 {
                        m &= !(1 << g[p]);
                    }
                }
            }
            for d in 1..=9 {
                if m & (1 << d) != 0 && !keep.iter().any(|s| s[i] == d) && r.chance(percent, 100) {
                    m &= !(1 << d);
                }
            }
            m
        })
        .collect()
}

/// a few cells short of `sol`, often with too few candidates in some of them
pub fn nearly_solved(r: &mut Prng, sol: &Grid) -> Vec<u16> {
    let t = refs::tables();
    let mut g = *sol;
    let most = *r.pick(&[2usize, 4, 8, 20]);
    let k = 1 + r.us(most);
    // cells close to one another, or anywhere
    let pool: Vec<usize> = if r.chance(1, 2) { t.houses[r.us(27)].iter().chain(&t.houses[r.us(27)]).copied().collect() } else { (0..81).collect() };
    for _ in 0..k {
        g[*r.pick(&pool)] = 0;
    }
    let pct = *r.pick(&[0u64, 30, 60, 100]);
    let mut st = candidate_state(r, &g, &[*sol], pct);
    for c in 0..81 {
        if g[c] != 0 {
            continue;
        }
        match r.us(8) {
            0 => st[c] = 0,
            1 => st[c] &= !(1 << sol[c]),
            2 => {
                // a pair or a single with the right or a wrong digit
                let d = 1 + r.us(9) as u16;
                st[c] = if r.chance(1, 2) { 1 << sol[c] } else { 0 } | 1 << d;
            }
            _ => {}
        }
    }
    st
}

/// a state in which little but a few planted patterns can be found, anywhere in the grid
pub fn planted(r: &mut Prng, g0: &Grid, sol: &Grid, list: &mut u32) -> Vec<u16> {
    let t = refs::tables();
    let mut st: Vec<u16> = (0..81).map(|i| if g0[i] != 0 { 1 | 1 << g0[i] } else { refs::ALLM }).collect();
    let mut touched: Vec<usize> = vec![];
    let house = |r: &mut Prng| -> Vec<usize> {
        let h = r.us(27);
        (0..9)
            .map(|i| match h / 9 {
                0 => h % 9 * 9 + i,
                1 => i * 9 + h % 9,
                _ => (h % 9 / 3 * 3 + i / 3) * 9 + h % 3 * 3 + i % 3,
            })
            .collect()
    };
    let bit = |d: u8| 1u16 << d;
    for _ in 0..1 + r.us(3) {
        let mut only: Vec<(usize, u16)> = vec![];
        let kind = r.us(15);
        *list |= 1 << [0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][kind];
        match kind {
            0 => {
                let c = r.us(81);
                only.push((c, bit(sol[c])));
            }
            1 => {
                let h = house(r);
                let k = *r.pick(&h);
                only.extend(h.iter().filter(|&&c| c != k).map(|&c| (c, refs::ALLM & !bit(sol[k]))));
            }
            2 | 3 => {
                // one digit of a block or line is confined to where they meet
                let c = r.us(81);
                let same_block = |x: usize| x / 27 == c / 27 && x % 9 / 3 == c % 9 / 3;
                let rows = r.chance(1, 2);
                let same_line = |x: usize| if rows { x / 9 == c / 9 } else { x % 9 == c % 9 };
                let pointing = r.chance(1, 2);
                only.extend((0..81).filter(|&x| if pointing { same_block(x) && !same_line(x) } else { same_line(x) && !same_block(x) }).map(|x| (x, refs::ALLM & !bit(sol[c]))));
            }
            k @ 4..=9 => {
                let mut h = house(r);
                r.shuffle(&mut h);
                let n = 2 + (k - 4) % 3;
                let digits = h[..n].iter().fold(0, |m, &c| m | bit(sol[c]));
                if k < 7 {
                    for &c in &h[..n] {
                        let mut m = digits;
                        for d in 1..=9 {
                            if d != sol[c] && m & bit(d) != 0 && m.count_ones() > 2 && r.chance(1, 4) {
                                m &= !bit(d);
                            }
                        }
                        only.push((c, m));
                    }
                } else {
                    only.extend(h[n..].iter().map(|&c| (c, refs::ALLM & !digits)));
                }
            }
            k @ 10..=12 => {
                let n = k - 8;
                let d = 1 + r.us(9) as u8;
                let rows = r.chance(1, 2);
                let mut lines: Vec<usize> = (0..9).collect();
                r.shuffle(&mut lines);
                let at = |l: usize, i: usize| if rows { l * 9 + i } else { i * 9 + l };
                let cover = lines[..n].iter().fold(0u16, |m, &l| m | 1 << (0..9).find(|&i| sol[at(l, i)] == d).unwrap_or(0));
                for &l in &lines[..n] {
                    for i in 0..9 {
                        if cover & 1 << i == 0 || sol[at(l, i)] != d && r.chance(1, 5) {
                            only.push((at(l, i), refs::ALLM & !bit(d)));
                        }
                    }
                }
            }
            k => {
                let c = r.us(81);
                let (p, q) = (*r.pick(&t.peers[c]), *r.pick(&t.peers[c]));
                for _ in 0..400 {
                    let mut ds: Vec<u8> = (1..=9).collect();
                    r.shuffle(&mut ds);
                    let (x, y, z) = (bit(ds[0]), bit(ds[1]), bit(ds[2]));
                    let hinge = if k == 13 { x | y } else { x | y | z };
                    if p != q && hinge & bit(sol[c]) != 0 && (x | z) & bit(sol[p]) != 0 && (y | z) & bit(sol[q]) != 0 {
                        only.extend([(c, hinge), (p, x | z), (q, y | z)]);
                        break;
                    }
                }
            }
        }
        for (c, m) in only {
            if st[c] & 1 == 0 && st[c] & m != 0 {
                st[c] &= m;
                touched.push(c);
            }
        }
    }
    // almost the pattern
    if r.chance(2, 5) && !touched.is_empty() {
        for _ in 0..1 + r.us(2) {
            let c = *r.pick(&touched);
            let d = 1 + r.us(9) as u8;
            if st[c] & 1 == 0 && (r.chance(3, 4) || d != sol[c] && st[c].count_ones() > 2) {
                if r.chance(3, 4) {
                    st[c] |= bit(d);
                } else if d != sol[c] && st[c].count_ones() > 2 {
                    st[c] &= !bit(d);
                }
            }
        }
    }
    if r.chance(1, 4) {
        // and some noise
        let pct = 1 + r.us(20) as u64;
        for c in 0..81 {
            for d in 1..=9 {
                if st[c] & 1 == 0 && d != sol[c] && st[c] & bit(d) != 0 && st[c].count_ones() > 2 && r.chance(pct, 100) {
                    st[c] &= !bit(d);
                }
            }
        }
    }
    st
}

pub fn session(r: &mut Prng, o: &SessionOpts) -> Session {
    let near = r.chance(o.near, 100);
    let plant = !near && r.chance(o.planted, 100);
    let kind = if plant || near { 13 } else { r.us(20) };
    let g = match kind {
        0..=12 => puzzle(r),
        13 => solved(r),
        14..=16 => ambiguous(r),
        17 | 18 => {
            if o.dirty > 0 || r.chance(1, 3) {
                contradictory(r)
            } else {
                puzzle(r)
            }
        }
        _ => [0; 81],
    };
    let sols = refs::solutions(&g, 4).unwrap_or_default();
    let sol = if sols.is_empty() { None } else { Some(*r.pick(&sols)) };
    let mut g0 = g;
    if plant {
        let keep = *r.pick(&[0u64, 0, 0, 5, 10, 20, 30]);
        for c in 0..81 {
            if !r.chance(keep, 100) {
                g0[c] = 0;
            }
        }
    }
    // a sparser start: part of the clues are inserted later
    let mut later: Vec<(u8, u8)> = vec![];
    if r.chance(1, 4) {
        let k = 1 + r.us(10);
        for _ in 0..k {
            let c = r.us(81);
            if g0[c] != 0 {
                later.push((c as u8, g0[c]));
                g0[c] = 0;
            }
        }
    }
    let mut list = 0;
    let start = match r.us(10) {
        _ if near => Start::State(nearly_solved(r, &g)),
        _ if plant => Start::State(planted(r, &g0, &g, &mut list)),
        0..=3 => Start::Sudoku(Gr(g0)),
        4 => Start::SudokuAndClues(Gr(g0), Gr(if r.chance(1, 2) { g0 } else { g })),
        _ => {
            let pct = *r.pick(&[0u64, 10, 30, 50, 60, 70, 80, 90]);
            let keep: Vec<Grid> = if r.chance(1, 2) { sol.iter().copied().collect() } else { sols.clone() };
            let mut st = candidate_state(r, &g0, &keep, if sol.is_some() { pct } else { pct / 3 });
            if r.chance(o.dirty, 200) {
                // an impossible candidate state
                for _ in 0..1 + r.us(3) {
                    let c = r.us(81);
                    if st[c] & 1 == 0 {
                        st[c] &= !(1 << (1 + r.us(9)));
                        if r.chance(1, 3) {
                            st[c] = 0;
                        }
                    }
                }
            }
            Start::State(st)
        }
    };
    let mut m = crate::model::Model::new(&start);
    let mut steps = vec![];
    let n = if plant && r.chance(2, 3) { r.us(3) } else { r.us(o.max_steps + 1) };
    later.reverse();
    fn gen_step(r: &mut Prng, o: &SessionOpts, m: &mut crate::model::Model, sol: &Option<Grid>, later: &mut Vec<(u8, u8)>, depth: usize) -> SStep {
        let roll = r.us(100) as u64;
        if roll < o.queries {
            return match r.us(7) {
                0 | 1 => SStep::CellState(r.us(81) as u8),
                2 | 3 => SStep::GridState,
                4 => SStep::ToSudoku,
                5 => SStep::IsSolved,
                _ => {
                    if r.chance(1, 3) {
                        SStep::ShowFailing(r.us(300) as u32)
                    } else {
                        SStep::Show
                    }
                }
            };
        }
        if roll < o.queries + o.restarts {
            m.restart();
            return SStep::Restart;
        }
        if roll < o.queries + o.restarts + o.solves {
            return SStep::Solve(strategy_list(r));
        }
        if roll < o.queries + o.restarts + o.solves + o.clones && depth < 2 {
            let mut c = m.clone();
            let k = 1 + r.us(4);
            let mut l = later.clone();
            return SStep::OnClone((0..k).map(|_| gen_step(r, o, &mut c, sol, &mut l, depth + 1)).collect());
        }
        if r.chance(o.dirty, 100) {
            let cell = r.us(81) as u8;
            let digit = 1 + r.us(9) as u8;
            m.insert(cell as usize, digit);
            return SStep::Insert { cell, digit };
        }
        if let Some((cell, digit)) = if r.chance(1, 2) { later.pop() } else { None } {
            m.insert(cell as usize, digit);
            return SStep::Insert { cell, digit };
        }
        let empty: Vec<usize> = (0..81).filter(|&c| m.grid[c] == 0).collect();
        if empty.is_empty() || r.chance(1, 15) {
            // re-insert or try to overwrite
            let cell = r.us(81) as u8;
            let have = m.grid[cell as usize];
            let digit = if r.chance(1, 2) && have != 0 { have } else { 1 + r.us(9) as u8 };
            if have != 0 {
                return SStep::Insert { cell, digit };
            }
        }
        // prefer cells with few candidates
        let mut cell = if empty.is_empty() { r.us(81) } else { *r.pick(&empty) };
        for _ in 0..3 {
            let c = if empty.is_empty() { cell } else { *r.pick(&empty) };
            if m.cands(c).count_ones() < m.cands(cell).count_ones() {
                cell = c;
            }
        }
        let cands = m.cands(cell);
        let digit = match sol {
            Some(s) if r.chance(9, 10) && cands & (1 << s[cell]) != 0 => s[cell],
            _ => {
                let ds: Vec<u8> = (1..=9).filter(|d| cands & (1 << d) != 0).collect();
                if ds.is_empty() {
                    return SStep::GridState;
                }
                *r.pick(&ds)
            }
        };
        m.insert(cell, digit);
        SStep::Insert { cell: cell as u8, digit }
    }
    for _ in 0..n {
        let s = gen_step(r, o, &mut m, &sol, &mut later, 0);
        steps.push(s);
    }
    let solve = if !o.final_solve {
        None
    } else if plant && r.chance(2, 3) {
        let set = if r.chance(4, 5) { close(list) } else { list };
        let mut v: Vec<u8> = (0..14u8).filter(|&i| set & (1 << i) != 0).collect();
        r.shuffle(&mut v);
        Some(v)
    } else {
        Some(strategy_list(r))
    };
    Session { start, steps, solve }
}

// ---------------------------------------------------------------- text

pub fn damage_list(r: &mut Prng, n: usize, max: usize) -> Vec<Damage> {
    let k = match r.us(5) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        _ => r.us(max + 1),
    };
    (0..k).map(|_| one_damage(r, n)).collect()
}

pub fn one_damage(r: &mut Prng, n: usize) -> Damage {
    let n = n.max(1);
    // positions near the structural borders are as likely as all others together
    let at = |r: &mut Prng| -> u32 {
        (match r.us(4) {
            0 => (*r.pick(&[0usize, 1, 79, 80, 81, 82, 83, 84, 8, 9, 10, 11, 89, 90])).min(n),
            1 => n.saturating_sub(r.us(4)),
            _ => r.us(n + 1),
        }) as u32
    };
    match r.us(8) {
        0 => Damage::Flip { at: at(r), xor: 1 << r.us(8) },
        1 | 2 => Damage::Set { at: at(r), to: *r.pick(b"0123456789._ \t\r\n;,|-+xA/:\"\\\x00\x7f\x80\xc3\xff^`\n\n  ") },
        3 => Damage::Drop { at: at(r), len: 1 + if r.chance(1, 2) { 0 } else { r.us(12) as u32 } },
        4 => Damage::Dup { at: at(r), len: 1 + r.us(12) as u32 },
        5 => {
            let txt: &[&[u8]] = &[b" ", b"\n", b"\r\n", b"\t", b";", b",", b"0", b".", b"\xc3\xa9", b"\xe2\x80\xa8", b"\xc2\xa0", b"|", b"---+---+---", b"-----------", b"comment", b" comment", b"\n\n", b"\xf0\x9f\x98\x80", b"\xef\xbb\xbf", b"5", b"_", b"\x0c", b"\r",
                // blanks, digits and separators other alphabets know
                "\u{2003}".as_bytes(), "\u{3000}".as_bytes(), "\u{85}".as_bytes(), "\u{1680}".as_bytes(), "\u{2028}".as_bytes(), "\u{200b}".as_bytes(), "\x0b".as_bytes(),
                "\u{ff15}".as_bytes(), "\u{b2}".as_bytes(), "\u{665}".as_bytes(), "\u{ff3f}".as_bytes(), "\u{ff0e}".as_bytes(), "\u{2502}".as_bytes(), "\u{2500}".as_bytes(), "\u{ff1b}".as_bytes(), "\u{1d7d7}".as_bytes()];
            Damage::Insert { at: at(r), bytes: r.pick(txt).to_vec() }
        }
        6 => Damage::Truncate { at: at(r) },
        _ => Damage::Swap { a: at(r), b: at(r) },
    }
}

/// a well-formed text in one of the layouts of `reader`
pub fn well_formed(r: &mut Prng, reader: Reader) -> Vec<u8> {
    let g = any_grid(r);
    let empties: &[char] = *r.pick(&[&['.'][..], &['_'], &['0'], &['.', '_', '0']]);
    let chars: Vec<char> = g.iter().map(|&d| if d == 0 { *r.pick(empties) } else { (b'0' + d) as char }).collect();
    let comment = |r: &mut Prng| -> String { (*r.pick(&["comment", "x y", "", "12345", "é", "—dash", "\u{1F600}", ".", "|", ";;", "1.2"])).to_string() };
    match reader {
        Reader::Slice | Reader::TrySlice | Reader::Array | Reader::TryArray => g.to_vec(),
        Reader::Line => {
            let mut s: String = chars.iter().collect();
            if r.chance(2, 3) {
                s.push(*r.pick(&[' ', '\t', '\n', '\r', ';', ',', ' ', '\u{2003}', '\u{a0}', '\u{85}', '\u{200b}', '\u{ff0c}']));
                s += &comment(r);
            }
            s.into_bytes()
        }
        Reader::Block | Reader::Permissive => {
            let eol = *r.pick(&["\n", "\n", "\n", "\r\n"]);
            let fields = r.chance(1, 2);
            let rule = *r.pick(&["---+---+---", "-----------"]);
            let mut s = String::new();
            for row in 0..9 {
                if fields && (row == 3 || row == 6) {
                    s += rule;
                    if r.chance(1, 6) {
                        s += " ";
                        s += &comment(r);
                    }
                    s += eol;
                }
                for col in 0..9 {
                    if fields && (col == 3 || col == 6) {
                        s.push('|');
                    }
                    if reader == Reader::Permissive && r.chance(1, 20) {
                        s += *r.pick(&[" ", "|", "-", "a", "é", "  "]);
                    }
                    s.push(chars[row * 9 + col]);
                }
                if r.chance(1, 6) {
                    s.push(*r.pick(&[' ', '\t']));
                    s += &comment(r);
                }
                if row < 8 || r.chance(1, 2) {
                    s += eol;
                }
            }
            if r.chance(1, 6) {
                s += *r.pick(&["\n", "  \n", "\r\n", "\n\n", "trailing", "123456789\n", "\t"]);
            }
            s.into_bytes()
        }
    }
}

pub const READERS: [Reader; 7] = [Reader::Line, Reader::Block, Reader::Permissive, Reader::Slice, Reader::Array, Reader::TrySlice, Reader::TryArray];

pub fn text(r: &mut Prng) -> (Reader, Vec<u8>) {
    let reader = *r.pick(&[Reader::Line, Reader::Line, Reader::Line, Reader::Block, Reader::Block, Reader::Block, Reader::Permissive, Reader::Permissive, Reader::Slice, Reader::Array, Reader::TrySlice, Reader::TryArray]);
    let src = if r.chance(1, 12) { *r.pick(&[Reader::Line, Reader::Block]) } else { reader };
    let mut b = well_formed(r, src);
    match r.us(12) {
        0 => {
            let x = well_formed(r, src);
            b.extend(x);
        }
        1 => {
            // splice of two texts
            let x = well_formed(r, reader);
            let i = r.us(b.len() + 1);
            let j = r.us(x.len() + 1);
            b.truncate(i);
            b.extend_from_slice(&x[j..]);
        }
        2 => {
            let n = r.us(200);
            b = (0..n).map(|_| *r.pick(b"0123456789._ \t\r\n;,|-+xA")).collect();
        }
        3 => {
            let n = r.us(200);
            b = (0..n).map(|_| r.u64() as u8).collect();
        }
        _ => {}
    }
    let n = b.len();
    for d in damage_list(r, n, 6) {
        crate::wire::damage(&mut b, &d);
    }
    b.truncate(4000);
    if r.chance(1, 40) {
        // very many of something: lines, characters, rows
        let part: &[u8] = *r.pick(&[&b"\n"[..], b"\r\n", b" \n", b"x\n", b"....\n", b"12345678\n", b"--\n", b" ", b"x", b"|", b"\xc3\xa9", b"1", b".", b"1........\n", b"........1........\n"]);
        let times = *r.pick(&[254usize, 255, 256, 257, 300, 520, 1000, 3000]);
        let times = if part.len() == 1 && r.chance(1, 4) { 65530 + r.us(20) } else { times };
        let at = match r.us(4) {
            0 => 0,
            1 => b.len(),
            2 => match b.iter().position(|&c| c == b'\n') {
                Some(k) => k + 1,
                None => b.len(),
            },
            _ => r.us(b.len() + 1),
        };
        let tail = b.split_off(at);
        for _ in 0..times {
            b.extend_from_slice(part);
        }
        b.extend(tail);
    }
    (reader, b)
}

// ---------------------------------------------------------------- transport

pub fn chan(r: &mut Prng, fail_pct: u64, n: usize) -> Chan {
    let mut c = Chan::default();
    if r.chance(2, 3) {
        let k = 1 + r.us(4);
        c.chunks = (0..k).map(|_| *r.pick(&[1u32, 1, 2, 3, 7, 16, 40, 80, 81, 82])).collect();
    }
    if r.chance(1, 3) {
        c.eintr = Some(1 + r.us(5) as u32);
    }
    if r.chance(fail_pct, 100) {
        c.fail_at = Some(r.us(n + 2) as u32);
        c.zero = r.chance(1, 2);
    }
    c
}

/// damage that keeps the bytes close to a valid message
fn wire_damage(r: &mut Prng, len: usize) -> Damage {
    let end = |r: &mut Prng| len.saturating_sub(r.us(3)) as u32;
    match r.us(5) {
        0 => Damage::Insert { at: if r.chance(1, 2) { end(r) } else { r.us(len + 1) as u32 }, bytes: vec![r.us(12) as u8; 1 + if r.chance(1, 2) { 0 } else { r.us(90) }] },
        1 => Damage::Dup { at: end(r).saturating_sub(1), len: 1 },
        2 => Damage::Dup { at: len.saturating_sub(81) as u32, len: 81 },
        3 => Damage::Set { at: 0, to: *r.pick(&[0, 1, 79, 80, 82, 83, 90, 162, 255]) },
        _ => Damage::Set { at: r.us(len + 1) as u32, to: r.us(14) as u8 },
    }
}

pub fn wire_op(r: &mut Prng) -> WireOp {
    let n = 1 + r.us(4);
    let src: Vec<Gr> = (0..n).map(|_| Gr(any_grid(r))).collect();
    let fmt = *r.pick(&FMTS);
    let mut op = WireOp { fmt, src, write: Chan::default(), damage: vec![], read: Chan::default() };
    let len = crate::wire::expected_bytes(&op).len();
    op.write = chan(r, 15, len);
    op.read = chan(r, 15, len);
    if r.chance(2, 3) {
        op.damage = (0..1 + r.us(4)).map(|_| if r.chance(1, 4) { wire_damage(r, len) } else { one_damage(r, len) }).collect();
    }
    op
}
