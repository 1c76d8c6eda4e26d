//! Reference candidate model of a solver session, replay of deduction logs and textbook
//! strategies. Independent of the library.
use crate::ops::{Ded, SolveOut, Start};
use crate::refs::{blk, col, row, solutions_allowed, tables, Grid, TooHard, ALLM};

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub grid: Grid,
    /// digits the start state leaves possible (all for cells it fills)
    pub allowed: [u16; 81],
}

impl Model {
    pub fn new(start: &Start) -> Model {
        match start {
            Start::Sudoku(g) | Start::SudokuAndClues(g, _) => Model { grid: g.0, allowed: [ALLM; 81] },
            Start::State(v) => {
                let mut m = Model { grid: [0; 81], allowed: [ALLM; 81] };
                for i in 0..81 {
                    if v[i] & 1 != 0 {
                        m.grid[i] = (v[i] & !1).trailing_zeros() as u8;
                    } else {
                        m.allowed[i] = v[i];
                    }
                }
                m
            }
        }
    }
    /// filled cells with bit 0, candidates of the others
    pub fn state(&self) -> Vec<u16> {
        (0..81).map(|i| if self.grid[i] != 0 { 1 | 1 << self.grid[i] } else { self.cands(i) }).collect()
    }
    pub fn cands(&self, i: usize) -> u16 {
        let mut m = self.allowed[i];
        for &p in &tables().peers[i] {
            if self.grid[p] != 0 {
                m &= !(1 << self.grid[p]);
            }
        }
        m
    }
    pub fn insert(&mut self, c: usize, d: u8) -> bool {
        if self.grid[c] == 0 {
            self.grid[c] = d;
            true
        } else {
            self.grid[c] == d
        }
    }
    /// two equal digits in a house, or a digit where the start state excludes it
    pub fn conflicting(&self) -> bool {
        (0..81).any(|i| self.grid[i] != 0 && (self.allowed[i] & (1 << self.grid[i]) == 0 || tables().peers[i].iter().any(|&p| self.grid[p] == self.grid[i])))
    }
    /// up to `n` solutions of the state
    pub fn solutions(&self, n: usize) -> Result<Vec<Grid>, TooHard> {
        solutions_allowed(&self.grid, &self.allowed, n)
    }
    pub fn restart(&mut self) {
        let s = self.state();
        *self = Model::new(&Start::State(s));
    }
}

/// state during replay
#[derive(Clone)]
pub struct St {
    pub grid: Grid,
    pub c: [u16; 81],
}
impl St {
    pub fn new(m: &Model) -> St {
        St { grid: m.grid, c: std::array::from_fn(|i| if m.grid[i] != 0 { 0 } else { m.cands(i) }) }
    }
    pub fn place(&mut self, i: usize, d: u8) {
        self.grid[i] = d;
        self.c[i] = 0;
        for &p in &tables().peers[i] {
            self.c[p] &= !(1 << d);
        }
    }
    /// place naked singles until none is left
    pub fn naked_closure(&mut self) {
        while let Some(i) = (0..81).find(|&i| self.c[i].count_ones() == 1) {
            let d = self.c[i].trailing_zeros() as u8;
            self.place(i, d);
        }
    }
    pub fn state(&self) -> Vec<u16> {
        (0..81).map(|i| if self.grid[i] != 0 { 1 | 1 << self.grid[i] } else { self.c[i] }).collect()
    }
    fn places(&self, house: usize, d: u8) -> u16 {
        let mut m = 0;
        for (k, &c) in tables().houses[house].iter().enumerate() {
            if self.c[c] & (1 << d) != 0 {
                m |= 1 << k;
            }
        }
        m
    }
    fn placed_in(&self, house: usize, d: u8) -> bool {
        tables().houses[house].iter().any(|&c| self.grid[c] == d)
    }
}

pub fn sees(a: usize, b: usize) -> bool {
    a != b && (row(a) == row(b) || col(a) == col(b) || blk(a) == blk(b))
}
fn house_of(i: usize, kind: usize) -> usize {
    match kind {
        0 => row(i),
        1 => 9 + col(i),
        _ => 18 + blk(i),
    }
}

/// cells of a miniline, its line and its block
pub fn mini(m: u8) -> ([usize; 3], usize, usize) {
    let m = m as usize;
    let (vertical, k) = (m >= 27, m % 27);
    let (chute, l, b) = (k / 9, k % 9 / 3, k % 3);
    let line = chute * 3 + l;
    let cells: [usize; 3] = std::array::from_fn(|i| if vertical { (b * 3 + i) * 9 + line } else { line * 9 + b * 3 + i });
    let block = blk(cells[0]);
    (cells, if vertical { 9 + line } else { line }, 18 + block)
}

pub const N_SAMPLE_SOLUTIONS: usize = 40;

/// strategy numbers as in `ops::STRATS`
fn expected_strategy(d: &Ded, named: u8) -> Result<(), String> {
    let bad = |w: &str| Err(format!("step named {} but is {}", crate::ops::STRAT_NAMES.get(named as usize).unwrap_or(&"?"), w));
    match d {
        Ded::Naked { .. } if named != 0 => bad("a naked single"),
        Ded::Hidden { .. } if named != 1 => bad("a hidden single"),
        Ded::Locked { .. } if named != 2 => bad("locked candidates"),
        Ded::Subset { pos, digits, .. } => {
            let k = match named {
                3 | 6 => 2,
                4 | 7 => 3,
                5 | 8 => 4,
                _ => return bad("a subset"),
            };
            if pos.count_ones() != k || digits.count_ones() != k {
                return bad(&format!("a subset of {} cells and {} digits", pos.count_ones(), digits.count_ones()));
            }
            Ok(())
        }
        Ded::BasicFish { lines, pos, .. } => {
            let k = match named {
                9 => 2,
                10 => 3,
                11 => 4,
                _ => return bad("a fish"),
            };
            if lines.count_ones() != k || pos.count_ones() != k {
                return bad("a fish of another size");
            }
            Ok(())
        }
        Ded::Fish { .. } if !(9..=11).contains(&named) && named != 14 && named != 15 => bad("a fish"),
        Ded::Wing { hinge_digits, .. } => match (named, hinge_digits.count_ones()) {
            (12, 2) | (13, 3) => Ok(()),
            _ => bad("a wing"),
        },
        _ => Ok(()),
    }
}

/// Is the pattern that the step claims present in `st` (or was it, in a state with more
/// candidates: everything that is left must fit the pattern)? `exact`: all parts of the
/// pattern are still there.
fn pattern(st: &St, d: &Ded, named: u8, exact: bool) -> Result<(), String> {
    let t = tables();
    match d {
        Ded::Naked { cell, digit } => {
            let m = st.c[*cell as usize];
            if m & !(1 << digit) != 0 {
                return Err(format!("naked single {}@{}: candidates {:#b}", digit, cell, m));
            }
            if exact && m != 1 << digit {
                return Err(format!("naked single {}@{}: digit not possible", digit, cell));
            }
            Ok(())
        }
        Ded::Hidden { cell, digit, house } => {
            let h = &t.houses[*house as usize];
            if !h.contains(&(*cell as usize)) {
                return Err(format!("hidden single {}@{}: not in house {}", digit, cell, house));
            }
            if h.iter().any(|&c| c != *cell as usize && (st.c[c] & (1 << digit) != 0 || st.grid[c] == *digit)) {
                return Err(format!("hidden single {}@{}: other places in house {}", digit, cell, house));
            }
            if exact && st.c[*cell as usize] & (1 << digit) == 0 {
                return Err(format!("hidden single {}@{}: digit not possible", digit, cell));
            }
            Ok(())
        }
        Ded::Locked { digit, mini: m, pointing, conf } => {
            if *m >= 54 {
                return Err("no such miniline".into());
            }
            let (cells, line, block) = mini(*m);
            let (inner, outer) = if *pointing { (block, line) } else { (line, block) };
            if t.houses[inner].iter().any(|c| !cells.contains(c) && st.c[*c] & (1 << digit) != 0) {
                return Err(format!("locked {} in miniline {}: other places in house {}", digit, m, inner));
            }
            if exact && !cells.iter().any(|&c| st.c[c] & (1 << digit) != 0) {
                return Err(format!("locked {} in miniline {}: not possible there", digit, m));
            }
            for &(c, e) in conf {
                let c = c as usize;
                if e != *digit || !t.houses[outer].contains(&c) || t.houses[inner].contains(&c) {
                    return Err(format!("locked {} in miniline {}: removes {}@{}", digit, m, e, c));
                }
            }
            Ok(())
        }
        Ded::Subset { house, pos, digits, conf } => {
            let h = &t.houses[*house as usize];
            let naked = (3..=5).contains(&named);
            let at = |p: usize| pos & (1 << p) != 0;
            let mut union_d = 0;
            let mut union_p = 0;
            for (p, &c) in h.iter().enumerate() {
                if at(p) {
                    union_d |= st.c[c];
                    if exact && st.c[c] == 0 {
                        return Err(format!("subset in house {}: cell {} is filled", house, c));
                    }
                }
                if st.c[c] & digits != 0 {
                    union_p |= 1 << p;
                }
            }
            if naked && (union_d & !digits != 0 || exact && union_d != *digits) {
                return Err(format!("naked subset in house {} at {:#b} has {:#b}, not {:#b}", house, pos, union_d, digits));
            }
            if !naked && (union_p & !pos != 0 || exact && union_p != *pos) {
                return Err(format!("hidden subset in house {} of {:#b} is at {:#b}, not {:#b}", house, digits, union_p, pos));
            }
            for &(c, e) in conf {
                let p = match h.iter().position(|&x| x == c as usize) {
                    Some(p) => p,
                    None => return Err(format!("subset removes {}@{} outside of house {}", e, c, house)),
                };
                let ok = if naked { !at(p) && digits & (1 << e) != 0 } else { at(p) && digits & (1 << e) == 0 };
                if !ok {
                    return Err(format!("subset in house {} at {:#b} of {:#b} removes {}@{}", house, pos, digits, e, c));
                }
            }
            Ok(())
        }
        Ded::BasicFish { digit, lines, pos, conf } => {
            let rows = lines & 0x1ff == *lines;
            let cols = lines & 0x3fe00 == *lines;
            if !rows && !cols {
                return Err("fish mixes rows and columns".into());
            }
            let all: Vec<usize> = if rows { (0..9).collect() } else { (9..18).collect() };
            let mut union = 0;
            for &l in &all {
                if lines & (1 << l) != 0 {
                    let p = st.places(l, *digit);
                    if exact && p == 0 {
                        return Err(format!("fish {}: line {} has no place", digit, l));
                    }
                    union |= p;
                }
            }
            if union & !pos != 0 || exact && union != *pos {
                return Err(format!("fish {} in lines {:#b}: places {:#b}, not {:#b}", digit, lines, union, pos));
            }
            for &(c, e) in conf {
                let c = c as usize;
                let (l, p) = if rows { (row(c), col(c)) } else { (9 + col(c), row(c)) };
                if e != *digit || lines & (1 << l) != 0 || pos & (1 << p) == 0 {
                    return Err(format!("fish {} in lines {:#b} at {:#b} removes {}@{}", digit, lines, pos, e, c));
                }
            }
            Ok(())
        }
        Ded::Fish { digit, base, cover, conf } => {
            // no endo fins: base cells disjoint, all covered; conflicts in cover outside of base
            let cells = |m: u32| -> Vec<usize> { (0..27).filter(|h| m & (1 << h) != 0).flat_map(|h| t.houses[h].iter().copied()).filter(|&c| st.c[c] & (1 << digit) != 0).collect() };
            let b = cells(*base);
            let c = cells(*cover);
            let uniq = |v: &Vec<usize>| {
                let mut w = v.clone();
                w.sort();
                w.dedup();
                w.len() == v.len()
            };
            if base.count_ones() != cover.count_ones() || !uniq(&b) || b.iter().any(|x| !c.contains(x)) {
                return Err("fish: base not covered".into());
            }
            for &(x, e) in conf {
                let x = x as usize;
                let in_cover = (0..27).any(|h| cover & (1 << h) != 0 && t.houses[h].contains(&x));
                let in_base = (0..27).any(|h| base & (1 << h) != 0 && t.houses[h].contains(&x));
                if e != *digit || !in_cover || in_base {
                    return Err(format!("fish removes {}@{}", e, x));
                }
            }
            Ok(())
        }
        Ded::Wing { hinge, hinge_digits, pincers, conf } => {
            if pincers.len() != 2 || conf.is_empty() {
                return Err("wing without two pincers or without conflicts".into());
            }
            let (h, p, q) = (*hinge as usize, pincers[0] as usize, pincers[1] as usize);
            let z = conf[0].1;
            let zb = 1u16 << z;
            let three = hinge_digits.count_ones() == 3;
            if three == (hinge_digits & zb == 0) {
                return Err(format!("wing at {}: conflict digit {} does not fit hinge {:#b}", h, z, hinge_digits));
            }
            let xy = hinge_digits & !zb;
            let x = xy & xy.wrapping_neg();
            let y = xy & !x;
            let sub = |i: usize, m: u16| if exact { st.c[i] == m } else { st.c[i] & !m == 0 };
            if !sub(h, *hinge_digits) {
                return Err(format!("wing: hinge {} has {:#b}, not {:#b}", h, st.c[h], hinge_digits));
            }
            if !(sub(p, x | zb) && sub(q, y | zb) || sub(p, y | zb) && sub(q, x | zb)) {
                return Err(format!("wing: pincers {} {} have {:#b} {:#b}", p, q, st.c[p], st.c[q]));
            }
            if !sees(h, p) || !sees(h, q) {
                return Err("wing: pincer not in sight of the hinge".into());
            }
            for &(c, e) in conf {
                let c = c as usize;
                if e != z || !sees(c, p) || !sees(c, q) || three && !sees(c, h) {
                    return Err(format!("wing {} {} {} removes {}@{}", h, p, q, e, c));
                }
            }
            Ok(())
        }
        Ded::Unknown(s) => Err(format!("unknown deduction {}", s)),
    }
}

pub fn conflicts(d: &Ded) -> Option<&Vec<(u8, u8)>> {
    match d {
        Ded::Naked { .. } | Ded::Hidden { .. } | Ded::Unknown(_) => None,
        Ded::Locked { conf, .. } | Ded::Subset { conf, .. } | Ded::BasicFish { conf, .. } | Ded::Fish { conf, .. } | Ded::Wing { conf, .. } => Some(conf),
    }
}

pub struct Replay {
    pub end: St,
    pub used: Vec<u8>,
}

/// Replay a log. `justify`: check that each step is a correct application (S02).
/// `solutions`: the solutions no step may contradict (S01).
pub fn replay(m: &Model, out: &SolveOut, strats: &[u8], justify: bool, solutions: &[Grid]) -> Result<Replay, String> {
    let mut st = St::new(m);
    let mut run: Vec<St> = vec![];
    let mut run_of = 255u8;
    let mut used = vec![];
    for (n, (d, named)) in out.log.iter().enumerate() {
        let at = |e: String| format!("step {} ({:?}): {}", n, d, e);
        if justify {
            expected_strategy(d, *named).map_err(at)?;
            if !strats.contains(named) {
                return Err(at(format!("strategy {} was not requested", crate::ops::STRAT_NAMES.get(*named as usize).unwrap_or(&"?"))));
            }
            if *named != run_of {
                run.clear();
                run_of = *named;
            }
            run.push(st.clone());
            pattern(&st, d, *named, false).map_err(at)?;
            let mut first = None;
            if !run.iter().rev().any(|s| match pattern(s, d, *named, true) {
                Ok(()) => true,
                Err(e) => {
                    first.get_or_insert(e);
                    false
                }
            }) {
                return Err(at(first.unwrap()));
            }
            // only the first requested strategy collects several steps from one state
            if strats.len() > 1 && *named != strats[0] {
                run.clear();
            }
        }
        used.push(*named);
        match d {
            Ded::Naked { cell, digit } | Ded::Hidden { cell, digit, .. } => {
                let c = *cell as usize;
                if st.grid[c] != 0 {
                    return Err(at(format!("cell {} already holds {}", c, st.grid[c])));
                }
                for s in solutions {
                    if s[c] != *digit {
                        return Err(at(format!("places {}@{}, the solution {} has {}", digit, c, crate::refs::line(s), s[c])));
                    }
                }
                st.place(c, *digit);
            }
            _ => {
                let conf = conflicts(d).unwrap();
                if justify && conf.is_empty() {
                    return Err(at("removes nothing".into()));
                }
                for &(c, e) in conf {
                    for s in solutions {
                        if s[c as usize] == e {
                            return Err(at(format!("removes {}@{}, which the solution {} has", e, c, crate::refs::line(s))));
                        }
                    }
                    st.c[c as usize] &= !(1 << e);
                }
            }
        }
    }
    Ok(Replay { end: st, used })
}

// ------------------------------------------------------------------ textbook strategies

fn combos(items: &[usize], k: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    fn rec(items: &[usize], k: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if cur.len() == k {
            return f(cur);
        }
        for i in from..items.len() {
            cur.push(items[i]);
            if rec(items, k, i + 1, cur, f) {
                return true;
            }
            cur.pop();
        }
        false
    }
    rec(items, k, 0, &mut vec![], f)
}

/// Could this strategy still make progress in `st`? Returns a description.
pub fn progress(st: &St, strat: u8) -> Option<String> {
    let t = tables();
    let mut found = None;
    match strat {
        0 => {
            if let Some(i) = (0..81).find(|&i| st.c[i].count_ones() == 1) {
                found = Some(format!("naked single {}@{}", st.c[i].trailing_zeros(), i));
            }
        }
        1 => {
            for h in 0..27 {
                for d in 1..=9 {
                    let p = st.places(h, d);
                    if p.count_ones() == 1 && !st.placed_in(h, d) {
                        found = Some(format!("hidden single {}@{} in house {}", d, t.houses[h][p.trailing_zeros() as usize], h));
                    }
                }
            }
        }
        2 => {
            for m in 0..54u8 {
                let (cells, line, block) = mini(m);
                for d in 1..=9 {
                    if !cells.iter().any(|&c| st.c[c] & (1 << d) != 0) {
                        continue;
                    }
                    let outside = |h: usize, other: usize| t.houses[h].iter().any(|c| !t.houses[other].contains(c) && st.c[*c] & (1 << d) != 0);
                    let (in_line, in_block) = (outside(line, block), outside(block, line));
                    if in_line != in_block {
                        found = Some(format!("locked {} in miniline {}", d, m));
                    }
                }
            }
        }
        3..=5 => {
            let k = strat as usize - 1;
            for h in &t.houses {
                let cells: Vec<usize> = h.iter().copied().filter(|&c| st.c[c] != 0).collect();
                combos(&cells, k, &mut |s| {
                    let u = s.iter().fold(0, |m, &c| m | st.c[c]);
                    if u.count_ones() as usize == k && cells.iter().any(|c| !s.contains(c) && st.c[*c] & u != 0) {
                        found = Some(format!("naked subset of cells {:?}", s));
                        return true;
                    }
                    false
                });
            }
        }
        6..=8 => {
            let k = strat as usize - 4;
            for h in 0..27 {
                let ds: Vec<usize> = (1..=9).filter(|&d| st.places(h, d as u8) != 0).collect();
                combos(&ds, k, &mut |s| {
                    let p = s.iter().fold(0, |m, &d| m | st.places(h, d as u8));
                    let mask = s.iter().fold(0u16, |m, &d| m | 1 << d);
                    if p.count_ones() as usize == k && (0..9).any(|i| p & (1 << i) != 0 && st.c[t.houses[h][i]] & !mask != 0) {
                        found = Some(format!("hidden subset of digits {:?} in house {}", s, h));
                        return true;
                    }
                    false
                });
            }
        }
        9..=11 => {
            let k = strat as usize - 7;
            for d in 1..=9u8 {
                for base in [0usize, 9] {
                    let ls: Vec<usize> = (base..base + 9).filter(|&l| (2..=k as u32).contains(&st.places(l, d).count_ones())).collect();
                    combos(&ls, k, &mut |s| {
                        let p = s.iter().fold(0, |m, &l| m | st.places(l, d));
                        if p.count_ones() as usize == k && (base..base + 9).any(|l| !s.contains(&l) && st.places(l, d) & p != 0) {
                            found = Some(format!("fish {} in lines {:?}", d, s));
                            return true;
                        }
                        false
                    });
                }
            }
        }
        12 | 13 => {
            let three = strat == 13;
            let n = if three { 3 } else { 2 };
            for h in 0..81 {
                if st.c[h].count_ones() != n {
                    continue;
                }
                let bi: Vec<usize> = t.peers[h].iter().copied().filter(|&p| st.c[p].count_ones() == 2).collect();
                for (a, &p) in bi.iter().enumerate() {
                    for &q in &bi[a + 1..] {
                        if sees(p, q) {
                            continue;
                        }
                        let z = st.c[p] & st.c[q];
                        if z.count_ones() != 1 || (st.c[p] | st.c[q] | st.c[h]).count_ones() != 3 || (st.c[h] & z != 0) != three || st.c[p] == st.c[h] || st.c[q] == st.c[h] {
                            continue;
                        }
                        if three && !((blk(p) == blk(h)) ^ (blk(q) == blk(h))) {
                            continue;
                        }
                        if (0..81).any(|c| c != h && st.c[c] & z != 0 && sees(c, p) && sees(c, q) && (!three || sees(c, h))) {
                            found = Some(format!("wing {} {} {}", h, p, q));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    found
}

pub fn house_index(i: usize, kind: usize) -> usize {
    house_of(i, kind)
}
