//! Independent reference implementations: solver, puzzle generator, transformations,
//! canonical form, equivalence. None of this uses the library.
use crate::rngs::Prng;

pub type Grid = [u8; 81];

pub const fn row(c: usize) -> usize {
    c / 9
}
pub const fn col(c: usize) -> usize {
    c % 9
}
pub const fn blk(c: usize) -> usize {
    c / 27 * 3 + c % 9 / 3
}

pub struct Tables {
    pub peers: Vec<Vec<usize>>,
    /// houses 0..9 rows, 9..18 columns, 18..27 blocks, each in reading order
    pub houses: Vec<Vec<usize>>,
}

pub fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut houses = vec![vec![]; 27];
        for c in 0..81 {
            houses[row(c)].push(c);
            houses[9 + col(c)].push(c);
            houses[18 + blk(c)].push(c);
        }
        let peers = (0..81)
            .map(|c| (0..81).filter(|&d| d != c && (row(c) == row(d) || col(c) == col(d) || blk(c) == blk(d))).collect())
            .collect();
        Tables { peers, houses }
    })
}

pub fn is_complete_valid(g: &Grid) -> bool {
    tables().houses.iter().all(|h| {
        let mut m = 0u16;
        for &c in h {
            if g[c] == 0 || g[c] > 9 {
                return false;
            }
            m |= 1 << g[c];
        }
        m == 0x3fe
    })
}

pub fn n_clues(g: &Grid) -> usize {
    g.iter().filter(|&&d| d != 0).count()
}

pub fn is_subset(a: &Grid, b: &Grid) -> bool {
    a.iter().zip(b.iter()).all(|(&x, &y)| x == 0 || x == y)
}

/// digit mask helper: bit d for digit d (1..=9)
pub const ALLM: u16 = 0x3fe;

pub struct Search<'a> {
    grid: Grid,
    r: [u16; 9],
    c: [u16; 9],
    b: [u16; 9],
    allowed: Option<&'a [u16; 81]>,
    pub found: Vec<Grid>,
    pub count: usize,
    limit: usize,
    keep: bool,
    nodes: u64,
    max_nodes: u64,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TooHard;

impl<'a> Search<'a> {
    fn run(g: &Grid, allowed: Option<&'a [u16; 81]>, limit: usize, keep: bool, max_nodes: u64) -> Result<Search<'a>, TooHard> {
        let mut s = Search { grid: [0; 81], r: [ALLM; 9], c: [ALLM; 9], b: [ALLM; 9], allowed, found: vec![], count: 0, limit, keep, nodes: 0, max_nodes };
        for i in 0..81 {
            let d = g[i];
            if d != 0 {
                let m = 1u16 << d;
                if s.cand_raw(i) & m == 0 {
                    return Ok(s);
                }
                if let Some(a) = allowed {
                    if a[i] & m == 0 {
                        return Ok(s);
                    }
                }
                s.place(i, m);
            }
        }
        if limit > 0 {
            s.go()?;
        }
        Ok(s)
    }
    fn cand_raw(&self, i: usize) -> u16 {
        self.r[row(i)] & self.c[col(i)] & self.b[blk(i)]
    }
    fn cand(&self, i: usize) -> u16 {
        let m = self.cand_raw(i);
        match self.allowed {
            Some(a) => m & a[i],
            None => m,
        }
    }
    fn place(&mut self, i: usize, m: u16) {
        self.grid[i] = m.trailing_zeros() as u8;
        self.r[row(i)] &= !m;
        self.c[col(i)] &= !m;
        self.b[blk(i)] &= !m;
    }
    fn unplace(&mut self, i: usize, m: u16) {
        self.grid[i] = 0;
        self.r[row(i)] |= m;
        self.c[col(i)] |= m;
        self.b[blk(i)] |= m;
    }
    /// returns Ok(true) to stop
    fn go(&mut self) -> Result<bool, TooHard> {
        self.nodes += 1;
        if self.nodes > self.max_nodes {
            return Err(TooHard);
        }
        let mut best = 100usize;
        let mut best_n = 10;
        for i in 0..81 {
            if self.grid[i] == 0 {
                let n = self.cand(i).count_ones();
                if n < best_n {
                    best_n = n;
                    best = i;
                    if n == 0 {
                        return Ok(false);
                    }
                    if n == 1 {
                        break;
                    }
                }
            }
        }
        if best == 100 {
            self.count += 1;
            if self.keep {
                self.found.push(self.grid);
            }
            return Ok(self.count >= self.limit);
        }
        // a digit with fewer places in some house is a better branch
        let mut place_opt: Option<(u16, [usize; 9], usize)> = None;
        if best_n > 1 {
            let mut best_places = best_n as usize;
            'h: for h in &tables().houses {
                let mut once = 0u16;
                let mut twice = 0u16;
                let mut done = 0u16;
                for &c in h {
                    if self.grid[c] != 0 {
                        done |= 1 << self.grid[c];
                    } else {
                        let m = self.cand(c);
                        twice |= once & m;
                        once |= m;
                    }
                }
                if once | done != ALLM {
                    return Ok(false);
                }
                let single = once & !twice & !done;
                if single != 0 {
                    let m = single & single.wrapping_neg();
                    for &c in h {
                        if self.grid[c] == 0 && self.cand(c) & m != 0 {
                            let mut p = [0; 9];
                            p[0] = c;
                            place_opt = Some((m, p, 1));
                            break 'h;
                        }
                    }
                }
                if best_places > 2 {
                    for d in 1..=9u16 {
                        let m = 1 << d;
                        if done & m != 0 {
                            continue;
                        }
                        let mut p = [0; 9];
                        let mut n = 0;
                        for &c in h {
                            if self.grid[c] == 0 && self.cand(c) & m != 0 {
                                p[n] = c;
                                n += 1;
                            }
                        }
                        if n < best_places {
                            best_places = n;
                            place_opt = Some((m, p, n));
                        }
                    }
                }
            }
        }
        match place_opt {
            Some((m, p, n)) => {
                for &c in &p[..n] {
                    self.place(c, m);
                    let stop = self.go();
                    self.unplace(c, m);
                    if stop? {
                        return Ok(true);
                    }
                }
            }
            None => {
                let mut m = self.cand(best);
                while m != 0 {
                    let d = m & m.wrapping_neg();
                    m &= m - 1;
                    self.place(best, d);
                    let stop = self.go();
                    self.unplace(best, d);
                    if stop? {
                        return Ok(true);
                    }
                }
            }
        }
        Ok(false)
    }
}

pub const NODES: u64 = 300_000;

pub fn count(g: &Grid, limit: usize) -> Result<usize, TooHard> {
    Search::run(g, None, limit, false, NODES).map(|s| s.count)
}
pub fn count_cap(g: &Grid, limit: usize, nodes: u64) -> Result<usize, TooHard> {
    Search::run(g, None, limit, false, nodes).map(|s| s.count)
}
pub fn solutions(g: &Grid, limit: usize) -> Result<Vec<Grid>, TooHard> {
    Search::run(g, None, limit, true, NODES).map(|s| s.found)
}
pub fn solutions_allowed(g: &Grid, allowed: &[u16; 81], limit: usize) -> Result<Vec<Grid>, TooHard> {
    Search::run(g, Some(allowed), limit, true, NODES).map(|s| s.found)
}

// ------------------------------------------------------------------------------------
// generation

pub fn random_solved(r: &mut Prng) -> Grid {
    // random fill with restart; MRV with shuffled digits
    fn go(g: &mut Grid, rr: &mut [u16; 9], cc: &mut [u16; 9], bb: &mut [u16; 9], r: &mut Prng, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let mut best = None;
        let mut bn = 10;
        let off = r.us(81);
        for k in 0..81 {
            let i = (k + off) % 81;
            if g[i] == 0 {
                let m = rr[row(i)] & cc[col(i)] & bb[blk(i)];
                let n = m.count_ones();
                if n < bn {
                    bn = n;
                    best = Some((i, m));
                    if n <= 1 {
                        break;
                    }
                }
            }
        }
        let (i, m) = match best {
            None => return true,
            Some(x) => x,
        };
        let mut ds: Vec<u8> = (1..=9).filter(|&d| m & (1 << d) != 0).collect();
        r.shuffle(&mut ds);
        for d in ds {
            let b = 1u16 << d;
            g[i] = d;
            rr[row(i)] &= !b;
            cc[col(i)] &= !b;
            bb[blk(i)] &= !b;
            if go(g, rr, cc, bb, r, budget) {
                return true;
            }
            g[i] = 0;
            rr[row(i)] |= b;
            cc[col(i)] |= b;
            bb[blk(i)] |= b;
        }
        false
    }
    loop {
        let mut g = [0u8; 81];
        let mut budget = 2000;
        if go(&mut g, &mut [ALLM; 9], &mut [ALLM; 9], &mut [ALLM; 9], r, &mut budget) {
            debug_assert!(is_complete_valid(&g));
            return g;
        }
    }
}

/// remove clues while the solution stays unique; `keep_prob` percent of removals are skipped
pub fn reduce(g: &Grid, r: &mut Prng, stop_at: usize) -> Grid {
    let mut p = *g;
    let mut order: Vec<usize> = (0..81).collect();
    r.shuffle(&mut order);
    for c in order {
        if n_clues(&p) <= stop_at {
            break;
        }
        if p[c] == 0 {
            continue;
        }
        let old = p[c];
        p[c] = 0;
        if count(&p, 2) != Ok(1) {
            p[c] = old;
        }
    }
    p
}

// ------------------------------------------------------------------------------------
// transformations

#[derive(Clone, Debug, PartialEq)]
pub struct Transform {
    pub transpose: bool,
    /// new row i is old row rows[i] (after transposition)
    pub rows: [usize; 9],
    pub cols: [usize; 9],
    pub digits: [u8; 10],
}

pub const PERM3: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

pub fn all_line_perms() -> &'static Vec<[usize; 9]> {
    static T: std::sync::OnceLock<Vec<[usize; 9]>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = Vec::with_capacity(1296);
        for b in PERM3 {
            for p0 in PERM3 {
                for p1 in PERM3 {
                    for p2 in PERM3 {
                        let ps = [p0, p1, p2];
                        let mut a = [0; 9];
                        for i in 0..9 {
                            a[i] = b[i / 3] * 3 + ps[i / 3][i % 3];
                        }
                        v.push(a);
                    }
                }
            }
        }
        v
    })
}

impl Transform {
    pub fn random(r: &mut Prng) -> Transform {
        let mut d: Vec<u8> = (1..=9).collect();
        r.shuffle(&mut d);
        let mut digits = [0; 10];
        for i in 0..9 {
            digits[i + 1] = d[i];
        }
        Transform { transpose: r.chance(1, 2), rows: *r.pick(all_line_perms()), cols: *r.pick(all_line_perms()), digits }
    }
    pub fn apply(&self, g: &Grid) -> Grid {
        let mut o = [0; 81];
        for i in 0..9 {
            for j in 0..9 {
                let (a, b) = (self.rows[i], self.cols[j]);
                let v = if self.transpose { g[b * 9 + a] } else { g[a * 9 + b] };
                o[i * 9 + j] = self.digits[v as usize];
            }
        }
        o
    }
}

/// Is `b` obtainable from `a`? Returns a transformation. `TooHard` if the search was not
/// completed.
pub fn find_equivalence(a: &Grid, b: &Grid) -> Result<Option<Transform>, TooHard> {
    if n_clues(a) != n_clues(b) {
        return Ok(None);
    }
    let mut cut = false;
    let mut total = 0u64;
    // row signature of b: clue count per row and stack as multiset
    let occ_b: Vec<u16> = (0..9).map(|i| (0..9).fold(0u16, |m, j| m | (((b[i * 9 + j] != 0) as u16) << j))).collect();
    let sig = |m: u16| {
        let mut s = [(m & 7).count_ones(), (m >> 3 & 7).count_ones(), (m >> 6 & 7).count_ones()];
        s.sort();
        s
    };
    let sig_b: Vec<_> = occ_b.iter().map(|&m| sig(m)).collect();
    for transpose in [false, true] {
        let t = {
            let mut t = [0u8; 81];
            for i in 0..9 {
                for j in 0..9 {
                    t[i * 9 + j] = if transpose { a[j * 9 + i] } else { a[i * 9 + j] };
                }
            }
            t
        };
        let sig_t: Vec<_> = (0..9).map(|i| sig((0..9).fold(0u16, |m, j| m | (((t[i * 9 + j] != 0) as u16) << j)))).collect();
        'rows: for rows in all_line_perms() {
            for i in 0..9 {
                if sig_t[rows[i]] != sig_b[i] {
                    continue 'rows;
                }
            }
            // columns of t after the row permutation, columns of b
            let ct: Vec<[u8; 9]> = (0..9).map(|j| std::array::from_fn(|i| t[rows[i] * 9 + j])).collect();
            let cb: Vec<[u8; 9]> = (0..9).map(|j| std::array::from_fn(|i| b[i * 9 + j])).collect();
            let mut cols = [0usize; 9];
            let fwd = [0u8; 10];
            let bwd = [0u8; 10];
            fn rec(j: usize, cols: &mut [usize; 9], fwd: [u8; 10], bwd: [u8; 10], ct: &[[u8; 9]], cb: &[[u8; 9]], steps: &mut u32) -> Option<[u8; 10]> {
                *steps += 1;
                if *steps > 50_000 {
                    return None;
                }
                if j == 9 {
                    return Some(fwd);
                }
                for c in 0..9 {
                    // stack structure
                    if cols[..j].contains(&c) {
                        continue;
                    }
                    if j % 3 != 0 {
                        if c / 3 != cols[j / 3 * 3] / 3 {
                            continue;
                        }
                    } else if (0..j / 3).any(|s| cols[s * 3] / 3 == c / 3) {
                        continue;
                    }
                    let mut f = fwd;
                    let mut bw = bwd;
                    let mut ok = true;
                    for i in 0..9 {
                        let (x, y) = (ct[c][i] as usize, cb[j][i] as usize);
                        if (x == 0) != (y == 0) {
                            ok = false;
                            break;
                        }
                        if x == 0 {
                            continue;
                        }
                        if f[x] == 0 && bw[y] == 0 {
                            f[x] = y as u8;
                            bw[y] = x as u8;
                        } else if f[x] as usize != y || bw[y] as usize != x {
                            ok = false;
                            break;
                        }
                    }
                    if !ok {
                        continue;
                    }
                    cols[j] = c;
                    if let Some(f) = rec(j + 1, cols, f, bw, ct, cb, steps) {
                        return Some(f);
                    }
                }
                None
            }
            let mut steps = 0;
            total += 1;
            let found = rec(0, &mut cols, fwd, bwd, &ct, &cb, &mut steps);
            total += steps as u64;
            cut |= steps > 50_000;
            if found.is_none() && total > 1_500_000 {
                return Err(TooHard);
            }
            if let Some(mut f) = found {
                // complete the digit map
                let mut used = [false; 10];
                for d in 1..10 {
                    used[f[d] as usize] = true;
                }
                let mut free = (1..10u8).filter(|&d| !used[d as usize]).collect::<Vec<_>>().into_iter();
                for d in 1..10 {
                    if f[d] == 0 {
                        f[d] = free.next().unwrap();
                    }
                }
                return Ok(Some(Transform { transpose, rows: *rows, cols, digits: f }));
            }
        }
    }
    if cut {
        Err(TooHard)
    } else {
        Ok(None)
    }
}

/// Brute force lexicographically minimal form of a solved grid, all transformations
/// that reach it.
pub fn minlex(g: &Grid) -> (Grid, Vec<Transform>) {
    let mut best = [10u8; 81];
    let mut ts: Vec<Transform> = vec![];
    for transpose in [false, true] {
        let mut t = [0u8; 81];
        for i in 0..9 {
            for j in 0..9 {
                t[i * 9 + j] = if transpose { g[j * 9 + i] } else { g[i * 9 + j] };
            }
        }
        for first in 0..9usize {
            for cols in all_line_perms() {
                let mut map = [0u8; 10];
                for j in 0..9 {
                    map[t[first * 9 + cols[j]] as usize] = j as u8 + 1;
                }
                let line = |r: usize| -> [u8; 9] { std::array::from_fn(|j| map[t[r * 9 + cols[j]] as usize]) };
                // other rows of the first band
                let b0 = first / 3 * 3;
                let mut rest: Vec<usize> = (b0..b0 + 3).filter(|&r| r != first).collect();
                let (l0, l1) = (line(rest[0]), line(rest[1]));
                let (s0, s1) = if l0 <= l1 {
                    (l0, l1)
                } else {
                    rest.swap(0, 1);
                    (l1, l0)
                };
                // quick prune
                if s0[..] > best[9..18] {
                    continue;
                }
                if s0[..] == best[9..18] && s1[..] > best[18..27] {
                    continue;
                }
                let mut bands: Vec<Vec<([u8; 9], usize)>> = (0..3)
                    .filter(|&b| b * 3 != b0)
                    .map(|b| {
                        let mut v: Vec<_> = (b * 3..b * 3 + 3).map(|r| (line(r), r)).collect();
                        v.sort();
                        v
                    })
                    .collect();
                bands.sort();
                let mut out = [0u8; 81];
                let mut rows = [0usize; 9];
                for j in 0..9 {
                    out[j] = j as u8 + 1;
                }
                rows[0] = first;
                rows[1] = rest[0];
                rows[2] = rest[1];
                out[9..18].copy_from_slice(&s0);
                out[18..27].copy_from_slice(&s1);
                for (k, b) in bands.iter().enumerate() {
                    for (m, (l, r)) in b.iter().enumerate() {
                        let i = 3 + k * 3 + m;
                        rows[i] = *r;
                        out[i * 9..i * 9 + 9].copy_from_slice(l);
                    }
                }
                if out < best {
                    best = out;
                    ts.clear();
                }
                if out == best {
                    ts.push(Transform { transpose, rows, cols: *cols, digits: map });
                }
            }
        }
    }
    (best, ts)
}

// ------------------------------------------------------------------------------------
// text helpers

pub fn line(g: &Grid) -> String {
    g.iter().map(|&d| if d == 0 { '.' } else { (b'0' + d) as char }).collect()
}

pub fn parse(s: &str) -> Grid {
    let mut g = [0; 81];
    for (c, ch) in g.iter_mut().zip(s.bytes()) {
        *c = if (b'1'..=b'9').contains(&ch) { ch - b'0' } else { 0 };
    }
    g
}
