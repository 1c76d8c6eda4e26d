//! Reachability and independence of random outcomes over batches of healthy sources (H02).
//! All thresholds leave false alarms below about 1e-9 per batch.
use crate::ops::*;
use crate::plan::*;
use crate::props::staircase;
use crate::refs::{self, Grid, PERM3};
use crate::rngs::{mix, Prng, StreamSpec};
use std::collections::HashSet;

type Chk = Result<(), Violation>;

fn reseed(s: &Step, seed: u64) -> Step {
    let mut t = s.clone();
    t.ambient = StreamSpec::healthy(mix(&[seed, 1]));
    match &mut t.op {
        Op::Solved { rand: Rand::Static(x) | Rand::Dyn(x) } | Op::From { api: FromApi::Rng(Rand::Static(x) | Rand::Dyn(x)), .. } => *x = StreamSpec::healthy(mix(&[seed, 2])),
        _ => {}
    }
    t
}

/// components of a transformation, each as (value, number of values)
struct Parts {
    /// transposition, band order, rows in bands, stack order, columns in stacks
    comp: Vec<(usize, usize)>,
    digits: [u8; 10],
}

fn perm_index(p: [usize; 3]) -> usize {
    PERM3.iter().position(|q| *q == p).unwrap()
}
fn sign(p: &[usize]) -> usize {
    let mut s = 0;
    for i in 0..p.len() {
        for j in 0..i {
            s ^= (p[j] > p[i]) as usize;
        }
    }
    s
}
fn chute_parts(lines: &[usize; 9]) -> Option<(usize, [usize; 3])> {
    let b: Vec<usize> = (0..3).map(|i| lines[3 * i] / 3).collect();
    let mut inner = [0; 3];
    for i in 0..3 {
        let l = &lines[3 * i..3 * i + 3];
        if l.iter().any(|x| x / 3 != b[i]) {
            return None;
        }
        // indexed by the original chute
        inner[b[i]] = perm_index([l[0] % 3, l[1] % 3, l[2] % 3]);
    }
    let mut s = b.clone();
    s.sort();
    if s != [0, 1, 2] {
        return None;
    }
    Some((perm_index([b[0], b[1], b[2]]), inner))
}

/// decode what happened to the staircase grid
fn decode_staircase(g: &Grid) -> Option<Parts> {
    let row_n: Vec<usize> = (0..9).map(|r| (0..9).filter(|c| g[r * 9 + c] != 0).count()).collect();
    let col_n: Vec<usize> = (0..9).map(|c| (0..9).filter(|r| g[r * 9 + c] != 0).count()).collect();
    // in the original, row r has r+1 entries, all equal; column c has 9-c
    let full = (0..9).find(|&r| row_n[r] == 9)?;
    let transposed = (1..9).any(|c| g[full * 9 + c] != g[full * 9]);
    let t = |r: usize, c: usize| if transposed { g[c * 9 + r] } else { g[r * 9 + c] };
    let (rn, cn) = if transposed { (&col_n, &row_n) } else { (&row_n, &col_n) };
    let mut rows = [0; 9];
    let mut cols = [0; 9];
    for i in 0..9 {
        if rn[i] == 0 || cn[i] == 0 {
            return None;
        }
        rows[i] = rn[i] - 1;
        cols[i] = 9 - cn[i];
    }
    let mut digits = [0u8; 10];
    let o = staircase();
    for i in 0..9 {
        for j in 0..9 {
            let old = o[rows[i] * 9 + cols[j]];
            let new = t(i, j);
            if (old == 0) != (new == 0) {
                return None;
            }
            if old != 0 {
                if digits[old as usize] != 0 && digits[old as usize] != new {
                    return None;
                }
                digits[old as usize] = new;
            }
        }
    }
    parts(transposed, &rows, &cols, digits)
}

fn parts(transposed: bool, rows: &[usize; 9], cols: &[usize; 9], digits: [u8; 10]) -> Option<Parts> {
    let (b, r) = chute_parts(rows)?;
    let (s, c) = chute_parts(cols)?;
    let mut d: Vec<u8> = digits[1..].to_vec();
    d.sort();
    if d != [1, 2, 3, 4, 5, 6, 7, 8, 9] {
        return None;
    }
    Some(Parts { comp: vec![(transposed as usize, 2), (b, 6), (r[0], 6), (r[1], 6), (r[2], 6), (s, 6), (c[0], 6), (c[1], 6), (c[2], 6)], digits })
}

const NAMES: [&str; 10] = ["transposition", "band order", "rows of band 1", "rows of band 2", "rows of band 3", "stack order", "columns of stack 1", "columns of stack 2", "columns of stack 3", "digit parity"];

/// chi-square with a limit that a fair source passes with overwhelming probability
fn too_uneven(counts: &[u64], n: u64) -> Option<String> {
    let k = counts.len() as f64;
    let e = n as f64 / k;
    if let Some(i) = counts.iter().position(|&c| c == 0) {
        if e > 25.0 {
            return Some(format!("outcome {} never occurs in {}", i, n));
        }
    }
    let x: f64 = counts.iter().map(|&c| (c as f64 - e) * (c as f64 - e) / e).sum();
    let dof = k - 1.0;
    // Wilson-Hilferty at about 8 standard deviations
    let z = 8.0;
    let h = 2.0 / (9.0 * dof);
    let lim = dof * (1.0 - h + z * h.sqrt()).powi(3);
    // only gross unevenness counts
    if x > lim + 0.02 * n as f64 {
        return Some(format!("counts {:?}", counts));
    }
    None
}

fn shuffle_stats(v: &[Parts], rec: &mut Rec) -> Chk {
    let n = v.len() as u64;
    let val = |p: &Parts, i: usize| -> usize {
        if i < 9 {
            p.comp[i].0
        } else {
            sign(&p.digits[1..].iter().map(|&d| d as usize).collect::<Vec<_>>())
        }
    };
    let size = |i: usize| if i == 0 || i == 9 { 2 } else { 6 };
    for i in 0..10 {
        for j in 0..i {
            if n < 36 * 60 {
                continue;
            }
            let mut c = vec![0u64; size(i) * size(j)];
            for p in v {
                c[val(p, i) * size(j) + val(p, j)] += 1;
            }
            rec.one("pairs of choices tested");
            if let Some(e) = too_uneven(&c, n) {
                return viol("shuffle-pair", format!("{} and {}: {}", NAMES[i], NAMES[j], e));
            }
        }
        let mut c = vec![0u64; size(i)];
        for p in v {
            c[val(p, i)] += 1;
        }
        if let Some(e) = too_uneven(&c, n) {
            return viol("shuffle-choice", format!("{}: {}", NAMES[i], e));
        }
    }
    // images of digits, alone, in pairs and together with every other choice
    for d in 1..10 {
        let mut c = vec![0u64; 9];
        for p in v {
            c[p.digits[d] as usize - 1] += 1;
        }
        if let Some(e) = too_uneven(&c, n) {
            return viol("shuffle-digits", format!("image of {}: {}", d, e));
        }
        if n >= 72 * 60 {
            for e in 1..d {
                let mut c = vec![0u64; 72];
                for p in v {
                    let (x, y) = (p.digits[d] as usize - 1, p.digits[e] as usize - 1);
                    c[x * 8 + if y > x { y - 1 } else { y }] += 1;
                }
                if let Some(x) = too_uneven(&c, n) {
                    return viol("shuffle-digits", format!("images of {} and {}: {}", e, d, x));
                }
            }
        }
        if n >= 54 * 60 {
            for i in 0..9 {
                let mut c = vec![0u64; 9 * size(i)];
                for p in v {
                    c[(p.digits[d] as usize - 1) * size(i) + val(p, i)] += 1;
                }
                if let Some(x) = too_uneven(&c, n) {
                    return viol("shuffle-digits", format!("image of {} and {}: {}", d, NAMES[i], x));
                }
            }
        }
    }
    // no linear dependence among the parities of the choices
    let bits: Vec<u16> = v.iter().map(|p| (0..10).fold(0, |m, i| m | ((if size(i) == 2 { val(p, i) } else { sign(&PERM3[val(p, i)]) }) as u16) << i)).collect();
    for mask in 1u16..1024 {
        let odd = bits.iter().filter(|b| (*b & mask).count_ones() % 2 == 1).count() as f64;
        let dev = (odd - n as f64 / 2.0).abs() / (n as f64 / 4.0).sqrt();
        if dev > 8.0 && (odd / n as f64 - 0.5).abs() > 0.1 {
            return viol("shuffle-parity", format!("parities of {:?} add up to {} in {} of {}", (0..10).filter(|i| mask & (1 << i) != 0).map(|i| NAMES[i]).collect::<Vec<_>>(), 1, odd, n));
        }
    }
    rec.add("parity combinations tested", 1023);
    Ok(())
}

/// 30 for every relabelling: one of them is missed by a fair source with a chance of 3e-8
pub const ALL_RELABELLINGS: u32 = 30 * 362_880;

/// Every relabelling, and every arrangement of the rows and of the columns, has to come up.
fn every_relabelling(s: &Step, by_value: bool, base: u64, n: u32, rec: &mut Rec) -> Chk {
    use crate::ctx::{self, Ctx};
    let o = to_lib(&Gr(staircase()));
    let mut seen = vec![0u16; 362_880];
    // by transposition, then by arrangement
    let mut rows = vec![0u32; 2 * 1296];
    let mut cols = vec![0u32; 2 * 1296];
    let fact = [40320usize, 5040, 720, 120, 24, 6, 2, 1, 1];
    let mut done = 0;
    let mut bad = None;
    while done < n && bad.is_none() {
        let k = 1000.min(n - done);
        let saved = ctx::swap_ctx(Some(Box::new(Ctx::new(&StreamSpec::healthy(mix(&[base, done as u64])), s.nested.as_deref().cloned()))));
        for _ in 0..k {
            let mut g = o;
            let r = if by_value { ctx::lib_catch(|| o.shuffled()).map(|x| g = x) } else { ctx::lib_catch(|| g.shuffle()) };
            if let Err(p) = r {
                bad = Some(Violation { class: "panic".into(), msg: format!("{:?}", p) });
                break;
            }
            let g = g.to_bytes();
            let mut count = [0usize; 10];
            let (mut row_n, mut col_n) = ([0usize; 9], [0usize; 9]);
            for i in 0..81 {
                let d = g[i] as usize;
                count[d.min(9)] += 1;
                row_n[i / 9] += (d != 0) as usize;
                col_n[i % 9] += (d != 0) as usize;
            }
            // the digit d of the staircase is there d times
            let mut image = [0usize; 9];
            let mut there = 0u32;
            for d in 1..10 {
                if (1..10).contains(&count[d]) {
                    image[count[d] - 1] = d;
                    there |= 1 << count[d];
                }
            }
            if there != 0x3fe {
                bad = Some(Violation { class: "not-equivalent".into(), msg: format!("{} became {}", refs::line(&staircase()), refs::line(&g)) });
                break;
            }
            let mut idx = 0;
            for i in 0..9 {
                idx += fact[i] * (i + 1..9).filter(|&j| image[j] < image[i]).count();
            }
            seen[idx] = seen[idx].saturating_add(1);
            // in the original the full row has nine equal digits
            let full = row_n.iter().position(|&x| x == 9).unwrap_or(0);
            let t = (g[full * 9] != g[full * 9 + 1]) as usize;
            let (rn, cn) = if t == 1 { (&col_n, &row_n) } else { (&row_n, &col_n) };
            rows[t * 1296 + arrangement(rn)] += 1;
            cols[t * 1296 + arrangement(cn)] += 1;
        }
        let c = ctx::swap_ctx(saved).unwrap();
        rec.add("draws from the ambient source", c.n.ambient);
        done += k;
    }
    rec.add("operations", done as u64);
    rec.nontrivial();
    for (i, &c) in seen.iter().enumerate() {
        if c > 0 {
            rec.log((i as u64) << 16 | c as u64);
        }
    }
    if let Some(v) = bad {
        return Err(v);
    }
    if n < ALL_RELABELLINGS {
        return Ok(());
    }
    rec.add("relabellings that must occur", 362_880);
    rec.add("arrangements of lines that must occur", 4 * 1296);
    let name = |mut i: usize| {
        let mut left: Vec<usize> = (1..10).collect();
        let mut t = String::new();
        for f in fact {
            t += &left.remove(i / f).to_string();
            i %= f;
        }
        t
    };
    let missed: Vec<String> = seen.iter().enumerate().filter(|x| *x.1 == 0).map(|x| name(x.0)).collect();
    if !missed.is_empty() {
        return viol("relabelling-never", format!("{} of 362880 relabellings never occur in {} shuffles, among them 123456789 -> {}", missed.len(), n, missed[0]));
    }
    let most = *seen.iter().max().unwrap();
    // expected 30; a fair source stays below 100 with overwhelming probability
    if most > 150 {
        return viol("relabelling-often", format!("a relabelling occurs {} times in {} shuffles", most, n));
    }
    for (what, v) in [("rows", &rows), ("columns", &cols)] {
        let e = n / 2592;
        if let Some(i) = v.iter().position(|&c| c < e / 3 || c > e * 3) {
            return viol("arrangement", format!("arrangement {} of the {} ({}) occurs {} times in {} shuffles, expected {}", i % 1296, what, if i < 1296 { "as they were" } else { "transposed" }, v[i], n, e));
        }
    }
    Ok(())
}

/// number of an arrangement of nine lines known by their counts of entries, 1 to 9; unusual ones share numbers
fn arrangement(n: &[usize; 9]) -> usize {
    let mut k = 0;
    let p = |a: usize, b: usize, c: usize| ((a > b) as usize + (a > c) as usize) * 2 + (b > c) as usize;
    for b in 0..3 {
        k = k * 6 + p(n[3 * b], n[3 * b + 1], n[3 * b + 2]);
    }
    k * 6 + p(n[0], n[3], n[6])
}

pub fn h02(p: &Plan, rec: &mut Rec) -> Chk {
    let s = match p.tasks[0].first() {
        Some(s) => s,
        None => return Ok(()),
    };
    let base = mix(&[p.seed, s.ambient.seed]);
    let n = p.batch;
    if let (Op::Shuffle { by_value, .. }, true) = (&s.op, n > 100_000) {
        return every_relabelling(s, *by_value, base, n, rec);
    }
    let mut results: Vec<Grid> = vec![];
    for i in 0..n {
        let out = run_step(&reseed(s, mix(&[base, i as u64])));
        rec.add("draws from the ambient source", out.ambient);
        rec.add("draws from caller sources", out.caller);
        rec.one("operations");
        rec.log(out.digest());
        match &out.res {
            Ok(Res::Grid(g)) => results.push(g.0),
            Ok(Res::Shuffles { grids, panic: None }) if !grids.is_empty() => results.push(grids[0].0),
            x => return viol("panic", format!("{:?}", x)),
        }
    }
    rec.nontrivial();
    let distinct: HashSet<Grid> = results.iter().copied().collect();
    if let Op::From { src, .. } = &s.op {
        if refs::count(&src.0, 2) != Ok(1) {
            return Ok(());
        }
    }
    // what another, fair choice of the order of cells gives; only worked out when something looks odd
    let mut fair: Option<Vec<Grid>> = None;
    let need = match &s.op {
        Op::From { src, sym, api } if distinct.len() < results.len() * 9 / 10 => {
            let f = fair.get_or_insert_with(|| reductions(&src.0, if *api == FromApi::Plain { SYM_NONE } else { *sym }, base));
            f.iter().copied().collect::<HashSet<Grid>>().len() / 2
        }
        Op::From { .. } => 0,
        _ => results.len().saturating_sub(3),
    };
    if results.len() > 100 && distinct.len() < need && need > 4 {
        return viol("repeats", format!("{} random sequences give only {} different results", results.len(), distinct.len()));
    }
    rec.add("different results", distinct.len() as u64);
    match &s.op {
        Op::Shuffle { src, times: 1, .. } => {
            let mut v = vec![];
            let stair = src.0 == staircase();
            if !stair && (!refs::is_complete_valid(&src.0) || refs::minlex(&src.0).1.len() != 1) {
                return Ok(());
            }
            for g in &results {
                let p = if stair {
                    decode_staircase(g)
                } else {
                    match refs::find_equivalence(&src.0, g) {
                        Ok(Some(t)) => parts(t.transpose, &t.rows, &t.cols, t.digits),
                        _ => None,
                    }
                };
                match p {
                    Some(p) => v.push(p),
                    None => return viol("not-equivalent", format!("{} became {}", refs::line(&src.0), refs::line(g))),
                }
            }
            shuffle_stats(&v, rec)
        }
        Op::Solved { .. } => solved_stats(&results, rec),
        Op::From { src, sym, api } => {
            if refs::count(&src.0, 2) != Ok(1) || results.len() < 150 {
                return Ok(());
            }
            let sym = if *api == FromApi::Plain { SYM_NONE } else { *sym };
            for c in 0..81 {
                if src.0[c] == 0 {
                    continue;
                }
                let kept = results.iter().filter(|g| g[c] != 0).count();
                rec.one("cells tested for keeping and clearing");
                if kept > 0 && kept < results.len() {
                    continue;
                }
                let f = fair.get_or_insert_with(|| reductions(&src.0, sym, base));
                let usual = f.iter().filter(|g| g[c] != 0).count();
                if kept == 0 && usual * 5 > f.len() {
                    return viol("always-cleared", format!("cell {} of {} is cleared in all {} puzzles (symmetry {})", c, refs::line(&src.0), results.len(), sym));
                }
                if kept == results.len() && usual * 5 < f.len() * 4 {
                    return viol("never-cleared", format!("cell {} of {} is kept in all {} puzzles (symmetry {})", c, refs::line(&src.0), results.len(), sym));
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// the same number of puzzles made from `g` by clearing its orbits in fair random orders
fn reductions(g: &Grid, sym: u8, seed: u64) -> Vec<Grid> {
    let mut r = Prng::new(mix(&[seed, 0xfa12]));
    (0..150)
        .map(|_| {
            let mut p = *g;
            let mut order: Vec<usize> = (0..81).collect();
            r.shuffle(&mut order);
            for c in order {
                let o = crate::props::orbit(c, sym);
                if p[c] == 0 {
                    continue;
                }
                let old = p;
                o.iter().for_each(|&c| p[c] = 0);
                if refs::count(&p, 2) != Ok(1) {
                    p = old;
                }
            }
            p
        })
        .collect()
}

fn solved_stats(v: &[Grid], rec: &mut Rec) -> Chk {
    let n = v.len();
    if n < 6000 {
        return Ok(());
    }
    let mut c = vec![[0u32; 10]; 81];
    let mut pairs = vec![0u16; 81 * 81 * 81];
    for g in v {
        for i in 0..81 {
            if !(1..=9).contains(&g[i]) {
                return viol("invalid", refs::line(g));
            }
            c[i][g[i] as usize] += 1;
            for j in 0..i {
                pairs[(i * 81 + j) * 81 + (g[i] as usize - 1) * 9 + g[j] as usize - 1] += 1;
            }
        }
    }
    for i in 0..81 {
        for d in 1..10 {
            let (lo, hi) = (n as u32 / 9 / 3, n as u32 / 9 * 3);
            if c[i][d] < lo || c[i][d] > hi {
                return viol("cell-digit", format!("digit {} is in cell {} in {} of {} grids", d, i, c[i][d], n));
            }
        }
    }
    let mut least = u16::MAX;
    for i in 0..81 {
        for j in 0..i {
            let peers = refs::tables().peers[i].contains(&j);
            for x in 0..9 {
                for y in 0..9 {
                    if peers && x == y {
                        continue;
                    }
                    let k = pairs[(i * 81 + j) * 81 + x * 9 + y];
                    least = least.min(k);
                    if k == 0 {
                        return viol("cell-pair", format!("digits {} and {} never meet in cells {} and {} of {} grids", x + 1, y + 1, i, j, n));
                    }
                }
            }
        }
    }
    rec.add("cell and digit pairs met", 81 * 80 / 2 * 81);
    let k = rec.r.counters.entry("rarest pair of a batch, summed".into()).or_default();
    *k += least as u64;
    Ok(())
}
