//! Questions about values: everything the public types answer without solving anything.
//! There is no reference for these answers. They are compared between repetitions,
//! schedules and builds.
use crate::ctx::lib_catch;
use crate::ops::{from_lib, to_lib, Gr};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use sudoku::bitset::Set;
use sudoku::board::positions::*;
use sudoku::board::{Candidate, CellState, Digit, Sudoku};
use sudoku::strategy::StrategySolver;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ask {
    pub what: u8,
    pub a: Gr,
    pub b: Gr,
    pub n: u8,
    pub k: u8,
    pub bits: u64,
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

struct Out(Vec<String>);
impl Out {
    fn put<T: Debug>(&mut self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        match lib_catch(f) {
            Ok(x) => {
                self.0.push(format!("{} {:?}", name, x));
                Some(x)
            }
            Err(_) => {
                self.0.push(format!("{} panics", name));
                None
            }
        }
    }
}

pub fn run(q: &Ask) -> Vec<String> {
    let mut o = Out(vec![]);
    let o_ = &mut o;
    let (a, b) = (to_lib(&q.a), to_lib(&q.b));
    let wide = |k: u32| (q.bits as u128).rotate_left(k) ^ (q.bits as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    match q.what {
        0 => {
            o_.put("solved", || a.is_solved());
            o_.put("clues", || a.n_clues());
            o_.put("unique", || a.is_uniquely_solvable());
            o_.put("solved", || b.is_solved());
            o_.put("clues", || b.n_clues());
            o_.put("solved", || a.is_solved());
        }
        // one question, asked once
        7 => {
            match q.n % 4 {
                0 => o_.put("solved", || a.is_solved()).is_some(),
                1 => o_.put("clues", || a.n_clues()).is_some(),
                2 => o_.put("unique", || a.is_uniquely_solvable()).is_some(),
                _ => o_.put("first clue", || a.iter().position(|d| d.is_some())).is_some(),
            };
        }
        1 => {
            o_.put("equal", || (a == b, a.cmp(&b), a.partial_cmp(&b), hash(&a), hash(&b)));
            o_.put("lines", || {
                let (x, y) = (a.to_str_line(), b.to_str_line());
                (x == y, x.cmp(&y), x.partial_cmp(&y), hash(&x), format!("{:?}", x), x.len(), x.to_string() == a.to_string())
            });
            o_.put("blocks", || {
                let (x, y) = (a.display_block(), b.display_block());
                (x == y, x.cmp(&y), hash(&x))
            });
        }
        2 => {
            o_.put("iter", || a.iter().collect::<Vec<_>>());
            o_.put("len", || (a.iter().size_hint(), a.iter().count(), a.iter().nth(q.n as usize)));
            o_.put("bytes", || a.to_bytes().to_vec());
            o_.put("from", || (Sudoku::from_bytes(a.to_bytes()).ok() == Some(a), Sudoku::from_bytes_slice(&b.to_bytes()).ok() == Some(b)));
            o_.put("clone", || from_lib(a.clone()));
        }
        3 => {
            let n = q.n;
            macro_rules! make {
                ($($t:ident)*) => {{ $(
                    o_.put(stringify!($t), || {
                        let x = $t::new(n);
                        (x, x.get(), x.as_index(), x.cells().len(), x.cells().bits(), hash(&x))
                    });
                    o_.put("checked", || $t::new_checked(n));
                    o_.put("all", || $t::all().map(|x| x.get() as u64).fold(0u64, |a, x| a.wrapping_mul(31) + x + 1));
                )* }};
            }
            match q.k % 4 {
                0 => make!(Cell Row Col),
                1 => make!(Block Line House),
                2 => make!(MiniRow MiniCol MiniLine),
                _ => make!(Band Stack Chute),
            }
        }
        4 => {
            let m = Set::<Cell>::ALL.bits();
            let (x, y) = (Set::<Cell>::from_bits(wide(q.n as u32 & 63) & m), Set::<Cell>::from_bits(wide(q.k as u32 & 63) & m));
            o_.put("cells", || ((x | y).bits(), (x & y).bits(), (x ^ y).bits(), (!x).bits(), x.without(y).bits(), x.overlaps(y), x.contains(y), x.len(), x.is_full(), x.is_empty()));
            o_.put("walk", || x.into_iter().map(|c| c.get()).collect::<Vec<_>>());
            o_.put("binary", || format!("{:b}", x));
            let (d, e) = (Set::<Digit>::from_bits(q.bits as u16 & 511), Set::<Digit>::from_bits((q.bits >> 16) as u16 & 511));
            o_.put("digits", || ((d | e).bits(), (d & e).bits(), (d ^ e).bits(), (!d).bits(), d.without(e).bits(), d.overlaps(e), d.contains(e), d.len(), d.is_full()));
            o_.put("unique", || d.unique().map_err(|_| ()));
            o_.put("walk", || d.into_iter().map(|x| x.get()).collect::<Vec<_>>());
            o_.put("houses", || Set::<House>::from_bits(q.bits as u32).into_iter().map(|h| h.get()).collect::<Vec<_>>());
            o_.put("lines", || Set::<Line>::from_bits((q.bits >> 32) as u32 & 0x3ffff).into_iter().map(|h| h.get()).collect::<Vec<_>>());
            o_.put("digits", || Set::<Digit>::from_bits(q.bits as u16).len());
        }
        5 => {
            o_.put("digit", || Digit::new(q.n));
            o_.put("digit", || (Digit::new_checked(q.k), Digit::all().count()));
            o_.put("candidate", || {
                let c = Candidate::new(q.n, q.k);
                (c, c.row(), c.col(), c.block(), hash(&c))
            });
            o_.put("places", || {
                let c = Cell::new(q.n % 81);
                (c.row(), c.col(), c.block(), Row::from(c).cells().contains(c), hash(&c))
            });
            o_.put("kinds", || (Line::new(q.n % 18).categorize(), House::new(q.n % 27).categorize(), Chute::new(q.n % 6).categorize(), MiniLine::new(q.n % 54).categorize()));
            let p = q.k % 9;
            o_.put("at", || (Row::new(q.n % 9).cell_at(Position::new(p)), Col::new(q.n % 9).cell_at(Position::new(p)), Block::new(q.n % 9).cell_at(Position::new(p)), Line::new(q.n % 18).cell_at(Position::new(p)), House::new(q.n % 27).cell_at(Position::new(p))));
            o_.put("cells at", || House::new(q.n % 27).cells_at(Set::from_bits(q.bits as u16 & 511)).bits());
        }
        _ => {
            // a cell that may not exist, handed to a session
            o_.put("insert", || {
                let mut s = StrategySolver::from_sudoku(a);
                let c = Candidate { cell: Cell::new(q.n), digit: Digit::new(1 + q.k % 9) };
                let r = s.insert_candidate(c);
                (r, s.to_sudoku().to_bytes().to_vec())
            });
            o_.put("state", || {
                let mut s = StrategySolver::from_sudoku(a);
                match s.cell_state(Cell::new(q.n)) {
                    CellState::Digit(d) => 1 | 1 << d.get(),
                    CellState::Candidates(s) => s.bits() << 1,
                }
            });
        }
    }
    o.0
}
