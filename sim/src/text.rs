//! Reference readers and printers.
use crate::ops::{Reader, Spec};
use crate::refs::{blk, col, row, Grid};

/// expected error: kind as in `ops::PErr`, message, position
#[derive(Clone, Debug, PartialEq)]
pub struct RErr {
    pub kind: String,
    pub msg: Option<String>,
    pub pos: Option<(u8, u8, u8)>,
}
fn err(kind: String, msg: impl Into<Option<String>>) -> RErr {
    RErr { kind, msg: msg.into(), pos: None }
}
fn invalid(cell: usize, ch: char) -> RErr {
    RErr { kind: format!("InvalidEntry({},{:?})", cell, ch), msg: Some(format!("cell {} contains invalid character '{}'", cell, ch)), pos: Some((row(cell) as u8, col(cell) as u8, blk(cell) as u8)) }
}

fn entry(ch: char) -> Option<u8> {
    match ch {
        '_' | '.' => Some(0),
        '0'..='9' => Some(ch as u8 - b'0'),
        _ => None,
    }
}

pub fn read_line(s: &str) -> Result<Grid, RErr> {
    let chars: Vec<char> = s.chars().collect();
    let mut g = [0; 81];
    for i in 0..81 {
        let not_enough = || err(format!("NotEnoughCells({})", i), format!("sudoku contains {} cells instead of required 81", i));
        match chars.get(i) {
            None | Some(' ') | Some('\t') => return Err(not_enough()),
            Some(&c) => match entry(c) {
                Some(d) => g[i] = d,
                None => return Err(invalid(i, c)),
            },
        }
    }
    match chars.get(81) {
        None | Some('\t' | ' ' | '\r' | '\n' | ';' | ',') => Ok(g),
        Some(&c) if entry(c).is_some() => Err(err("TooManyCells".into(), "sudoku contains more than 81 cells or is missing comment delimiter".to_string())),
        Some(_) => Err(err("MissingCommentDelimiter".into(), "missing comment delimiter".to_string())),
    }
}

/// lines as `str::lines` defines them
fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    let n = v.len();
    let unterminated = !s.ends_with('\n');
    v.iter_mut().enumerate().for_each(|(i, l)| {
        if i + 1 < n || !unterminated {
            if let Some(x) = l.strip_suffix('\r') {
                *l = x;
            }
        }
    });
    v
}

pub fn read_block(s: &str) -> Result<Grid, RErr> {
    #[derive(Clone, Copy, PartialEq)]
    enum Layout {
        Bare,
        Fields,
    }
    let mut layout: Option<Layout> = None;
    let mut plus: Option<bool> = None;
    let mut g = [0; 81];
    let mut r = 0usize;
    let length = |r: usize| err(format!("InvalidLineLength({})", r), None);
    let delim = || err("IncorrectFieldDelimiter".into(), "inconsistent field delimiters".to_string());
    for (k, l) in lines(s).into_iter().enumerate() {
        if r == 9 {
            if l.trim().is_empty() {
                break;
            }
            return Err(err("TooManyRows".into(), "a sudoku should have 9 rows, found a 10th".to_string()));
        }
        if layout == Some(Layout::Fields) && (k == 3 || k == 7) {
            let is_plus = l.starts_with("---+---+---");
            let is_dash = l.starts_with("-----------");
            match plus {
                None if is_plus || is_dash => plus = Some(is_plus),
                Some(true) if is_plus => {}
                Some(false) if is_dash => {}
                _ => return Err(delim()),
            }
            continue;
        }
        let mut n = 0;
        for (i, ch) in l.chars().enumerate() {
            if n == 9 {
                if ch == ' ' || ch == '\t' {
                    break;
                }
                return Err(if entry(ch).is_some() { length(r) } else { err(format!("MissingCommentDelimiter({})", r), format!("missing comment delimiter in line {}", r)) });
            }
            if i == 3 || i == 7 {
                let lay = *layout.get_or_insert(if ch == '|' { Layout::Fields } else { Layout::Bare });
                if lay == Layout::Fields {
                    if ch != '|' {
                        return Err(delim());
                    }
                    continue;
                }
            }
            match entry(ch) {
                Some(d) => g[r * 9 + n] = d,
                None => return Err(invalid(r * 9 + n, ch)),
            }
            n += 1;
        }
        if n != 9 {
            return Err(length(r));
        }
        r += 1;
    }
    if r < 9 {
        return Err(err(format!("NotEnoughRows({})", r), format!("a sudoku should have 9 rows, found only {}", r)));
    }
    Ok(g)
}

pub fn read_permissive(s: &str) -> Result<Grid, RErr> {
    let mut rows: Vec<Vec<u8>> = vec![];
    for l in lines(s) {
        let e: Vec<u8> = l.chars().filter_map(entry).take(9).collect();
        if e.len() == 9 {
            rows.push(e);
            if rows.len() == 9 {
                let mut g = [0; 81];
                for (c, d) in g.iter_mut().zip(rows.concat()) {
                    *c = d;
                }
                return Ok(g);
            }
        }
    }
    Err(err(format!("NotEnoughRows({})", rows.len()), format!("input ended after {} valid rows", rows.len())))
}

pub fn read(reader: Reader, bytes: &[u8]) -> Result<Grid, RErr> {
    let range = || err("FromBytesError".into(), "byte array contains entries >9".to_string());
    match reader {
        Reader::Line => read_line(&String::from_utf8_lossy(bytes)),
        Reader::Block => read_block(&String::from_utf8_lossy(bytes)),
        Reader::Permissive => read_permissive(&String::from_utf8_lossy(bytes)),
        Reader::Slice | Reader::TrySlice => {
            if bytes.len() != 81 {
                return Err(err(format!("WrongLength({})", bytes.len()), format!("byte slice should have length 81, found {}", bytes.len())));
            }
            if bytes.iter().any(|&b| b > 9) {
                return Err(range());
            }
            Ok(bytes.try_into().unwrap())
        }
        Reader::Array | Reader::TryArray => {
            let a: Grid = std::array::from_fn(|i| bytes.get(i).copied().unwrap_or(0));
            if a.iter().any(|&b| b > 9) {
                return Err(range());
            }
            Ok(a)
        }
    }
}

// ------------------------------------------------------------------ printing

pub fn block(g: &Grid) -> String {
    let mut s = String::new();
    for r in 0..9 {
        s.push('\n');
        if r == 3 || r == 6 {
            s.push('\n');
        }
        for c in 0..9 {
            if c == 3 || c == 6 {
                s.push(' ');
            }
            let d = g[r * 9 + c];
            s.push(if d == 0 { '_' } else { (b'0' + d) as char });
        }
    }
    s
}

/// string formatting rules for `str`
pub fn pad(s: &str, spec: &Spec) -> String {
    let t: String = match spec.prec {
        Some(p) => s.chars().take(p).collect(),
        None => s.into(),
    };
    let n = t.chars().count();
    let w = spec.width.unwrap_or(0);
    if n >= w {
        return t;
    }
    let fill = if spec.align >= 4 { "*" } else { " " };
    let k = w - n;
    let (l, r) = match spec.align {
        0 | 1 | 4 => (0, k),
        2 | 5 => (k, 0),
        _ => (k / 2, k - k / 2),
    };
    format!("{}{}{}", fill.repeat(l), t, fill.repeat(r))
}

/// a set with the smallest element last
pub fn binary(bits: u128, n: u32) -> String {
    let t: String = (0..n).rev().map(|k| if bits >> k & 1 != 0 { '1' } else { '0' }).collect();
    let t = t.trim_start_matches('0');
    if t.is_empty() { "0" } else { t }.into()
}

pub fn cell_text(m: u16) -> String {
    let t: String = (1..=9).filter(|d| m & (1 << d) != 0).map(|d| (b'0' + d as u8) as char).collect();
    if t.is_empty() {
        "_".into()
    } else {
        t
    }
}

/// the candidate table of a session; bit 0 of a cell marks a digit
pub fn table(state: &[u16]) -> String {
    let text: Vec<String> = state.iter().map(|&m| cell_text(m)).collect();
    let widths: Vec<usize> = (0..9).map(|c| (0..9).map(|r| text[r * 9 + c].len()).max().unwrap()).collect();
    let bar: Vec<String> = (0..3).map(|s| "─".repeat(widths[s * 3..s * 3 + 3].iter().sum::<usize>() + 6)).collect();
    let rule = |l: &str, m: &str, r: &str| format!("{}{}{}{}{}{}{}\n", l, bar[0], m, bar[1], m, bar[2], r);
    let mut o = rule("┌", "┬", "┐");
    for r in 0..9 {
        if r == 3 || r == 6 {
            o += &rule("├", "┼", "┤");
        }
        for c in 0..9 {
            if c % 3 == 0 {
                o += "│";
            }
            o += &format!(" {:<w$} ", text[r * 9 + c], w = widths[c]);
        }
        o += "│\n";
    }
    o + &rule("└", "┴", "┘")
}
