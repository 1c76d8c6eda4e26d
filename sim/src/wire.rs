//! Serialisation through faulty transports.
use crate::ctx::{self, lib_catch, Panic};
use crate::ops::{to_lib, Gr};
use bincode::Options;
use serde::{de, forward_to_deserialize_any, Deserialize, Deserializer, Serialize};
use std::io::{self, Read, Write};
use sudoku::Sudoku;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt {
    /// one value; `from_reader`
    Json,
    /// `from_slice` (borrowed text)
    JsonSlice,
    JsonPretty,
    JsonList,
    /// a record with other fields, an option and an untagged enum (buffered by serde)
    JsonRec,
    Bin,
    BinList,
    /// binary through a deserializer that hands over borrowed bytes
    BinBorrowed,
    /// ... that hands over an owned buffer
    BinOwned,
    /// binary without length prefix: the message boundary delimits the bytes
    RawBorrowed,
    RawOwned,
    /// ... that hands over a buffer valid only during the call
    RawTransient,
}
pub const FMTS: [Fmt; 12] = [Fmt::Json, Fmt::JsonSlice, Fmt::JsonPretty, Fmt::JsonList, Fmt::JsonRec, Fmt::Bin, Fmt::BinList, Fmt::BinBorrowed, Fmt::BinOwned, Fmt::RawBorrowed, Fmt::RawOwned, Fmt::RawTransient];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    Flip { at: u32, xor: u8 },
    Set { at: u32, to: u8 },
    Drop { at: u32, len: u32 },
    Dup { at: u32, len: u32 },
    Insert { at: u32, bytes: Vec<u8> },
    Truncate { at: u32 },
    Swap { a: u32, b: u32 },
}

pub fn damage(b: &mut Vec<u8>, d: &Damage) {
    let n = b.len();
    let ix = |a: u32, m: usize| (a as usize).min(m);
    match d {
        Damage::Flip { at, xor } => {
            if n > 0 {
                let i = *at as usize % n;
                b[i] ^= xor;
            }
        }
        Damage::Set { at, to } => {
            if n > 0 {
                let i = *at as usize % n;
                b[i] = *to;
            }
        }
        Damage::Drop { at, len } => {
            let a = ix(*at, n);
            let e = (a + *len as usize).min(n);
            b.drain(a..e);
        }
        Damage::Dup { at, len } => {
            let a = ix(*at, n);
            let e = (a + *len as usize).min(n);
            let c: Vec<u8> = b[a..e].to_vec();
            b.splice(e..e, c);
        }
        Damage::Insert { at, bytes } => {
            let a = ix(*at, n);
            b.splice(a..a, bytes.iter().copied());
        }
        Damage::Truncate { at } => b.truncate(ix(*at, n)),
        Damage::Swap { a, b: c } => {
            if n > 0 {
                b.swap(*a as usize % n, *c as usize % n);
            }
        }
    }
}

/// behaviour of one direction of the transport
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Chan {
    /// sizes of the pieces, cycled; empty: everything at once
    pub chunks: Vec<u32>,
    /// every n-th call is interrupted
    pub eintr: Option<u32>,
    /// hard error when this many bytes have passed
    pub fail_at: Option<u32>,
    /// the failure is `Ok(0)` (full disk) instead of an error; writers only
    pub zero: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct WireOp {
    pub fmt: Fmt,
    pub src: Vec<Gr>,
    pub write: Chan,
    pub damage: Vec<Damage>,
    pub read: Chan,
}

#[derive(Clone, Debug, PartialEq)]
pub struct WireOut {
    pub write_ok: bool,
    pub written: Vec<u8>,
    /// cells as read; raw, so any garbage shows
    pub read: Option<Result<Vec<Vec<u8>>, String>>,
    pub fired: Fired,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Fired {
    pub short: u32,
    pub eintr: u32,
    pub hard: u32,
}

pub struct ChanState<'a> {
    c: &'a Chan,
    calls: u32,
    passed: usize,
    fired: Fired,
}
impl<'a> ChanState<'a> {
    fn new(c: &'a Chan) -> Self {
        ChanState { c, calls: 0, passed: 0, fired: Fired::default() }
    }
    /// how many bytes may pass now
    fn step(&mut self, want: usize) -> io::Result<usize> {
        ctx::yield_at("transport");
        self.calls += 1;
        if let Some(n) = self.c.eintr {
            if self.calls % (n.max(1) + 1) == n.max(1) {
                self.fired.eintr += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let mut n = want;
        if !self.c.chunks.is_empty() {
            let k = self.c.chunks[self.calls as usize % self.c.chunks.len()].max(1) as usize;
            if k < n {
                n = k;
                self.fired.short += 1;
            }
        }
        if let Some(f) = self.c.fail_at {
            let room = (f as usize).saturating_sub(self.passed);
            if room == 0 && want > 0 {
                self.fired.hard += 1;
                return if self.c.zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "injected")) };
            }
            n = n.min(room);
        }
        self.passed += n;
        Ok(n)
    }
}

struct W<'a> {
    st: ChanState<'a>,
    out: Vec<u8>,
}
impl Write for W<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        ctx::harness(|| {
            let n = self.st.step(b.len())?;
            self.out.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// leaves out the length prefix
struct NoPrefix<'a, 'b>(&'a mut W<'b>, usize);
impl Write for NoPrefix<'_, '_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.1 < 8 {
            let n = b.len().min(8 - self.1);
            self.1 += n;
            return Ok(n);
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct R<'a> {
    st: ChanState<'a>,
    data: &'a [u8],
}
impl Read for R<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        ctx::harness(|| {
            let want = b.len().min(self.data.len());
            if want == 0 {
                // an error instead of the end of the data, if one is due
                if !b.is_empty() && !self.st.c.zero && matches!(self.st.c.fail_at, Some(f) if self.st.passed >= f as usize) {
                    self.st.fired.hard += 1;
                    return Err(io::Error::new(io::ErrorKind::Other, "injected"));
                }
                return Ok(0);
            }
            let n = self.st.step(want)?;
            b[..n].copy_from_slice(&self.data[..n]);
            self.data = &self.data[n..];
            Ok(n)
        })
    }
}

#[derive(Serialize, Deserialize)]
pub struct Rec<S> {
    pub id: u32,
    pub grid: S,
    pub maybe: Option<S>,
    pub any: Any<S>,
    #[serde(flatten)]
    pub extra: Extra<S>,
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
pub enum Any<S> {
    Num(u32),
    Grid(S),
}
#[derive(Serialize, Deserialize)]
pub struct Extra<S> {
    pub hint: S,
}

pub fn bin() -> impl Options {
    bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 16)
}

enum Bytes<'a> {
    Borrowed(&'a [u8]),
    Owned(Vec<u8>),
    Transient(&'a [u8]),
}
struct RawDe<'a>(Bytes<'a>);
impl<'de> Deserializer<'de> for RawDe<'de> {
    type Error = de::value::Error;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self.0 {
            Bytes::Borrowed(b) => v.visit_borrowed_bytes(b),
            Bytes::Owned(b) => v.visit_byte_buf(b),
            Bytes::Transient(b) => v.visit_bytes(b),
        }
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

fn raw(s: Sudoku) -> Vec<u8> {
    s.to_bytes().to_vec()
}

pub fn rec_of<S: Copy>(v: &[S]) -> Rec<S> {
    let g = |i: usize| v[i % v.len()];
    Rec { id: 7, grid: g(0), maybe: if v.len() > 1 { Some(g(1)) } else { None }, any: if v.len() > 2 { Any::Grid(g(2)) } else { Any::Num(5) }, extra: Extra { hint: g(v.len() - 1) } }
}
pub fn rec_cells<S>(r: Rec<S>) -> Vec<S> {
    let mut v = vec![r.grid];
    if let Some(m) = r.maybe {
        v.push(m);
    }
    if let Any::Grid(g) = r.any {
        v.push(g);
    }
    v.push(r.extra.hint);
    v
}

pub fn run(op: &WireOp) -> Result<WireOut, Panic> {
    let list: Vec<Sudoku> = op.src.iter().map(to_lib).collect();
    let one = list[0];
    let mut w = W { st: ChanState::new(&op.write), out: vec![] };
    let wr = lib_catch(|| match op.fmt {
        Fmt::Json | Fmt::JsonSlice => serde_json::to_writer(&mut w, &one).is_ok(),
        Fmt::JsonPretty => serde_json::to_writer_pretty(&mut w, &list).is_ok(),
        Fmt::JsonList => serde_json::to_writer(&mut w, &list).is_ok(),
        Fmt::JsonRec => serde_json::to_writer(&mut w, &rec_of(&list)).is_ok(),
        Fmt::Bin | Fmt::BinBorrowed | Fmt::BinOwned => bin().serialize_into(&mut w, &one).is_ok(),
        Fmt::BinList => bin().serialize_into(&mut w, &list).is_ok(),
        Fmt::RawBorrowed | Fmt::RawOwned | Fmt::RawTransient => bin().serialize_into(NoPrefix(&mut w, 0), &one).is_ok(),
    })?;
    let written = w.out.clone();
    let mut out = WireOut { write_ok: wr, written, read: None, fired: w.st.fired.clone() };
    let mut data = w.out;
    for d in &op.damage {
        damage(&mut data, d);
    }
    let mut r = R { st: ChanState::new(&op.read), data: &data };
    let es = |e: &dyn std::fmt::Display| e.to_string();
    let res = lib_catch(|| -> Result<Vec<Vec<u8>>, String> {
        match op.fmt {
            Fmt::Json => serde_json::from_reader::<_, Sudoku>(&mut r).map(|s| vec![raw(s)]).map_err(|e| es(&e)),
            Fmt::JsonSlice => serde_json::from_slice::<Sudoku>(&data).map(|s| vec![raw(s)]).map_err(|e| es(&e)),
            Fmt::JsonPretty | Fmt::JsonList => serde_json::from_reader::<_, Vec<Sudoku>>(&mut r).map(|s| s.into_iter().map(raw).collect()).map_err(|e| es(&e)),
            Fmt::JsonRec => serde_json::from_reader::<_, Rec<Sudoku>>(&mut r).map(|s| rec_cells(s).into_iter().map(raw).collect()).map_err(|e| es(&e)),
            Fmt::Bin => bin().deserialize_from::<_, Sudoku>(&mut r).map(|s| vec![raw(s)]).map_err(|e| es(&e)),
            Fmt::BinList => bin().deserialize_from::<_, Vec<Sudoku>>(&mut r).map(|s| s.into_iter().map(raw).collect()).map_err(|e| es(&e)),
            Fmt::BinBorrowed => match unframe(&data) {
                Some(b) => Sudoku::deserialize(RawDe(Bytes::Borrowed(b))).map(|s| vec![raw(s)]).map_err(|e| es(&e)),
                None => Err("frame".into()),
            },
            Fmt::BinOwned => match unframe(&data) {
                Some(b) => Sudoku::deserialize(RawDe(Bytes::Owned(b.to_vec()))).map(|s| vec![raw(s)]).map_err(|e| es(&e)),
                None => Err("frame".into()),
            },
            Fmt::RawBorrowed => Sudoku::deserialize(RawDe(Bytes::Borrowed(&data))).map(|s| vec![raw(s)]).map_err(|e| es(&e)),
            Fmt::RawOwned => Sudoku::deserialize(RawDe(Bytes::Owned(data.clone()))).map(|s| vec![raw(s)]).map_err(|e| es(&e)),
            Fmt::RawTransient => Sudoku::deserialize(RawDe(Bytes::Transient(&data))).map(|s| vec![raw(s)]).map_err(|e| es(&e)),
        }
    })?;
    out.fired.short += r.st.fired.short;
    out.fired.eintr += r.st.fired.eintr;
    out.fired.hard += r.st.fired.hard;
    out.read = Some(res);
    Ok(out)
}

pub fn unframe(data: &[u8]) -> Option<&[u8]> {
    if data.len() < 8 {
        return None;
    }
    let n = u64::from_le_bytes(data[..8].try_into().unwrap());
    if n > (data.len() - 8) as u64 {
        return None;
    }
    Some(&data[8..8 + n as usize])
}

// ---------------------------------------------------------------- reference

/// exact bytes that must be written
pub fn expected_bytes(op: &WireOp) -> Vec<u8> {
    let lines: Vec<String> = op.src.iter().map(|g| crate::refs::line(&g.0)).collect();
    let frame = |g: &Gr| {
        let mut v = 81u64.to_le_bytes().to_vec();
        v.extend_from_slice(&g.0);
        v
    };
    match op.fmt {
        Fmt::Json | Fmt::JsonSlice => format!("\"{}\"", lines[0]).into_bytes(),
        Fmt::JsonPretty => serde_json::to_vec_pretty(&lines).unwrap(),
        Fmt::JsonList => serde_json::to_vec(&lines).unwrap(),
        Fmt::JsonRec => {
            let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
            serde_json::to_vec(&rec_of(&l)).unwrap()
        }
        Fmt::Bin | Fmt::BinBorrowed | Fmt::BinOwned => frame(&op.src[0]),
        Fmt::RawBorrowed | Fmt::RawOwned | Fmt::RawTransient => op.src[0].0.to_vec(),
        Fmt::BinList => {
            let mut v = (op.src.len() as u64).to_le_bytes().to_vec();
            for g in &op.src {
                v.extend(frame(g));
            }
            v
        }
    }
}

/// what reading `data` must yield
pub fn expected_read(op: &WireOp, data: &[u8]) -> Result<Vec<Vec<u8>>, ()> {
    let line = |s: &String| -> Result<Vec<u8>, ()> { crate::text::read_line(s).map_err(|_| ()).map(|g| g.to_vec()) };
    let limited: &[u8] = match op.read.fail_at {
        Some(n) => &data[..data.len().min(n as usize)],
        None => data,
    };
    // an early end only hides what follows, an error is fatal even behind the last byte
    let json_cut = !op.read.zero && matches!(op.read.fail_at, Some(f) if f as usize <= data.len());
    let cells = |b: &[u8]| -> Result<Vec<u8>, ()> {
        if b.len() == 81 && b.iter().all(|&x| x <= 9) {
            Ok(b.to_vec())
        } else {
            Err(())
        }
    };
    match op.fmt {
        Fmt::Json if json_cut => Err(()),
        Fmt::JsonList | Fmt::JsonPretty | Fmt::JsonRec if json_cut => Err(()),
        Fmt::Json | Fmt::JsonSlice => {
            let s: String = serde_json::from_slice(if matches!(op.fmt, Fmt::Json) { limited } else { data }).map_err(|_| ())?;
            Ok(vec![line(&s)?])
        }
        Fmt::JsonList | Fmt::JsonPretty => {
            let v: Vec<String> = serde_json::from_slice(limited).map_err(|_| ())?;
            v.iter().map(line).collect()
        }
        Fmt::JsonRec => {
            let r: Rec<String> = serde_json::from_slice(limited).map_err(|_| ())?;
            rec_cells(r).iter().map(line).collect()
        }
        Fmt::Bin => Ok(vec![cells(unframe(limited).ok_or(())?)?]),
        Fmt::BinBorrowed | Fmt::BinOwned => Ok(vec![cells(unframe(data).ok_or(())?)?]),
        Fmt::RawBorrowed | Fmt::RawOwned | Fmt::RawTransient => Ok(vec![cells(data)?]),
        Fmt::BinList => {
            if limited.len() < 8 {
                return Err(());
            }
            let n = u64::from_le_bytes(limited[..8].try_into().unwrap());
            let mut rest = &limited[8..];
            let mut v = vec![];
            for _ in 0..n {
                let b = unframe(rest).ok_or(())?;
                v.push(cells(b)?);
                rest = &rest[8 + b.len()..];
            }
            Ok(v)
        }
    }
}
