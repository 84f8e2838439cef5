//! One uniform face over diffy's `str` and `[u8]` entry points, and the projection of
//! its public objects onto the abstract values of the specification.

use crate::util::*;
use diffy::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------ abstract values

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HL {
    pub k: u8, // b'C' b'D' b'I'
    pub s: Bytes,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct H {
    pub os: u64,
    pub ol: u64,
    pub ns: u64,
    pub nl: u64,
    pub fc: Option<Bytes>,
    pub ls: Vec<HL>,
    pub acc: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct P {
    pub on: Option<Bytes>,
    pub mn: Option<Bytes>,
    pub hunks: Vec<H>,
}

fn clamp(n: u64) -> u64 {
    n.min(1_000_000_000)
}

impl P {
    pub fn json(&self, o: &mut String) {
        o.push_str("{\"on\":");
        jopt(o, &self.on);
        o.push_str(",\"mn\":");
        jopt(o, &self.mn);
        o.push_str(",\"hunks\":");
        json_hunks(o, &self.hunks);
        o.push('}');
    }
}

pub fn json_hunks(o: &mut String, hunks: &[H]) {
    o.push('[');
    for (i, h) in hunks.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!(
            "{{\"os\":{},\"ol\":{},\"ns\":{},\"nl\":{},\"rn\":[\"{}\",\"{}\",\"{}\",\"{}\"],\"acc\":{},\"fc\":",
            clamp(h.os), clamp(h.ol), clamp(h.ns), clamp(h.nl), h.os, h.ol, h.ns, h.nl, h.acc
        ));
        jopt(o, &h.fc);
        o.push_str(",\"ls\":[");
        for (j, l) in h.ls.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            o.push_str("[\"");
            o.push(l.k as char);
            o.push_str("\",");
            jstr(o, &l.s);
            o.push(']');
        }
        o.push_str("]}");
    }
    o.push(']');
}

// ------------------------------------------------------------ call outcomes

/// What a call did: it returned, or it did not return normally.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out<T> {
    Ret(T),
    Panic(String),
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Out::Ret(v),
        Err(e) => Out::Panic(
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default(),
        ),
    }
}

#[derive(Clone, Debug)]
pub struct DOpts {
    pub ctx: Option<usize>,
    pub on: Option<Bytes>,
    pub mn: Option<Bytes>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FOpts {
    pub color: bool,
    pub nl: bool,
    pub sb: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Display,  // Display / to_string, or to_bytes, without a formatter object
    Fmt,      // PatchFormatter::fmt_patch
    Write,    // PatchFormatter::write_patch_into
    Free,     // the crate-level convenience of the respective type
}

#[derive(Clone, Copy, Debug)]
pub struct MOpts {
    pub dflt: bool, // use the free function (7, diff3)
    pub diff3: bool,
    pub len: usize,
}

/// Every other set of options is used before, and set twice: the last setting counts.
fn dopts(d: &DOpts) -> DiffOptions {
    let mut o = if d.ctx.unwrap_or(0) & 2 == 2 { DiffOptions::default() } else { DiffOptions::new() };
    let name = |n: &Option<Bytes>| n.as_ref().map_or(0, |n| n.len());
    if (d.ctx.unwrap_or(0) ^ name(&d.on) ^ name(&d.mn)) & 1 == 1 {
        if d.ctx.is_some() {
            o.set_context_len(7);
        }
        if d.on.is_some() {
            o.set_original_filename("junk 1");
        }
        if d.mn.is_some() {
            o.set_modified_filename("junk 2".to_string());
        }
        let _ = o.create_patch("x\ny\n", "z\n");
    }
    // in any order
    let first = (d.ctx.unwrap_or(0) >> 1) ^ name(&d.on);
    for k in [0, 1, 2, 0, 1].into_iter().skip(first % 3).take(3) {
        match k {
            0 => {
                if let Some(c) = d.ctx {
                    o.set_context_len(c);
                }
            }
            1 => {
                if let Some(n) = &d.on {
                    o.set_original_filename(String::from_utf8(n.clone()).expect("file names are utf8"));
                }
            }
            _ => {
                if let Some(n) = &d.mn {
                    o.set_modified_filename(String::from_utf8(n.clone()).expect("file names are utf8"));
                }
            }
        }
    }
    o
}

fn fopts(f: FOpts) -> PatchFormatter {
    let mut p = if f.sb { PatchFormatter::default() } else { PatchFormatter::new() };
    if f.nl == f.sb {
        p = p.missing_newline_message(!f.nl).suppress_blank_empty(!f.sb);
    }
    if f.color && f.nl {
        p = p.with_color();
    }
    let p = p.missing_newline_message(f.nl).suppress_blank_empty(f.sb);
    if f.color {
        p.with_color()
    } else {
        p
    }
}

fn mopts(m: MOpts) -> MergeOptions {
    let mut o = if m.len & 2 == 2 { MergeOptions::default() } else { MergeOptions::new() };
    if m.len & 1 == 1 {
        o.set_conflict_marker_length(m.len + 3);
        o.set_conflict_style(if m.diff3 { ConflictStyle::Merge } else { ConflictStyle::Diff3 });
        let _ = o.merge_bytes(b"x\n", b"y\n", b"z\n");
    }
    o.set_conflict_marker_length(m.len);
    o.set_conflict_style(if m.diff3 {
        ConflictStyle::Diff3
    } else {
        ConflictStyle::Merge
    });
    o
}

fn err_no(e: ApplyError) -> u64 {
    let s = e.to_string();
    let _ = format!("{e:?} {:?}", std::error::Error::source(&e).is_some());
    let d: String = s
        .chars()
        .rev()
        .take_while(|c| c.is_ascii_digit())
        .collect::<Vec<_>>()
        .into_iter()
        .rev()
        .collect();
    d.parse().unwrap_or(0)
}

/// A writer with little room: it takes at most `chunk` bytes at a time, is interrupted at every
/// `intr`-th call, and takes no byte beyond `room`.
pub struct Narrow {
    pub got: Bytes,
    pub room: Option<usize>,
    pub chunk: usize,
    pub intr: usize,
    pub mode: i64, // beyond the room: 0 an error, 1 nothing taken, 2 an error once, then room again
    pub calls: usize,
    pub failed: bool,
}
impl Narrow {
    fn space(&mut self, want: usize) -> Option<usize> {
        let n = want.min(self.chunk.max(1));
        let Some(room) = self.room else { return Some(n) };
        let k = n.min(room.saturating_sub(self.got.len()));
        if k > 0 || want == 0 {
            return Some(k);
        }
        self.failed = true;
        if self.mode == 2 {
            self.room = None;
        }
        None
    }
}
pub const OWN: std::io::ErrorKind = std::io::ErrorKind::AddrInUse;
impl std::io::Write for Narrow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        match self.space(b.len()) {
            Some(k) => {
                self.got.extend_from_slice(&b[..k]);
                Ok(k)
            }
            None if self.mode == 1 => Ok(0),
            None => Err(std::io::Error::new(OWN, "no room")),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// as a `fmt::Write` it takes whole pieces, or the part there is room for
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        let mut b = s;
        while !b.is_empty() {
            let Some(mut k) = self.space(b.len()) else { return Err(std::fmt::Error) };
            while !b.is_char_boundary(k) {
                k -= 1;
            }
            if k == 0 {
                // the character does not fit into the chunk or the room
                k = b.chars().next().map_or(0, |c| c.len_utf8());
                if self.room.is_some_and(|r| self.got.len() + k > r) {
                    self.failed = true;
                    return Err(std::fmt::Error);
                }
            }
            self.got.extend_from_slice(&b.as_bytes()[..k]);
            b = &b[k..];
        }
        Ok(())
    }
}

/// what came of printing into a writer: `Some(own)` for an error
pub fn io_err(r: std::io::Result<()>, mode: i64) -> Option<bool> {
    let want = if mode == 1 { std::io::ErrorKind::WriteZero } else { OWN };
    r.err().map(|e| e.kind() == want)
}

pub trait Api: 'static {
    type T: ?Sized + ToOwned + AsRef<[u8]> + PartialEq;
    fn view(b: &[u8]) -> Option<&Self::T>;
    fn create<'a>(d: &DOpts, o: &'a Self::T, m: &'a Self::T) -> Patch<'a, Self::T>;
    fn apply(img: &Self::T, p: &Patch<'_, Self::T>) -> Result<Bytes, u64>;
    fn parse(t: &Self::T) -> Result<Patch<'_, Self::T>, String>;
    fn print(via: Via, f: FOpts, p: &Patch<'_, Self::T>) -> Bytes;
    /// print into a writer, as an `io::Write` or (text only) as a `fmt::Write`
    fn write(io: bool, f: FOpts, p: &Patch<'_, Self::T>, w: &mut Narrow) -> Option<bool>;
    fn debug(p: &Patch<'_, Self::T>) -> usize;
    fn merge(m: MOpts, o: &Self::T, a: &Self::T, b: &Self::T) -> Result<Bytes, Bytes>;
    fn same(a: &Patch<'_, Self::T>, b: &Patch<'_, Self::T>) -> bool;
}

pub struct S;
pub struct B;

impl Api for S {
    type T = str;
    fn view(b: &[u8]) -> Option<&str> {
        std::str::from_utf8(b).ok()
    }
    fn create<'a>(d: &DOpts, o: &'a str, m: &'a str) -> Patch<'a, str> {
        if d.ctx.is_none() && d.on.is_none() && d.mn.is_none() {
            create_patch(o, m)
        } else {
            dopts(d).create_patch(o, m)
        }
    }
    fn apply(img: &str, p: &Patch<'_, str>) -> Result<Bytes, u64> {
        diffy::apply(img, p).map(String::into_bytes).map_err(err_no)
    }
    fn parse(t: &str) -> Result<Patch<'_, str>, String> {
        Patch::from_str(t).map_err(|e| format!("{e} {e:?}"))
    }
    fn print(via: Via, f: FOpts, p: &Patch<'_, str>) -> Bytes {
        match via {
            Via::Display => p.to_string().into_bytes(),
            Via::Free => p.to_bytes(),
            Via::Fmt => fopts(f).fmt_patch(p).to_string().into_bytes(),
            Via::Write => {
                let mut v = Vec::new();
                fopts(f).write_patch_into(p, &mut v).expect("write to a Vec");
                v
            }
        }
    }
    fn write(io: bool, f: FOpts, p: &Patch<'_, str>, w: &mut Narrow) -> Option<bool> {
        use std::fmt::Write;
        let mode = w.mode;
        if io {
            io_err(fopts(f).write_patch_into(p, w), mode)
        } else if f.color || !f.nl || !f.sb {
            write!(w, "{}", fopts(f).fmt_patch(p)).err().map(|_| true)
        } else {
            write!(w, "{}", p).err().map(|_| true)
        }
    }
    fn debug(p: &Patch<'_, str>) -> usize {
        let h: usize = p
            .hunks()
            .iter()
            .map(|h| format!("{:?} {:?} {} {}", h, h.old_range(), h.old_range(), h.new_range()).len())
            .sum();
        h + format!("{:?}", p).len() + format!("{:#?}", p).len()
    }
    fn merge(m: MOpts, o: &str, a: &str, b: &str) -> Result<Bytes, Bytes> {
        let r = if m.dflt {
            diffy::merge(o, a, b)
        } else {
            mopts(m).merge(o, a, b)
        };
        r.map(String::into_bytes).map_err(String::into_bytes)
    }
    fn same(a: &Patch<'_, str>, b: &Patch<'_, str>) -> bool {
        a == b
    }
}

impl Api for B {
    type T = [u8];
    fn view(b: &[u8]) -> Option<&[u8]> {
        Some(b)
    }
    fn create<'a>(d: &DOpts, o: &'a [u8], m: &'a [u8]) -> Patch<'a, [u8]> {
        if d.ctx.is_none() && d.on.is_none() && d.mn.is_none() {
            create_patch_bytes(o, m)
        } else {
            dopts(d).create_patch_bytes(o, m)
        }
    }
    fn apply(img: &[u8], p: &Patch<'_, [u8]>) -> Result<Bytes, u64> {
        diffy::apply_bytes(img, p).map_err(err_no)
    }
    fn parse(t: &[u8]) -> Result<Patch<'_, [u8]>, String> {
        Patch::from_bytes(t).map_err(|e| format!("{e} {e:?}"))
    }
    fn print(via: Via, f: FOpts, p: &Patch<'_, [u8]>) -> Bytes {
        match via {
            Via::Display | Via::Free => p.to_bytes(),
            Via::Fmt | Via::Write => {
                let mut v = Vec::new();
                fopts(f).write_patch_into(p, &mut v).expect("write to a Vec");
                v
            }
        }
    }
    fn write(_: bool, f: FOpts, p: &Patch<'_, [u8]>, w: &mut Narrow) -> Option<bool> {
        let mode = w.mode;
        io_err(fopts(f).write_patch_into(p, w), mode)
    }
    fn debug(p: &Patch<'_, [u8]>) -> usize {
        let h: usize = p
            .hunks()
            .iter()
            .map(|h| format!("{:?} {:?} {} {}", h, h.old_range(), h.old_range(), h.new_range()).len())
            .sum();
        h + format!("{:?}", p).len() + format!("{:#?}", p).len()
    }
    fn merge(m: MOpts, o: &[u8], a: &[u8], b: &[u8]) -> Result<Bytes, Bytes> {
        if m.dflt {
            diffy::merge_bytes(o, a, b)
        } else {
            mopts(m).merge_bytes(o, a, b)
        }
    }
    fn same(a: &Patch<'_, [u8]>, b: &Patch<'_, [u8]>) -> bool {
        a == b
    }
}

fn own<T: ?Sized + AsRef<[u8]>>(t: &T) -> Bytes {
    t.as_ref().to_vec()
}

pub fn project<T: ?Sized + ToOwned + AsRef<[u8]>>(p: &Patch<'_, T>) -> P {
    P {
        on: p.original().map(own),
        mn: p.modified().map(own),
        hunks: p.hunks().iter().map(project_hunk).collect(),
    }
}

pub fn project_hunk<T: ?Sized + AsRef<[u8]>>(h: &Hunk<'_, T>) -> H {
    let (o, n) = (h.old_range(), h.new_range());
    // the accessors of a range must tell one story
    let acc = [o, n].iter().all(|r| {
        r.end() == r.start() + r.len()
            && r.range() == (r.start()..r.end())
            && r.is_empty() == (r.len() == 0)
    });
    H {
        os: o.start() as u64,
        ol: o.len() as u64,
        ns: n.start() as u64,
        nl: n.len() as u64,
        fc: h.function_context().map(own),
        ls: h
            .lines()
            .iter()
            .map(|l| match l {
                Line::Context(s) => HL { k: b'C', s: own(*s) },
                Line::Delete(s) => HL { k: b'D', s: own(*s) },
                Line::Insert(s) => HL { k: b'I', s: own(*s) },
            })
            .collect(),
        acc,
    }
}
