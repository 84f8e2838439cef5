//! Programs (sequences of calls) and the session that runs one against the real library,
//! writing down every call with its arguments and result.

use crate::api::*;
use crate::scout;
use crate::util::*;
use diffy::Patch;
use std::collections::HashMap;

/// One call.  `k` names it, `n` and `b` are its numbers and byte strings (see `Sess::step`).
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: String,
    pub n: Vec<i64>,
    pub b: Vec<Bytes>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Prog {
    pub tag: String,
    pub ops: Vec<Op>,
    nt: i64,
    np: i64,
    nd: i64,
}

pub const API_S: i64 = 0;
pub const API_B: i64 = 1;
/// the text interface on a byte string written one character per byte
pub const API_L: i64 = 2;
pub const API: [&str; 3] = ["s", "b", "l"];

/// Context lengths that do not fit the log's integers are written as negative codes.
pub fn ctx_of(c: i64) -> Option<usize> {
    match c {
        -1 => None,
        -2 => Some(usize::MAX),
        -3 => Some(usize::MAX - 1),
        -4 => Some(usize::MAX / 2),
        -5 => Some(usize::MAX / 2 + 1),
        -6 => Some(1usize << 32),
        c => Some(c as usize),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Pr {
    pub color: bool,
    pub nl: bool,
    pub sb: bool,
    pub via: i64, // 0 Display/to_bytes, 1 free, 2 fmt, 3 write
}
pub const PLAIN: Pr = Pr { color: false, nl: true, sb: true, via: 0 };

impl Prog {
    pub fn new(tag: &str) -> Prog {
        Prog { tag: tag.to_string(), ..Default::default() }
    }
    fn push(&mut self, k: &str, n: Vec<i64>, b: Vec<Bytes>) {
        self.ops.push(Op { k: k.to_string(), n, b });
    }
    pub fn text(&mut self, b: &[u8]) -> i64 {
        self.nt += 1;
        self.push("text", vec![self.nt], vec![b.to_vec()]);
        self.nt
    }
    pub fn diff(&mut self, api: i64, o: i64, m: i64, ctx: i64) -> i64 {
        self.diffx(api, o, m, ctx, None, None, -1)
    }
    pub fn diffx(&mut self, api: i64, o: i64, m: i64, ctx: i64, on: Option<&[u8]>, mn: Option<&[u8]>, w: i64) -> i64 {
        self.np += 1;
        let b = vec![on.unwrap_or(b"").to_vec(), mn.unwrap_or(b"").to_vec()];
        self.push("diff", vec![self.np, o, m, ctx, api, w, on.is_some() as i64, mn.is_some() as i64], b);
        self.np
    }
    pub fn rev(&mut self, p: i64) -> i64 {
        self.np += 1;
        self.push("rev", vec![self.np, p], vec![]);
        self.np
    }
    pub fn look(&mut self, p: i64) {
        self.push("look", vec![p], vec![]);
    }
    pub fn apply(&mut self, i: i64, p: i64) -> i64 {
        self.nt += 1;
        self.push("apply", vec![self.nt, i, p], vec![]);
        self.nt
    }
    pub fn commute(&mut self, o: i64, p: i64, q: i64, pq: i64, qp: i64) {
        self.push("commute", vec![o, p, q, pq, qp], vec![]);
    }
    pub fn print(&mut self, p: i64, f: Pr) -> i64 {
        self.nd += 1;
        self.push("print", vec![self.nd, p, f.color as i64, f.nl as i64, f.sb as i64, f.via], vec![]);
        self.nd
    }
    /// print into a writer of `room` bytes (-1: enough) that takes `chunk` bytes at a time
    pub fn write(&mut self, p: i64, f: Pr, w: [i64; 4]) {
        self.push("write", vec![p, f.color as i64, f.nl as i64, f.sb as i64, f.via, w[0], w[1], w[2], w[3]], vec![]);
    }
    pub fn copy(&mut self, p: i64) -> i64 {
        self.np += 1;
        self.push("copy", vec![self.np, p], vec![]);
        self.np
    }
    pub fn doc(&mut self, b: &[u8]) -> i64 {
        self.nd += 1;
        self.push("doc", vec![self.nd], vec![b.to_vec()]);
        self.nd
    }
    pub fn parse(&mut self, api: i64, d: i64) -> i64 {
        self.np += 1;
        self.push("parse", vec![self.np, d, api], vec![]);
        self.np
    }
    pub fn same(&mut self, p: i64, q: i64) {
        self.push("same", vec![p, q], vec![]);
    }
    pub fn merge(&mut self, api: i64, o: i64, a: i64, b: i64, dflt: bool, diff3: bool, len: i64) {
        self.push("merge", vec![o, a, b, dflt as i64, diff3 as i64, len, api], vec![]);
    }
    pub fn big(&mut self, what: &str, n: Vec<i64>) {
        self.push("big", n, vec![what.as_bytes().to_vec()]);
    }

    pub fn json(&self) -> String {
        let mut o = String::from("{\"tag\":");
        jstr(&mut o, self.tag.as_bytes());
        o.push_str(",\"ops\":[");
        for (i, op) in self.ops.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str("{\"k\":\"");
            o.push_str(&op.k);
            o.push_str("\",\"n\":[");
            o.push_str(&op.n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            o.push_str("],\"b\":[");
            for (j, b) in op.b.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                jstr(&mut o, b);
            }
            o.push_str("]}");
        }
        o.push_str("]}");
        o
    }
    pub fn from_json(s: &str) -> Option<Prog> {
        let j = jparse(s)?;
        let mut p = Prog::new(&String::from_utf8_lossy(&j.get("tag")?.bytes()));
        for op in j.get("ops")?.arr() {
            p.ops.push(Op {
                k: String::from_utf8(op.get("k")?.bytes()).ok()?,
                n: op.get("n")?.arr().iter().map(|x| x.num()).collect(),
                b: op.get("b")?.arr().iter().map(|x| x.bytes()).collect(),
            });
        }
        Some(p)
    }
    /// rough size, for preferring small suspects
    pub fn size(&self) -> usize {
        self.ops.iter().map(|o| 4 + o.b.iter().map(|b| b.len()).sum::<usize>()).sum()
    }
}

// ------------------------------------------------------------------ session

#[derive(Clone, Copy)]
enum PV {
    S(&'static Patch<'static, str>),
    B(&'static Patch<'static, [u8]>),
    L(&'static Patch<'static, str>),
}
enum Own {
    T(*mut [u8]),
    S(*mut Patch<'static, str>),
    B(*mut Patch<'static, [u8]>),
}

#[derive(Clone)]
struct Abs {
    p: P,
    org: Option<(Bytes, Bytes)>,
    via: u8, // b'd' b'r' b'p' b'o'
}

struct Doc {
    b: &'static [u8],
    src: Option<(i64, FOpts)>,
}

pub struct Sess<'a> {
    prop: &'a str,
    off: i64,
    texts: HashMap<i64, &'static [u8]>,
    pats: HashMap<i64, PV>,
    abs: HashMap<i64, Abs>,
    docs: HashMap<i64, Doc>,
    merges: Vec<(i64, i64, i64, bool, usize, Result<Bytes, Bytes>)>,
    own: Vec<Own>,
    pub log: Vec<String>,
    pub suspect: bool,
    pub class: String, // a label for stratified sampling
    pub calls: usize,
    memo: HashMap<String, Vec<(i64, String)>>, // equal calls and their results
}

thread_local! {
    static ROOM: std::cell::RefCell<(Vec<u8>, usize)> = const { std::cell::RefCell::new((Vec::new(), 0)) };
}

/// runs `f` several times over, with the texts of its program at the same addresses each time
pub fn in_place<T>(f: &mut dyn FnMut(usize) -> T, times: usize) -> Vec<T> {
    ROOM.with(|r| r.borrow_mut().0 = vec![0; 1 << 20]);
    let v = (0..times)
        .map(|i| {
            ROOM.with(|r| r.borrow_mut().1 = 0);
            f(i)
        })
        .collect();
    ROOM.with(|r| *r.borrow_mut() = (Vec::new(), 0));
    v
}

impl Drop for Sess<'_> {
    fn drop(&mut self) {
        self.pats.clear();
        // newest first: a reversed patch borrows from the patch it was made from,
        // patches borrow from texts
        while let Some(o) = self.own.pop() {
            // SAFETY: every pointer came from Box::into_raw, and nothing borrows from it any more
            unsafe {
                match o {
                    Own::T(p) => drop(Box::from_raw(p)),
                    Own::S(p) => drop(Box::from_raw(p)),
                    Own::B(p) => drop(Box::from_raw(p)),
                }
            }
        }
    }
}

fn json_r(o: &mut String, st: &str, rest: &str) {
    o.push_str(",\"r\":{\"st\":\"");
    o.push_str(st);
    o.push('"');
    o.push_str(rest);
    o.push_str("}}");
}

fn json_panic(o: &mut String, msg: &str) {
    let mut r = String::from(",\"msg\":");
    jstr(&mut r, msg.as_bytes());
    json_r(o, "panic", &r);
}

impl<'a> Sess<'a> {
    pub fn new(prop: &'a str, off: i64) -> Self {
        Sess {
            prop,
            off,
            texts: HashMap::new(),
            pats: HashMap::new(),
            abs: HashMap::new(),
            docs: HashMap::new(),
            merges: Vec::new(),
            own: Vec::new(),
            log: Vec::new(),
            suspect: false,
            class: String::new(),
            calls: 0,
            memo: HashMap::new(),
        }
    }
    /// a text or document of the program; within `in_place`, at the same address in every run
    fn take_in(&mut self, b: &[u8]) -> &'static [u8] {
        let at = ROOM.with(|r| {
            let mut r = r.borrow_mut();
            let at = r.1;
            if r.0.len() - at < b.len() {
                return None;
            }
            r.1 += (b.len() + 15) / 16 * 16;
            r.1 = r.1.min(r.0.len());
            r.0[at..at + b.len()].copy_from_slice(b);
            Some(&r.0[at..at + b.len()] as *const [u8])
        });
        match at {
            // SAFETY: `in_place` empties the room after the runner and all that borrows from it
            Some(p) => unsafe { &*p },
            None => self.hold(b),
        }
    }
    fn hold(&mut self, b: &[u8]) -> &'static [u8] {
        let p = Box::into_raw(b.to_vec().into_boxed_slice());
        self.own.push(Own::T(p));
        // SAFETY: freed only in drop, after everything that borrows from it
        unsafe { &*p }
    }
    fn hold_s(&mut self, p: Patch<'static, str>, api: i64) -> PV {
        let p = Box::into_raw(Box::new(p));
        self.own.push(Own::S(p));
        let p = unsafe { &*p };
        if api == API_L { PV::L(p) } else { PV::S(p) }
    }
    /// the text a call through `api` is given for these bytes
    fn view(&mut self, api: i64, t: &'static [u8]) -> Option<&'static str> {
        if api == API_L {
            let t = self.hold(latin(t).as_bytes());
            S::view(t)
        } else {
            S::view(t)
        }
    }
    fn hold_b(&mut self, p: Patch<'static, [u8]>) -> PV {
        let p = Box::into_raw(Box::new(p));
        self.own.push(Own::B(p));
        PV::B(unsafe { &*p })
    }
    fn flag(&mut self, prop: &str, ok: bool) {
        if !ok && (self.prop == prop || self.prop == "ALL") {
            self.suspect = true;
        }
    }

    pub fn run(&mut self, p: &Prog) {
        for op in &p.ops {
            self.step(op);
        }
    }

    pub fn step(&mut self, op: &Op) {
        let n = |i: usize| op.n[i];
        let f = self.off;
        let mut o = String::new();
        match op.k.as_str() {
            "text" => {
                let t = self.take_in(&op.b[0]);
                self.texts.insert(n(0), t);
                o.push_str(&format!("{{\"op\":\"text\",\"t\":{},\"ls\":", n(0) + f));
                jlines(&mut o, t);
                o.push('}');
            }
            "doc" => {
                let t = self.take_in(&op.b[0]);
                self.docs.insert(n(0), Doc { b: t, src: None });
                o.push_str(&format!("{{\"op\":\"doc\",\"d\":{},\"ls\":", n(0) + f));
                jlines(&mut o, t);
                o.push('}');
            }
            "diff" => {
                let (Some(&t1), Some(&t2)) = (self.texts.get(&n(1)), self.texts.get(&n(2))) else { return };
                let ctx = ctx_of(n(3));
                let d = DOpts {
                    ctx,
                    on: (n(6) != 0).then(|| op.b[0].clone()),
                    mn: (n(7) != 0).then(|| op.b[1].clone()),
                };
                let r = if n(4) != API_B {
                    let (Some(a), Some(b)) = (self.view(n(4), t1), self.view(n(4), t2)) else { return };
                    let lat = |x: &Bytes| latin(x).into_bytes();
                    let e = if n(4) == API_L {
                        DOpts { ctx, on: d.on.as_ref().map(lat), mn: d.mn.as_ref().map(lat) }
                    } else {
                        DOpts { ctx, on: d.on.clone(), mn: d.mn.clone() }
                    };
                    match guard(|| S::create(&e, a, b)) {
                        Out::Ret(p) => Out::Ret(self.hold_s(p, n(4))),
                        Out::Panic(e) => Out::Panic(e),
                    }
                } else {
                    match guard(|| B::create(&d, t1, t2)) {
                        Out::Ret(p) => Out::Ret(self.hold_b(p)),
                        Out::Panic(e) => Out::Panic(e),
                    }
                };
                self.calls += 1;
                o.push_str(&format!(
                    "{{\"op\":\"diff\",\"p\":{},\"o\":{},\"m\":{},\"ctx\":{},\"api\":\"{}\",\"w\":[{}],\"on\":",
                    n(0) + f,
                    n(1) + f,
                    n(2) + f,
                    ctx.unwrap_or(3).min(1_000_000_000),
                    API[n(4) as usize],
                    if n(5) < 0 { String::new() } else { n(5).to_string() }
                ));
                jopt(&mut o, &Some(d.on.clone().unwrap_or(b"original".to_vec())));
                o.push_str(",\"mn\":");
                jopt(&mut o, &Some(d.mn.clone().unwrap_or(b"modified".to_vec())));
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(v) => {
                        let p = self.project(v);
                        let mut j = String::from(",\"p\":");
                        p.json(&mut j);
                        json_r(&mut o, "ok", &j);
                        if self.class.is_empty() {
                            self.class = format!("h{}", p.hunks.len().min(3));
                        }
                        match self.prop {
                            "P03" | "P04" | "P05" | "ALL" => {
                                let tr = scout::truthful(&p, t1, t2);
                                self.flag("P03", tr);
                                self.flag("P04", tr && scout::context_ok(&p, t1, ctx.unwrap_or(3)));
                                if !matches!(self.prop, "P03" | "P04") {
                                    let (a, b) = (lines(t1), lines(t2));
                                    let best = if n(5) >= 0 {
                                        n(5) as usize
                                    } else {
                                        a.len() + b.len() - 2 * scout::lcs(&a, &b)
                                    };
                                    self.flag("P05", scout::cost(&p) <= best);
                                }
                            }
                            _ => {}
                        }
                        self.flag(
                            "P20",
                            p.on == Some(d.on.unwrap_or(b"original".to_vec()))
                                && p.mn == Some(d.mn.unwrap_or(b"modified".to_vec())),
                        );
                        self.abs.insert(n(0), Abs { p, org: Some((t1.to_vec(), t2.to_vec())), via: b'd' });
                        self.pats.insert(n(0), v);
                    }
                }
            }
            "rev" => {
                let Some(&v) = self.pats.get(&n(1)) else { return };
                let from = self.abs[&n(1)].clone();
                self.calls += 1;
                let hs = |p: &P| P { on: None, mn: None, hunks: p.hunks.clone() };
                let r = guard(|| match v {
                    PV::S(p) | PV::L(p) => {
                        let hunks: Vec<_> = p.hunks().iter().map(|h| h.reverse()).collect();
                        (Ok(p.reverse()), hunks.iter().map(|h| project_hunk(h)).collect::<Vec<_>>())
                    }
                    PV::B(p) => {
                        let hunks: Vec<_> = p.hunks().iter().map(|h| h.reverse()).collect();
                        (Err(p.reverse()), hunks.iter().map(|h| project_hunk(h)).collect::<Vec<_>>())
                    }
                });
                o.push_str(&format!("{{\"op\":\"rev\",\"q\":{},\"p\":{}", n(0) + f, n(1) + f));
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret((q, mut hp)) => {
                        let lat = matches!(v, PV::L(_));
                        if lat {
                            hp.iter_mut().for_each(unlatin_hunk);
                        }
                        let v = match q {
                            Ok(q) => self.hold_s(q, if lat { API_L } else { API_S }),
                            Err(q) => self.hold_b(q),
                        };
                        let p = self.project(v);
                        let mut j = String::from(",\"p\":");
                        p.json(&mut j);
                        j.push_str(",\"hs\":");
                        json_hunks(&mut j, &hp);
                        json_r(&mut o, "ok", &j);
                        let want = scout::reversed(&from.p);
                        self.flag("P02", p == want && hp == hs(&want).hunks);
                        self.abs.insert(
                            n(0),
                            Abs {
                                p,
                                org: from.org.map(|(a, b)| (b, a)),
                                via: if from.via == b'd' { b'r' } else { b'o' },
                            },
                        );
                        self.pats.insert(n(0), v);
                    }
                }
            }
            "look" => {
                let Some(&v) = self.pats.get(&n(0)) else { return };
                o.push_str(&format!("{{\"op\":\"look\",\"p\":{}", n(0) + f));
                let shown = guard(|| match v {
                    PV::S(p) | PV::L(p) => S::debug(p),
                    PV::B(p) => B::debug(p),
                });
                match shown {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(_) => {
                        let p = self.project(v);
                        let mut j = String::from(",\"p\":");
                        p.json(&mut j);
                        json_r(&mut o, "ok", &j);
                        let ok = p == self.abs[&n(0)].p;
                        self.flag("P18", ok);
                    }
                }
            }
            "copy" => {
                let Some(&v) = self.pats.get(&n(1)) else { return };
                let r = guard(|| match v {
                    PV::S(p) | PV::L(p) => Ok(p.clone()),
                    PV::B(p) => Err(p.clone()),
                });
                self.calls += 1;
                o.push_str(&format!("{{\"op\":\"copy\",\"q\":{},\"p\":{}", n(0) + f, n(1) + f));
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(q) => {
                        let v = match q {
                            Ok(q) => self.hold_s(q, if matches!(v, PV::L(_)) { API_L } else { API_S }),
                            Err(q) => self.hold_b(q),
                        };
                        let p = self.project(v);
                        let mut j = String::from(",\"p\":");
                        p.json(&mut j);
                        json_r(&mut o, "ok", &j);
                        let from = self.abs[&n(1)].clone();
                        self.flag("P18", p == from.p);
                        self.abs.insert(n(0), Abs { p, ..from });
                        self.pats.insert(n(0), v);
                    }
                }
            }
            "write" => {
                let Some(&v) = self.pats.get(&n(0)) else { return };
                let fo = FOpts { color: n(1) != 0, nl: n(2) != 0, sb: n(3) != 0 };
                let io = n(4) != 0 || matches!(v, PV::B(_));
                let mut w = Narrow {
                    got: Vec::new(),
                    room: (n(5) >= 0).then_some(n(5) as usize),
                    chunk: n(6) as usize,
                    // a writer interrupted at every call would be waited for forever
                    intr: if n(7) == 1 { 2 } else { n(7) as usize },
                    mode: n(8),
                    calls: 0,
                    failed: false,
                };
                let r = guard(|| match v {
                    PV::S(p) | PV::L(p) => S::write(io, fo, p, &mut w),
                    PV::B(p) => B::write(io, fo, p, &mut w),
                });
                self.calls += 1;
                o.push_str(&format!(
                    "{{\"op\":\"write\",\"p\":{},\"f\":{{\"color\":{},\"nl\":{},\"sb\":{}}},\"io\":{},\"room\":{},\"chunk\":{},\"intr\":{},\"mode\":{}",
                    n(0) + f, fo.color, fo.nl, fo.sb, io, n(5), n(6), n(7), n(8)
                ));
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(r) => {
                        let mut got = w.got;
                        if matches!(v, PV::L(_)) {
                            // a character cut in two was no byte of the text
                            while std::str::from_utf8(&got).is_err() {
                                got.pop();
                            }
                            got = unlatin(got);
                        }
                        let mut j = format!(",\"failed\":{},\"own\":{},\"ls\":", w.failed, r != Some(false));
                        jlines(&mut j, &got);
                        json_r(&mut o, if r.is_none() { "ok" } else { "err" }, &j);
                        if !fo.color {
                            let want = scout::print(&self.abs[&n(0)].p, fo);
                            let ok = want.starts_with(&got)
                                && (r.is_none() || w.failed)
                                && r != Some(false)
                                && (r.is_some() || want == got);
                            self.flag("P22", ok);
                        } else if let Some(d) = self.docs.values().find(|d| {
                            d.src.is_some_and(|(i, g)| g == fo && self.abs[&i].p == self.abs[&n(0)].p)
                        }) {
                            let ok = d.b.starts_with(&got)
                                && (r.is_none() || w.failed)
                                && r != Some(false)
                                && (r.is_some() || d.b == got);
                            self.flag("P22", ok);
                        }
                        let sign = if r.is_none() { '+' } else { '-' };
                        if !self.class.contains(sign) {
                            self.class.push(sign);
                        }
                    }
                }
            }
            "apply" => {
                let (Some(&t), Some(&v)) = (self.texts.get(&n(1)), self.pats.get(&n(2))) else { return };
                let r = match v {
                    PV::S(p) => {
                        let Some(t) = S::view(t) else { return };
                        guard(|| S::apply(t, p))
                    }
                    PV::L(p) => {
                        let t = latin(t);
                        guard(|| S::apply(&t, p).map(unlatin))
                    }
                    PV::B(p) => guard(|| B::apply(t, p)),
                };
                self.calls += 1;
                let q = self.abs[&n(2)].clone();
                o.push_str(&format!("{{\"op\":\"apply\",\"t\":{},\"i\":{},\"p\":{}", n(0) + f, n(1) + f, n(2) + f));
                let same_base = q.org.as_ref().map_or(false, |g| g.0 == t);
                let target = q.org.as_ref().map(|g| g.1.clone());
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(r) => {
                        if same_base {
                            let ok = r.as_ref().ok() == target.as_ref();
                            self.flag("P21", ok);
                            if q.via == b'd' {
                                self.flag("P01", ok);
                            }
                            if q.via == b'r' {
                                self.flag("P02", ok);
                            }
                        }
                        if matches!(self.prop, "P10" | "P11" | "ALL") {
                            let near = scout::apply_near(t, &q.p).contains(&r);
                            self.flag("P10", near);
                            self.flag("P11", near);
                        }
                        match r {
                            Ok(x) => {
                                let x = self.hold(&x);
                                self.texts.insert(n(0), x);
                                let mut j = String::from(",\"ls\":");
                                jlines(&mut j, x);
                                json_r(&mut o, "ok", &j);
                                self.class.push('+');
                            }
                            Err(h) => {
                                json_r(&mut o, "err", &format!(",\"h\":{}", h));
                                self.class.push('-');
                            }
                        }
                    }
                }
            }
            "commute" => {
                if !(self.texts.contains_key(&n(0)) && self.pats.contains_key(&n(1)) && self.pats.contains_key(&n(2))) {
                    return;
                }
                let id = |x: i64| if self.texts.contains_key(&x) { x + f } else { 0 };
                o.push_str(&format!(
                    "{{\"op\":\"commute\",\"o\":{},\"p\":{},\"q\":{},\"pq\":{},\"qp\":{}}}",
                    n(0) + f,
                    n(1) + f,
                    n(2) + f,
                    id(n(3)),
                    id(n(4))
                ));
                let same = self.texts.get(&n(3)) == self.texts.get(&n(4)) && self.texts.contains_key(&n(3));
                let sure = match (self.texts.get(&n(0)), self.abs.get(&n(1)), self.abs.get(&n(2))) {
                    (Some(o), Some(p), Some(q)) => scout::independent(o, (&p.p, &p.org), (&q.p, &q.org)),
                    _ => false,
                };
                self.class = if sure { "sure" } else { "unsure" }.into();
                self.flag("P21", same || !sure);
            }
            "print" => {
                let Some(&v) = self.pats.get(&n(1)) else { return };
                let fo = FOpts { color: n(2) != 0, nl: n(3) != 0, sb: n(4) != 0 };
                let via = [Via::Display, Via::Free, Via::Fmt, Via::Write][n(5) as usize];
                let r = guard(|| match v {
                    PV::S(p) => S::print(via, fo, p),
                    PV::L(p) => unlatin(S::print(via, fo, p)),
                    PV::B(p) => B::print(via, fo, p),
                });
                self.calls += 1;
                o.push_str(&format!(
                    "{{\"op\":\"print\",\"d\":{},\"p\":{},\"via\":{},\"f\":{{\"color\":{},\"nl\":{},\"sb\":{}}}",
                    n(0) + f,
                    n(1) + f,
                    n(5),
                    fo.color,
                    fo.nl,
                    fo.sb
                ));
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(t) => {
                        let t = self.hold(&t);
                        self.docs.insert(n(0), Doc { b: t, src: Some((n(1), fo)) });
                        let mut j = String::from(",\"ls\":");
                        jlines(&mut j, t);
                        json_r(&mut o, "ok", &j);
                        if matches!(self.prop, "P07" | "P19" | "P20" | "ALL") {
                            let want = scout::print(&self.abs[&n(1)].p, fo);
                            if fo.color {
                                let ok = scout::strip_sgr(t) == scout::strip_sgr(&want);
                                self.flag("P19", ok);
                            } else {
                                self.flag("P07", t == want);
                                self.flag("P20", t == want);
                            }
                        }
                    }
                }
            }
            "parse" => {
                let Some(d) = self.docs.get(&n(1)) else { return };
                let (b, src) = (d.b, d.src);
                let r = if n(2) != API_B {
                    let Some(t) = self.view(n(2), b) else { return };
                    match guard(|| S::parse(t)) {
                        Out::Ret(Ok(p)) => Out::Ret(Ok(self.hold_s(p, n(2)))),
                        Out::Ret(Err(e)) => Out::Ret(Err(e)),
                        Out::Panic(e) => Out::Panic(e),
                    }
                } else {
                    match guard(|| B::parse(b)) {
                        Out::Ret(Ok(p)) => Out::Ret(Ok(self.hold_b(p))),
                        Out::Ret(Err(e)) => Out::Ret(Err(e)),
                        Out::Panic(e) => Out::Panic(e),
                    }
                };
                self.calls += 1;
                o.push_str(&format!(
                    "{{\"op\":\"parse\",\"p\":{},\"d\":{},\"api\":\"{}\"",
                    n(0) + f,
                    n(1) + f,
                    API[n(2) as usize]
                ));
                let from = src.map(|(i, fo)| (self.abs[&i].clone(), fo));
                if src.is_none() || matches!(self.prop, "P08" | "P09" | "ALL") {
                    let (st, want) = scout::parse(b);
                    self.class = format!("{:?}", st);
                    let ok = match (&r, st) {
                        (Out::Ret(Ok(v)), scout::St::Accept | scout::St::Open) => {
                            let p = self.project(*v);
                            Some(p) == want || st == scout::St::Open
                        }
                        (Out::Ret(Err(_)), scout::St::Reject | scout::St::Open) => true,
                        _ => false,
                    };
                    let color = from.as_ref().map_or(false, |x| x.1.color);
                    for p in ["P08", "P09", "P20"] {
                        self.flag(p, ok || color);
                    }
                }
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(Err(_)) => {
                        json_r(&mut o, "err", "");
                        if let Some((_, fo)) = &from {
                            for p in ["P06", "P20", "P21"] {
                                self.flag(p, fo.color);
                            }
                        }
                    }
                    Out::Ret(Ok(v)) => {
                        let p = self.project(v);
                        let mut j = String::from(",\"p\":");
                        p.json(&mut j);
                        json_r(&mut o, "ok", &j);
                        let mut org = None;
                        if let Some((a, fo)) = from {
                            if !fo.color {
                                self.flag("P20", a.p.on == p.on && a.p.mn == p.mn);
                                if fo.nl {
                                    self.flag("P06", a.p == p);
                                    org = a.org;
                                }
                            }
                        }
                        self.abs.insert(n(0), Abs { p, org, via: b'p' });
                        self.pats.insert(n(0), v);
                    }
                }
            }
            "same" => {
                let (Some(&v), Some(&w)) = (self.pats.get(&n(0)), self.pats.get(&n(1))) else { return };
                let r = match (v, w) {
                    (PV::S(a), PV::S(b)) | (PV::L(a), PV::L(b)) => guard(|| S::same(a, b)),
                    (PV::B(a), PV::B(b)) => guard(|| B::same(a, b)),
                    _ => return,
                };
                self.calls += 1;
                o.push_str(&format!("{{\"op\":\"same\",\"p\":{},\"q\":{}", n(0) + f, n(1) + f));
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(x) => {
                        let want = self.abs[&n(0)].p == self.abs[&n(1)].p;
                        self.flag("P06", x == want);
                        json_r(&mut o, "ok", &format!(",\"v\":{}", x));
                    }
                }
            }
            "merge" => {
                let (Some(&t), Some(&a), Some(&b)) = (self.texts.get(&n(0)), self.texts.get(&n(1)), self.texts.get(&n(2)))
                else {
                    return;
                };
                let dflt = n(3) != 0;
                let m = MOpts {
                    dflt,
                    diff3: dflt || n(4) != 0,
                    len: if dflt { 7 } else { n(5) as usize },
                };
                let r = if n(6) == API_S {
                    let (Some(t), Some(a), Some(b)) = (S::view(t), S::view(a), S::view(b)) else { return };
                    guard(|| S::merge(m, t, a, b))
                } else if n(6) == API_L {
                    let (t, a, b) = (latin(t), latin(a), latin(b));
                    guard(|| S::merge(m, &t, &a, &b).map(unlatin).map_err(unlatin))
                } else {
                    guard(|| B::merge(m, t, a, b))
                };
                self.calls += 1;
                o.push_str(&format!(
                    "{{\"op\":\"merge\",\"o\":{},\"a\":{},\"b\":{},\"m\":{{\"diff3\":{},\"len\":{}}},\"api\":\"{}\"",
                    n(0) + f,
                    n(1) + f,
                    n(2) + f,
                    m.diff3,
                    m.len,
                    API[n(6) as usize]
                ));
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(r) => {
                        let (st, x) = match &r {
                            Ok(x) => ("ok", x),
                            Err(x) => ("conflict", x),
                        };
                        let mut j = String::from(",\"ls\":");
                        jlines(&mut j, x);
                        json_r(&mut o, st, &j);
                        self.class.push_str(&st[..1]);
                        if matches!(self.prop, "P12" | "P13" | "P14" | "P15" | "ALL") {
                            let ok = scout::merge_ok(t, a, b, m, x, r.is_err()).unwrap_or(true);
                            for p in ["P12", "P13", "P14", "P15"] {
                                self.flag(p, ok);
                            }
                            // the same call with other options or with the sides exchanged
                            let mut bad = false;
                            for g in &self.merges {
                                if g.0 == n(0) && ((g.1 == n(1) && g.2 == n(2)) || (g.1 == n(2) && g.2 == n(1))) {
                                    bad |= g.5.is_ok() != r.is_ok() || (r.is_ok() && g.5 != r);
                                    if r.is_err() && g.3 == m.diff3 && g.4 == m.len {
                                        let y = g.5.as_ref().err().cloned().unwrap_or_default();
                                        let want =
                                            if g.1 == n(1) { y } else { scout::swap_sections(&y, m) };
                                        bad |= want != *x;
                                    }
                                }
                            }
                            self.flag("P14", !bad);
                            self.flag("P15", !bad);
                            self.merges.push((n(0), n(1), n(2), m.diff3, m.len, r));
                        }
                    }
                }
            }
            "big" => {
                let what = String::from_utf8_lossy(&op.b[0]).to_string();
                let r = crate::big::call(&what, &op.n);
                self.calls += 1;
                o.push_str("{\"op\":\"call\",\"what\":");
                jstr(&mut o, format!("{} {:?}", what, op.n).as_bytes());
                match r {
                    Out::Panic(e) => {
                        self.suspect = true;
                        json_panic(&mut o, &e)
                    }
                    Out::Ret(ok) => {
                        self.suspect |= !ok;
                        json_r(&mut o, if ok { "ok" } else { "wrong" }, "")
                    }
                }
            }
            k => panic!("unknown op {k}"),
        }
        if matches!(self.prop, "P16" | "ALL") {
            self.compare(op, &o);
        }
        self.log.push(o);
    }

    /// scout for equal calls through the two interfaces
    fn compare(&mut self, op: &Op, logged: &str) {
        let pat = |p: &P| {
            let mut j = String::new();
            p.json(&mut j);
            j
        };
        let n = &op.n;
        let api = |p: i64| match self.pats.get(&p) {
            Some(PV::S(_)) => API_S,
            Some(PV::L(_)) => API_L,
            _ => API_B,
        };
        let abs = |p: i64| self.abs.get(&p).map(|a| pat(&a.p)).unwrap_or_default();
        let (key, api) = match op.k.as_str() {
            "diff" => (format!("{:?} {:?} {} {:?}", self.texts.get(&n[1]), self.texts.get(&n[2]), n[3], (&op.b, &n[6..])), n[4]),
            "rev" => (abs(n[1]), api(n[1])),
            "apply" => (format!("{:?} {}", self.texts.get(&n[1]), abs(n[2])), api(n[2])),
            "print" => (format!("{} {:?}", abs(n[1]), &n[2..5]), api(n[1])),
            "parse" => (format!("{:?}", self.docs.get(&n[1]).map(|d| d.b)), n[2]),
            "merge" => (format!("{:?} {:?} {:?} {:?}", self.texts.get(&n[0]), self.texts.get(&n[1]), self.texts.get(&n[2]), &n[3..6]), n[6]),
            _ => return,
        };
        let r = logged.find("\"r\":{").map_or("", |i| &logged[i..]).to_string();
        let seen = self.memo.entry(format!("{} {}", op.k, key)).or_default();
        if seen.iter().any(|(a, x)| *a != api && *x != r) {
            self.suspect = true;
        }
        seen.push((api, r));
    }

    fn project(&self, v: PV) -> P {
        match v {
            PV::S(p) => project(p),
            PV::B(p) => project(p),
            PV::L(p) => {
                let mut p = project(p);
                for n in [&mut p.on, &mut p.mn] {
                    *n = n.take().map(unlatin);
                }
                p.hunks.iter_mut().for_each(unlatin_hunk);
                p
            }
        }
    }
}

fn unlatin_hunk(h: &mut H) {
    h.fc = h.fc.take().map(unlatin);
    for l in &mut h.ls {
        l.s = unlatin(std::mem::take(&mut l.s));
    }
}
