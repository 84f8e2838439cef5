//! Generators of programs, per property: exhaustive small scopes, random larger ones.
//! Everything is a function of (property, tier, seed, shard).

use crate::dict::dict;
use crate::prog::*;
use crate::sized;
use crate::util::*;

pub struct Cfg<'a> {
    pub prop: &'a str,
    pub thorough: bool,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
}

pub type Sink<'s> = dyn FnMut(Prog) + 's;

// ------------------------------------------------------------------- texts

/// all texts of at most n lines over the alphabet, each also without its final newline
pub fn all_texts(alpha: &[&str], n: usize, nonl: bool) -> Vec<Bytes> {
    let mut out = vec![Vec::new()];
    let mut cur: Vec<Bytes> = vec![Vec::new()];
    for _ in 0..n {
        let mut nx = Vec::new();
        for c in &cur {
            for a in alpha {
                let mut v = c.clone();
                v.extend(a.bytes());
                if nonl && !a.is_empty() {
                    out.push(v.clone());
                }
                v.push(b'\n');
                nx.push(v);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}

const TRICKY: &[&str] = &[
    "", " ", "  ", "\t", "-", "+", "--", "++", "---", "+++", "--- a", "+++ b", "--- ", "+++ ", "@", "@@", "@@ ",
    "@@ -1 +1 @@", "@@ -1,2 +1,2 @@ fn", "\\", "\\ No newline at end of file", "\\ No newline at end of file ", " a", "-a",
    "+a", "a", "a ", "\r", "a\r", "b\r", "<<<<<<< ours", "||||||| original", "=======", ">>>>>>> theirs", "<<<<<<<",
    "\"", "a\"b", "diff --git a b", "index 0", "é", "日本", "\u{feff}x", "\0", "\u{1b}[31mred\u{1b}[0m", "\u{1b}", "a\u{1b}b", "\u{1b}[", "\u{85}", "\u{2028}",
    "\x0b", "\x0c", "-- ", "ab", "abc", "fn main() {", "}", "    x", "a\rb",
];
const RAW: &[&[u8]] = &[b"\xff", b"\xfe\xfd", b"a\xff", b"\xc3", b"\xe2\x82", b"", b"a", b"\xff\r", b"\x80\x81", b"b"];

/// something written in the sources of the code under test, or made of it; never a newline
pub fn written(g: &mut Rng) -> Bytes {
    let d = dict();
    if d.strs.is_empty() {
        return Vec::new();
    }
    let mut v = g.pick(&d.strs).clone();
    match g.below(8) {
        0 => v.push(b'x'),
        1 => v.insert(0, b'x'),
        2 => {
            v.pop();
        }
        3 => v.extend(g.pick(&d.strs).clone()),
        4 => v = v.trim_ascii().to_vec(),
        _ => {}
    }
    v.retain(|b| *b != b'\n');
    if std::str::from_utf8(&v).is_err() {
        v = String::from_utf8_lossy(&v).into_owned().into_bytes();
    }
    v
}

pub fn word(g: &mut Rng, style: usize) -> Bytes {
    match style {
        3 if g.chance(1, 3) => written(g),
        0 => vec![b'a' + g.below(2) as u8],
        1 => vec![b'a' + g.below(3) as u8],
        2 => vec![b'a' + g.below(6) as u8],
        3 => TRICKY[g.below(TRICKY.len())].as_bytes().to_vec(),
        4 => format!("line {}", g.below(100000)).into_bytes(),
        5 => ["", "}", "{", "x", ""][g.below(5)].as_bytes().to_vec(),
        6 => RAW[g.below(RAW.len())].to_vec(),
        _ => {
            let n = g.below(300);
            (0..n).map(|_| b'a' + g.below(4) as u8).collect()
        }
    }
}

pub fn text(g: &mut Rng, style: usize, max: usize) -> Bytes {
    let n = g.below(max + 1);
    let mut v = Vec::new();
    for _ in 0..n {
        let s = if g.chance(1, 12) && style != 6 { 3 } else { style };
        v.extend(word(g, s));
        v.push(b'\n');
    }
    if g.chance(1, 4) {
        v.pop();
    }
    v
}

fn own_lines(t: &[u8]) -> Vec<Bytes> {
    lines(t).into_iter().map(|l| l.to_vec()).collect()
}

fn join(ls: &[Bytes]) -> Bytes {
    // only the last line may lack its newline
    let mut v = Vec::new();
    for (i, l) in ls.iter().enumerate() {
        v.extend(l);
        if i + 1 < ls.len() && !l.ends_with(b"\n") {
            v.push(b'\n');
        }
    }
    v
}

/// a few edits: delete, insert, replace, duplicate, move a block, touch the final newline
pub fn edit(g: &mut Rng, t: &[u8], style: usize, edits: usize) -> Bytes {
    let mut ls = own_lines(t);
    for _ in 0..edits {
        let n = ls.len();
        let at = g.below(n + 1);
        let len = g.below(3) + 1;
        let end = (at + len).min(n);
        match g.below(6) {
            0 => {
                ls.drain(at..end);
            }
            1 => {
                for _ in 0..len {
                    let mut w = word(g, style);
                    w.push(b'\n');
                    ls.insert(at, w);
                }
            }
            2 => {
                for l in &mut ls[at..end] {
                    *l = word(g, style);
                    l.push(b'\n');
                }
            }
            3 => {
                let blk: Vec<Bytes> = ls[at..end].to_vec();
                let to = g.below(n + 1);
                for (i, b) in blk.into_iter().enumerate() {
                    ls.insert(to + i, b);
                }
            }
            4 => {
                let blk: Vec<Bytes> = ls.drain(at..end).collect();
                let to = g.below(ls.len() + 1);
                for (i, b) in blk.into_iter().enumerate() {
                    ls.insert(to + i, b);
                }
            }
            _ => {
                if let Some(l) = ls.last_mut() {
                    if l.ends_with(b"\n") && l.len() > 1 {
                        l.pop();
                    } else if !l.ends_with(b"\n") {
                        l.push(b'\n');
                    }
                }
            }
        }
    }
    join(&ls)
}

fn pair(g: &mut Rng, max: usize) -> (Bytes, Bytes) {
    let style = [0, 0, 1, 1, 2, 3, 4, 5, 7][g.below(9)];
    let o = text(g, style, max);
    let m = match g.below(4) {
        0 => text(g, style, max),
        1 => {
            let e = g.range(1, 8);
            edit(g, &o, style, e)
        }
        _ => {
            let e = g.range(1, 3);
            edit(g, &o, style, e)
        }
    };
    (o, m)
}

fn raw_pair(g: &mut Rng, max: usize) -> (Bytes, Bytes) {
    let o = text(g, 6, max);
    let e = g.range(1, 4);
    let m = edit(g, &o, 6, e);
    (o, m)
}

fn ctxs(g: &mut Rng) -> i64 {
    [-1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 40, -2, -3, -4, -5, -6][g.below(18)]
}

/// numbered distinct lines with `k` isolated changes `gap` apart: the boundary cases of
/// grouping changes into hunks
fn gaps(n: usize, first: usize, gap: usize, kind: usize) -> (Bytes, Bytes) {
    let (mut o, mut m) = (Vec::new(), Vec::new());
    for i in 0..n {
        let l = format!("{i}\n");
        let hit = i >= first && (i - first) % (gap + 1) == 0;
        match (hit, kind) {
            (true, 0) => o.extend(l.bytes()),                   // deletion
            (true, 1) => {
                o.extend(l.bytes());
                m.extend(format!("x{i}\n").bytes())             // replacement
            }
            (true, _) => {
                o.extend(l.bytes());
                m.extend(format!("new{i}\n").bytes());          // insertion
                m.extend(l.bytes())
            }
            _ => {
                o.extend(l.bytes());
                m.extend(l.bytes())
            }
        }
    }
    (o, m)
}

// ------------------------------------------------------------------- cycle

const CYCLE: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P19", "P22", "P16"];

/// the calls a property needs on a pair of texts
fn cycle(prop: &str, tag: &str, api: i64, o: &[u8], m: &[u8], ctx: i64, g: &mut Rng) -> Prog {
    cycle_w(prop, tag, api, o, m, ctx, -1, g)
}

/// w: a number of changes known to suffice, for texts too long to compute it
fn cycle_w(prop: &str, tag: &str, api: i64, o: &[u8], m: &[u8], ctx: i64, w: i64, g: &mut Rng) -> Prog {
    let mut p = Prog::new(tag);
    let (a, b) = (p.text(o), p.text(m));
    let d = p.diffx(api, a, b, ctx, None, None, w);
    match prop {
        "P01" => {
            p.apply(a, d);
        }
        "P02" => {
            let r = p.rev(d);
            p.apply(b, r);
            let rr = p.rev(r);
            if g.chance(1, 4) {
                p.apply(a, rr);
            }
        }
        "P03" | "P04" | "P05" => {}
        "P06" => {
            let sb = g.chance(1, 2);
            let f = Pr { sb, via: if sb { g.below(4) as i64 } else { 2 + g.below(2) as i64 }, ..PLAIN };
            let src = if g.chance(1, 3) { p.rev(d) } else { d };
            let t = p.print(src, f);
            let q = p.parse(api, t);
            p.same(src, q);
            if g.chance(1, 3) {
                p.same(d, q);
            }
            if g.chance(1, 6) {
                let e = p.copy(src);
                p.same(e, q);
            }
            let t2 = p.print(q, f);
            let q2 = p.parse(api, t2);
            p.same(q, q2);
        }
        "P07" | "P19" => formats(&mut p, d, g, prop == "P19"),
        "P22" => writes(&mut p, d, o.len() + m.len(), g),
        _ => unreachable!(),
    }
    p
}

/// print into writers that take little at a time, are interrupted, or run out of room;
/// len: about as long as the printed form may be
fn writes(p: &mut Prog, d: i64, len: usize, g: &mut Rng) {
    let kinds = [(false, true, true), (true, true, true), (false, false, true), (false, true, false), (true, false, false)];
    let much = len > 2000;
    for _ in 0..if much { 1 } else { 2 } {
        let (color, nl, sb) = kinds[g.below(5)];
        let f = Pr { color, nl, sb, via: 3 };
        p.print(d, f);
        if g.chance(1, 3) {
            p.print(d, Pr { via: 2, ..f });
        }
        for _ in 0..if much { 2 } else { 5 } {
            let room = match g.below(8) {
                0 => -1,
                1 => g.below(12) as i64,
                2 | 3 => g.below(60) as i64,
                _ => g.below(len * if color { 3 } else { 1 } + 64) as i64,
            };
            let chunk = [1i64, 1, 2, 3, 5, 7, 16, 64, 1000, 1 << 30][g.below(10)];
            let intr = [0i64, 0, 2, 3, 4, 7][g.below(6)];
            p.write(d, Pr { via: if g.chance(1, 3) { 0 } else { 1 }, ..f }, [room, chunk, intr, g.below(3) as i64]);
        }
    }
}

/// every room from none to more than enough, for a few patches
fn gen_rooms(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ 99 ^ (c.shard as u64) << 32);
    let pairs: &[(&str, &str)] = &[
        ("a\n", "b\n"), ("a", "b"), ("", "a\n\nb"), ("\n\n\n", "\nx\n\n"), ("é\n", "èè\n"),
        ("a\nb\nc\nd\ne\nf\ng\nh\ni\nj", "b\nb\nc\nd\ne\nf\ng\nh\ni\nj\n"),
    ];
    let mut i = 0;
    for (o, m) in pairs {
        for (on, mn) in [(Some("a\tb\n"), None), (None, Some("")), (Some("x"), Some("\"\\\""))] {
            for k in 0..5usize {
                for api in [API_S, API_B] {
                    for room in 0..=26i64 {
                        i += 1;
                        if i % c.shards != c.shard {
                            continue;
                        }
                        let mut p = Prog::new("rooms");
                        let (a, b) = (p.text(o.as_bytes()), p.text(m.as_bytes()));
                        let d = p.diffx(api, a, b, 3, on.map(str::as_bytes), mn.map(str::as_bytes), -1);
                        let f = Pr { color: k == 1 || k == 4, nl: k != 2 && k != 4, sb: k != 3 && k != 4, via: 3 };
                        p.print(d, f);
                        for r in 0..6 {
                            let chunk = [1 << 30, 1, 3, 8][g.below(4)];
                            let via = if api == API_S { (r % 2) as i64 } else { 1 };
                            p.write(d, Pr { via, ..f }, [room * 6 + r, chunk, [0, 0, 2, 3][g.below(4)], g.below(3) as i64]);
                        }
                        sink(p);
                    }
                }
            }
        }
    }
    // patches read from documents: with headings, without names, several hunks
    for k in 0..if c.thorough { 40_000 } else { 4_000 } {
        let raw = k % 4 == 0;
        let doc = good_doc(&mut g, raw);
        let api = if raw { API_B } else { g.below(2) as i64 };
        let mut p = Prog::new("docwrite");
        let d = p.doc(&doc);
        let q = p.parse(api, d);
        writes(&mut p, q, doc.len(), &mut g);
        sink(p);
    }
}

fn formats(p: &mut Prog, d: i64, g: &mut Rng, both: bool) {
    if both {
        for k in 0..4 {
            let (nl, sb) = (k & 1 == 0, k & 2 == 0);
            let via = 2 + g.below(2) as i64;
            p.print(d, Pr { color: false, nl, sb, via });
            p.print(d, Pr { color: true, nl, sb, via: 2 });
            p.print(d, Pr { color: true, nl, sb, via: 3 });
        }
        let v = g.below(2) as i64;
        p.print(d, Pr { via: v, ..PLAIN });
    } else {
        for via in 0..4 {
            p.print(d, Pr { via, ..PLAIN });
        }
        for k in 1..4 {
            for via in 2..4 {
                p.print(d, Pr { color: false, nl: k & 1 == 0, sb: k & 2 == 0, via });
            }
        }
    }
}

fn gen_cycle(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ (c.shard as u64) << 32 ^ fnv(c.prop.as_bytes()));
    // 1. every pair of small texts, every small context
    let heavy = matches!(c.prop, "P06" | "P07" | "P19" | "P22");
    let small = if heavy {
        all_texts(&["a", ""], 3, true)
    } else {
        all_texts(&["a", "b"], if c.thorough { 5 } else { 4 }, true)
    };
    let mut i = 0usize;
    for o in &small {
        for m in &small {
            for ctx in [0i64, 1, 2, 3] {
                i += 1;
                if i % c.shards == c.shard {
                    sink(cycle(c.prop, "small", if i % 3 == 0 { API_B } else { API_S }, o, m, ctx, &mut g));
                }
            }
        }
    }
    if !heavy {
        // every pair without the newline question, one line longer, three letters
        let mid = all_texts(&["a", "b"], if c.thorough { 7 } else { 6 }, false);
        let three = all_texts(&["a", "b", "c"], if c.thorough { 5 } else { 4 }, false);
        for (set, nm) in [(&mid, "mid"), (&three, "three")] {
            for o in set.iter() {
                for m in set.iter() {
                    i += 1;
                    if i % c.shards == c.shard {
                        sink(cycle(c.prop, nm, API_S, o, m, (i / c.shards % 3) as i64, &mut g));
                    }
                }
            }
        }
    }
    // 2. isolated changes at every distance around twice the context
    for ctx in 0..6usize {
        for gap in 0..(2 * ctx + 4) {
            for kind in 0..3 {
                for first in [0usize, 1, ctx, ctx + 1] {
                    for n in [first + 1, first + gap + 2, first + 2 * gap + 3, first + 3 * gap + 3 + ctx] {
                        i += 1;
                        if i % c.shards != c.shard {
                            continue;
                        }
                        let (o, m) = gaps(n, first, gap, kind);
                        sink(cycle(c.prop, "gaps", API_S, &o, &m, ctx as i64, &mut g));
                        sink(cycle(c.prop, "gapsr", API_B, &m, &o, ctx as i64, &mut g));
                    }
                }
            }
        }
    }
    // contexts of any size: changes around twice the context apart, files around it long
    let wide: &[usize] = if heavy {
        &[10, 16, 33, 64, 100, 128, 256]
    } else if c.thorough {
        &[8, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 10000, 32767, 32768, 65535, 65536, 65537]
    } else {
        &[10, 16, 31, 33, 50, 64, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024, 1025, 2048, 4096, 10000, 65535, 65536]
    };
    for (k, &ctx) in wide.iter().enumerate() {
        for gap in [2 * ctx - 1, 2 * ctx, 2 * ctx + 1, ctx, ctx + 1] {
            for first in [ctx - 1, ctx, ctx + 1, 2 * ctx + 1] {
                i += 1;
                if i % c.shards != c.shard || (heavy && i / c.shards % 4 != 0) {
                    continue;
                }
                let n = first + gap + 1 + [1, ctx - 1, ctx, ctx + 1, 3 * ctx][g.below(5)];
                let kind = g.below(3);
                let (o, m) = gaps(n, first, gap, kind);
                let w = ((n - 1 - first) / (gap + 1) + 1) * if kind == 1 { 2 } else { 1 };
                sink(cycle_w(c.prop, "wide", if k % 3 == 0 { API_B } else { API_S }, &o, &m, ctx as i64, w as i64, &mut g));
            }
        }
    }
    // 3. random
    let n = if c.thorough { 400_000 } else { 50_000 } / if heavy { 2 } else { 1 };
    for k in 0..n {
        let max = [6, 12, 25, 60][g.below(4)];
        let ctx = ctxs(&mut g);
        if k % 7 == 0 {
            let (o, m) = raw_pair(&mut g, max);
            sink(cycle(c.prop, "raw", API_B, &o, &m, ctx, &mut g));
        } else {
            let (o, m) = pair(&mut g, max);
            let api = if g.chance(1, 3) { API_B } else { API_S };
            sink(cycle(c.prop, &format!("rnd{max}"), api, &o, &m, ctx, &mut g));
        }
    }
    // 4. large
    for k in 0..if c.thorough { 60 } else { 6 } {
        let style = [0, 1, 2, 4, 5][(k + c.shard) % 5];
        let o = text(&mut g, style, 260);
        let e = g.range(1, 40);
        let m = if g.chance(1, 3) { text(&mut g, style, 260) } else { edit(&mut g, &o, style, e) };
        let ctx = ctxs(&mut g);
        sink(cycle(c.prop, "large", API_S, &o, &m, ctx, &mut g));
    }
    // 5. very long files, few changes; with a witness of the number of changes
    if !heavy {
        let sizes: &[usize] = if c.thorough { &[300, 5000, 33000, 66000, 70000, 132000] } else { &[300, 5000, 66000] };
        for (k, n) in sizes.iter().enumerate() {
            if k % c.shards != c.shard {
                continue;
            }
            let mut p = Prog::new("huge");
            let mut o = Vec::new();
            let mut m = Vec::new();
            let mut w = 0;
            for i in 0..*n {
                let l = format!("{i:x}\n");
                o.extend(l.bytes());
                if i > 0 && (i % 9001 == 17 || i + 3 == *n || i == 257 || i == 65537) {
                    m.extend(format!("y{i}\n").bytes());
                    w += 2;
                } else if i % 20011 == 40 {
                    w += 1;
                } else {
                    m.extend(l.bytes());
                }
            }
            let (a, b) = (p.text(&o), p.text(&m));
            let d = p.diffx(API_S, a, b, 3, None, None, w);
            match c.prop {
                "P01" => {
                    p.apply(a, d);
                }
                "P02" => {
                    let r = p.rev(d);
                    p.apply(b, r);
                }
                _ => {}
            }
            sink(p);
        }
    }
}

// --------------------------------------------------------------- documents

const PREAMBLE: &[&str] = &["diff --git a/x b/x", "index 12..34 100644", "", "junk", "Only in a", "--", "++", "@", "@@", "===", "---", "+++", " a", "-x", "\\ No newline at end of file", "similarity 100%", "--\u{a0}a"];

pub fn rand_name(g: &mut Rng) -> Bytes {
    const PARTS: &[&str] = &["a", "b/c", "x.rs", " ", "\t", "\n", "\r", "\0", "\"", "\\", "n", "t", "0", "r", "é", "日", "/dev/null", "--- ", "@@ ", ",", "\u{1}", "\u{7f}", "\\n", "a\\", "\u{b}", "\u{8}"];
    let n = g.below(5);
    let mut v: Bytes = (0..n).flat_map(|_| PARTS[g.below(PARTS.len())].bytes()).collect();
    if g.chance(1, 8) {
        v.extend(written(g));
    }
    v
}

fn quote(n: &[u8]) -> Bytes {
    let mut o = vec![b'"'];
    for &b in n {
        match b {
            b'\n' => o.extend(b"\\n"),
            b'\t' => o.extend(b"\\t"),
            0 => o.extend(b"\\0"),
            b'\r' => o.extend(b"\\r"),
            b'"' => o.extend(b"\\\""),
            b'\\' => o.extend(b"\\\\"),
            b => o.push(b),
        }
    }
    o.push(b'"');
    o
}

fn name_field(g: &mut Rng, raw: bool) -> Bytes {
    let mut n = rand_name(g);
    if raw && g.chance(1, 2) {
        let k = g.below(n.len() + 1);
        let w = word(g, 6);
        n.splice(k..k, w);
    }
    let special = n.iter().any(|b| b"\n\t\0\r\"\\".contains(b));
    let mut f = match g.below(12) {
        0 => quote(&n),
        1 => n, // as it is, right or wrong
        2 => {
            // a quoted field from loose parts: mostly malformed
            const Q: &[&str] = &["a", "\\", "\"", "\\n", "\\x", "\\q", "\\0", "\t", "\r", "\\\\", "\\\"", "\\a", "\\1", "b"];
            let k = g.below(5);
            let mut v = vec![b'"'];
            v.extend((0..k).flat_map(|_| Q[g.below(Q.len())].bytes()));
            if g.chance(4, 5) {
                v.push(b'"');
            }
            v
        }
        _ => {
            if special {
                quote(&n)
            } else {
                n
            }
        }
    };
    if g.chance(1, 5) {
        f.extend(b"\t2020-01-01 00:00:00");
    }
    f
}

fn body_text(g: &mut Rng) -> Bytes {
    if g.chance(1, 8) {
        written(g)
    } else if g.chance(1, 2) {
        TRICKY[g.below(TRICKY.len())].replace('\n', "").into_bytes()
    } else {
        word(g, 2)
    }
}

/// a well-formed document; `utf8` or arbitrary bytes
fn good_doc(g: &mut Rng, raw: bool) -> Bytes {
    let mut d = Vec::new();
    for _ in 0..[0, 0, 0, 1, 2][g.below(5)] {
        if g.chance(1, 6) {
            d.extend(written(g));
        } else {
            d.extend(PREAMBLE[g.below(PREAMBLE.len())].bytes());
        }
        d.push(b'\n');
    }
    let (a, b) = (name_field(g, raw), name_field(g, raw));
    let l1: Bytes = [b"--- ".to_vec(), a, b"\n".to_vec()].concat();
    let l2: Bytes = [b"+++ ".to_vec(), b, b"\n".to_vec()].concat();
    match g.below(8) {
        0 => {}
        1 => d.extend(l1),
        2 => d.extend(l2),
        3 => {
            d.extend(l2);
            d.extend(l1)
        }
        _ => {
            d.extend(l1);
            d.extend(l2)
        }
    }
    let hunks = [0, 1, 1, 1, 1, 2, 2, 3][g.below(8)];
    let (mut ol, mut nl) = (0usize, 0usize); // lines consumed so far
    for h in 0..hunks {
        let skip = [0, 0, 1, 5, 100][g.below(5)];
        ol += skip;
        nl += [skip, skip, g.below(4)][g.below(3)];
        let n = g.range(1, 6);
        let mut body: Vec<(u8, Bytes)> = Vec::new();
        for _ in 0..n {
            let k = [b' ', b' ', b'-', b'+'][g.below(4)];
            let t = if raw && g.chance(1, 2) { word(g, 6) } else { body_text(g) };
            body.push((k, t));
        }
        let oc = body.iter().filter(|l| l.0 != b'+').count();
        let nc = body.iter().filter(|l| l.0 != b'-').count();
        let rng = |g: &mut Rng, s: usize, c: usize| {
            let z = if g.chance(1, 20) { "0" } else { "" };
            if c == 1 && g.chance(3, 4) {
                format!("{z}{s}")
            } else {
                format!("{z}{s},{z}{c}")
            }
        };
        let os = if oc == 0 { ol } else { ol + 1 };
        let ns = if nc == 0 { nl } else { nl + 1 };
        let (r1, r2) = (rng(g, os, oc), rng(g, ns, nc));
        d.extend(format!("@@ -{r1} +{r2} @@").bytes());
        if g.chance(1, 3) {
            d.push(b' ');
            d.extend([&b"fn x()"[..], b"", b" ", b"a @@ b", b"  two", b"tail ", b"\t", b"r\r"][g.below(8)]);
            if raw {
                d.extend(word(g, 6));
            } else if g.chance(1, 6) {
                d.extend(written(g));
            }
        }
        d.push(b'\n');
        let last_old = body.iter().rposition(|l| l.0 != b'+');
        let last_new = body.iter().rposition(|l| l.0 != b'-');
        let eof = h + 1 == hunks && g.chance(1, 2);
        let (m1, m2) = (eof && g.chance(2, 3), eof && g.chance(2, 3));
        for (i, (k, t)) in body.iter().enumerate() {
            let blank = *k == b' ' && t.is_empty();
            if !(blank && g.chance(1, 2)) {
                d.push(*k);
            }
            d.extend(t);
            d.push(b'\n');
            let mark = match k {
                b' ' => m1 && last_old == Some(i) && last_new == Some(i) && i + 1 == body.len(),
                b'-' => m1 && last_old == Some(i) && body[i..].iter().all(|l| l.0 != b' '),
                _ => m2 && last_new == Some(i) && body[i..].iter().all(|l| l.0 != b' '),
            };
            if mark {
                d.extend(b"\\ No newline at end of file\n");
            }
        }
        ol += oc;
        nl += nc;
    }
    d
}

const STRAY: &[&str] = &["stray", "\\", "\\ No newline at end of file", "--- x", "+++ y", "@@ -1 +1 @@", "@@ -1 +1", "@@", "@", " c", "-d", "+i", "", "x", "*** 1", "diff --git a b", "@@ -0,0 +1 @@", "-- ", "\t"];
const NUMS: &[&str] = &["0", "1", "2", "3", "00", "+1", "-1", "", " 1", "1 ", "a", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551614", "18446744073709551616", "99999999999999999999999", "1000000000", "2147483648", "007", "1,1", "0x1", "1_0", "٣"];

/// what is put into every place of a document
const POINTS: &[&str] = &[
    "é", "日", "😀", "\u{301}", "\u{2028}", "\u{85}", "\u{a0}", "\u{feff}", "\u{1b}", "\0", "\u{7f}", "\"", " ", "\t", "\r", "\n", "\u{b}", "0",
    "9", "1", ",", "-", "+", "@", "@@", "\\", "\\n", "a", "٣",
];

/// documents in which one place of a fixed one is changed: every place, every change
fn gen_point(c: &Cfg, sink: &mut Sink) {
    const FIXED: &[&str] = &[
        "--- a\n+++ b\n@@ -1,2 +1,2 @@ f\n c\n-d\n+e\n",
        "x\n--- \"a\\tb\"\n+++ \"\\\\\"\n@@ -3 +3 @@\n-d\n\\ No newline at end of file\n+d\n",
        "--- a\r\n+++ b\r\n@@ -0,0 +1 @@\r\n+e\r\n@@ -7,2 +9,0 @@ é\r\n-\r\n-x\r\n",
        "@@ -1 +1 @@\n\n@@ -12,10 +12 @@ \n c\n-1\n-2\n-3\n-4\n-5\n-6\n-7\n-8\n-9\n\\ No newline at end of file\n",
        "--- é 日\n+++ \"é\\0\"\n",
    ];
    let mut g = Rng::new(c.seed ^ 99 ^ (c.shard as u64) << 32 ^ fnv(c.prop.as_bytes()));
    let mut i = c.seed as usize % c.shards;
    for d in FIXED {
        let at: Vec<usize> = d.char_indices().map(|x| x.0).chain([d.len()]).collect();
        for (k, &x) in at.iter().enumerate() {
            let next = at.get(k + 1).copied().unwrap_or(d.len());
            let mut put = |v: String, sink: &mut Sink| {
                i += 1;
                if i % c.shards == c.shard {
                    if c.prop == "P16" {
                        let mut p = Prog::new("point");
                        let id = p.doc(v.as_bytes());
                        for api in [API_S, API_B] {
                            let q = p.parse(api, id);
                            p.print(q, PLAIN);
                        }
                        sink(p);
                        return;
                    }
                    // the interface over text always: it alone knows of characters
                    sink(doc_prog(c.prop, "point", v.as_bytes(), API_S, &mut g));
                    if i / c.shards % 3 == 0 {
                        sink(doc_prog(c.prop, "point", v.as_bytes(), API_B, &mut g));
                    }
                }
            };
            put(d[..x].to_string(), sink);
            put(format!("{}{}", &d[..x], &d[next..]), sink);
            for w in POINTS {
                put(format!("{}{}{}", &d[..x], w, &d[x..]), sink);
                put(format!("{}{}{}", &d[..x], w, &d[next..]), sink);
                if c.thorough {
                    for u in POINTS {
                        put(format!("{}{}{}{}", &d[..x], w, u, &d[x..]), sink);
                    }
                }
            }
        }
    }
}

fn mutate(g: &mut Rng, d: &[u8]) -> Bytes {
    let mut ls = own_lines(d);
    let n = ls.len();
    match g.below(15) {
        13 | 14 if n > 0 => {
            // something in the middle of a line
            let i = g.below(n);
            let at: Vec<usize> = match std::str::from_utf8(&ls[i]) {
                Ok(s) => s.char_indices().map(|c| c.0).collect(),
                _ => (0..ls[i].len()).collect(),
            };
            if !at.is_empty() {
                let k = *g.pick(&at);
                let w = if g.chance(1, 4) { written(g) } else { POINTS[g.below(POINTS.len())].as_bytes().to_vec() };
                let tail = ls[i].split_off(k);
                ls[i].extend(w);
                ls[i].extend(tail);
            }
        }
        0 if n > 0 => {
            ls.remove(g.below(n));
        }
        1 if n > 0 => {
            let i = g.below(n);
            let l = ls[i].clone();
            let j = g.below(n + 1);
            ls.insert(j, l);
        }
        2 if n > 1 => {
            let (i, j) = (g.below(n), g.below(n));
            ls.swap(i, j);
        }
        3 => {
            let mut l = STRAY[g.below(STRAY.len())].as_bytes().to_vec();
            if g.chance(1, 5) {
                l = written(g);
            }
            l.push(b'\n');
            let j = g.below(n + 1);
            ls.insert(j, l);
        }
        4..=6 if n > 0 => {
            // a number of a hunk header
            let hs: Vec<usize> = (0..n).filter(|&i| ls[i].starts_with(b"@@ ")).collect();
            if !hs.is_empty() {
                let i = *g.pick(&hs);
                let s = String::from_utf8_lossy(&ls[i]).to_string();
                let mut toks = Vec::new();
                let cs: Vec<char> = s.chars().collect();
                let mut k = 0;
                while k < cs.len() {
                    if cs[k].is_ascii_digit() {
                        let st = k;
                        while k < cs.len() && cs[k].is_ascii_digit() {
                            k += 1;
                        }
                        toks.push((st, k));
                    } else {
                        k += 1;
                    }
                }
                if !toks.is_empty() {
                    let (a, b) = *g.pick(&toks);
                    let old: String = cs[a..b].iter().collect();
                    let new = match (g.below(3), old.parse::<u64>()) {
                        (0, Ok(v)) => v.wrapping_add(1).to_string(),
                        (1, Ok(v)) => v.saturating_sub(1).to_string(),
                        _ => NUMS[g.below(NUMS.len())].to_string(),
                    };
                    let mut r: String = cs[..a].iter().collect();
                    r.push_str(&new);
                    r.extend(&cs[b..]);
                    ls[i] = r.into_bytes();
                }
            }
        }
        7 if n > 0 => {
            // one byte away
            let i = g.below(n);
            if !ls[i].is_empty() {
                let k = g.below(ls[i].len());
                ls[i].remove(k);
            }
        }
        8 if n > 0 => {
            let i = g.below(n);
            if !ls[i].is_empty() {
                let k = g.below(ls[i].len());
                ls[i][k] = b"@+- \\,\n\t\"a1"[g.below(11)];
            }
        }
        9 => {
            // cut the end
            let mut v = ls.concat();
            let k = g.below(v.len() + 1);
            v.truncate(k.max(v.len().saturating_sub(8)));
            return v;
        }
        10 => {
            // hunks in another order
            let hs: Vec<usize> = (0..n).filter(|&i| ls[i].starts_with(b"@@ ")).collect();
            if hs.len() > 1 {
                let tail = ls.split_off(hs[1]);
                let first = ls.split_off(hs[0]);
                ls.extend(tail);
                ls.extend(first);
            }
        }
        11 => {
            // a name line again
            let hs: Vec<usize> = (0..n).filter(|&i| ls[i].starts_with(b"--- ") || ls[i].starts_with(b"+++ ")).collect();
            if !hs.is_empty() {
                let i = *g.pick(&hs);
                let l = ls[i].clone();
                ls.insert(i + 1, l);
            }
        }
        _ => {
            // a marker somewhere
            let j = g.below(n + 1);
            ls.insert(j, b"\\ No newline at end of file\n".to_vec());
        }
    }
    ls.concat()
}

/// tiny documents: every sequence of up to k lines from a pool
fn tiny_docs(k: usize) -> Vec<Bytes> {
    const POOL: &[&str] = &["@@ -1 +1 @@\n", "@@ -1 +0,0 @@ f\n", "@@ -2 +2,2 @@\n", " c\n", "-d\n", "+i\n", "\n", "\\ No newline at end of file\n", "--- a\n", "+++ b\n", "x\n"];
    let mut out = vec![Vec::new()];
    let mut cur: Vec<Bytes> = vec![Vec::new()];
    for _ in 0..k {
        let mut nx = Vec::new();
        for c in &cur {
            for l in POOL {
                let mut v: Bytes = c.clone();
                v.extend(l.bytes());
                nx.push(v);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}

fn doc_prog(prop: &str, tag: &str, d: &[u8], api: i64, g: &mut Rng) -> Prog {
    let mut p = Prog::new(tag);
    let id = p.doc(d);
    match prop {
        "P06" => {
            let q = p.parse(api, id);
            let sb = g.chance(1, 2);
            let f = Pr { sb, via: if sb { g.below(4) as i64 } else { 2 + g.below(2) as i64 }, ..PLAIN };
            let src = if g.chance(1, 3) { p.rev(q) } else { q };
            let t = p.print(src, f);
            let r = p.parse(api, t);
            p.same(src, r);
            p.same(q, r);
        }
        "P07" | "P19" => {
            let q = p.parse(api, id);
            formats(&mut p, q, g, prop == "P19");
        }
        "P02" => {
            let q = p.parse(api, id);
            let r = p.rev(q);
            p.rev(r);
        }
        "P20" => {
            let q = p.parse(api, id);
            let t = p.print(q, PLAIN);
            p.parse(api, t);
        }
        "P17" => {
            let q = p.parse(api, id);
            for img in [&b""[..], b"a\nb\nc\n", b"c\nd\nc\nd\n\n", d] {
                let t = p.text(img);
                p.apply(t, q);
            }
            let r = p.rev(q);
            let t = p.text(b"a\nb\nc\nd");
            p.apply(t, r);
            p.print(q, Pr { color: true, nl: true, sb: true, via: 2 });
            p.print(r, Pr { color: true, nl: true, sb: true, via: 3 });
        }
        _ => {
            p.parse(api, id);
        }
    }
    p
}

fn rand_doc(g: &mut Rng, k: usize) -> (Bytes, i64, &'static str) {
    let raw = k % 9 == 0;
    let mut d = good_doc(g, raw);
    let bad = g.chance(3, 5);
    if bad {
        for _ in 0..g.range(1, 2) {
            d = mutate(g, &d);
        }
    }
    let api = if raw || g.chance(1, 4) { API_B } else { API_S };
    (d, api, if raw { "rawdoc" } else if bad { "mutated" } else { "good" })
}

/// documents that differ in one component: equality of the patches read from them
fn gen_near(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ 71 ^ (c.shard as u64) << 32);
    // (names, numbers of two headers, headings, bodies): a patch as parts
    type Part = Vec<Bytes>;
    let show = |p: &Part| p.concat();
    let base = |k: usize| -> Part {
        let s = |x: &str| x.as_bytes().to_vec();
        match k {
            0 => vec![s("--- a\n"), s("+++ b\n"), s("@@ -1,3 +1,3 @@"), s(" f\n"), s(" c\n"), s("-d\n"), s("+e\n"), s(" g\n")],
            1 => vec![s(""), s(""), s("@@ -3,0 +4 @@"), s("\n"), s("+e\n")],
            2 => vec![s("--- a\n"), s(""), s("@@ -4 +3,0 @@"), s("\n"), s("-e\n"), s("@@ -9,2 +8,2 @@"), s(" f\n"), s(" c\n"), s("-d\n"), s("+e\n")],
            3 => vec![s(""), s("+++ b\n"), s("@@ -1 +1 @@"), s("\n"), s("-d\n"), s("+d\n"), s("\\ No newline at end of file\n")],
            4 => vec![s("--- a\n"), s("+++ a\n")],
            _ => vec![s("--- a\n"), s("+++ b\n"), s("@@ -0,0 +1,2 @@"), s("\n"), s("+\n"), s("+x\n"), s("@@ -5,0 +9 @@"), s("\n"), s("+y\n"), s("@@ -7 +12 @@"), s(" h\n"), s(" \n")],
        }
    };
    let head = |d: u64, part: &Bytes, k: usize| -> Bytes {
        // the k-th number of a header, d more
        let s = String::from_utf8_lossy(part).to_string();
        let mut out = String::new();
        let mut no = 0;
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i].is_ascii_digit() {
                let st = i;
                while i < cs.len() && cs[i].is_ascii_digit() {
                    i += 1;
                }
                let v: u64 = cs[st..i].iter().collect::<String>().parse().unwrap_or(0);
                out.push_str(&if no == k { v + d } else { v }.to_string());
                no += 1;
            } else {
                out.push(cs[i]);
                i += 1;
            }
        }
        out.into_bytes()
    };
    let s = |x: &str| x.as_bytes().to_vec();
    let mut docs: Vec<(Bytes, Bytes)> = Vec::new();
    for k in 0..6 {
        let b = base(k);
        let mut vs: Vec<Part> = vec![b.clone()];
        for (i, x) in b.iter().enumerate() {
            let mut put = |y: Bytes| {
                let mut v = b.clone();
                v[i] = y;
                vs.push(v);
            };
            if i < 2 {
                let sign = if i == 0 { "--- " } else { "+++ " };
                for n in ["", "a\n", "b\n", "a \n", "\n", "A\n", "\"a\\n\"\n", "a/b\n", "original\n", "modified\n", "/dev/null\n"] {
                    put(if n.is_empty() { s("") } else { s(&format!("{sign}{n}")) });
                }
            } else if x.starts_with(b"@@") {
                for no in 0..4 {
                    for d in [1u64, 2, 1 << 32, 1 << 40] {
                        put(head(d, x, no));
                    }
                }
            } else if b[i - 1].starts_with(b"@@") {
                for f in ["\n", " \n", " f\n", " f \n", "  f\n", " g\n", " h\n", " fn f\n"] {
                    put(s(f));
                }
            } else {
                for t in [" ", "-", "+"] {
                    for w in ["c\n", "d\n", "e\n", "\n", "d \n", "d\r\n", "d\n\\ No newline at end of file\n"] {
                        put(s(&format!("{t}{w}")));
                    }
                }
                put(s("\\ No newline at end of file\n"));
                put(s(""));
            }
        }
        let ds: Vec<Bytes> = vs.iter().map(show).collect();
        for a in &ds {
            docs.push((ds[0].clone(), a.clone()));
        }
        for _ in 0..ds.len() {
            docs.push((g.pick(&ds).clone(), g.pick(&ds).clone()));
        }
    }
    for (i, (a, b)) in docs.iter().enumerate() {
        if i % c.shards != c.shard {
            continue;
        }
        for api in [API_S, API_B] {
            let mut p = Prog::new("near");
            let (x, y) = (p.doc(a), p.doc(b));
            let (q, r) = (p.parse(api, x), p.parse(api, y));
            p.same(q, r);
            p.same(r, q);
            p.same(q, q);
            let (qq, rr) = (p.rev(q), p.rev(r));
            p.same(qq, rr);
            p.same(qq, q);
            sink(p);
        }
    }
    // and created ones
    for k in 0..if c.thorough { 6000 } else { 600 } {
        let api = k % 2;
        let (o, m) = pair(&mut g, 6);
        let e = g.below(2);
        let m2 = edit(&mut g, &m, 1, e);
        let o2 = if g.chance(1, 3) { [word(&mut g, 0), b"\n".to_vec(), o.clone()].concat() } else { o.clone() };
        let mut p = Prog::new("nearmade");
        let (a, b, a2, b2) = (p.text(&o), p.text(&m), p.text(&o2), p.text(&m2));
        let ctx = [0i64, 1, 3][g.below(3)];
        let nm: [&[u8]; 3] = [b"a", b"b", b"original"];
        let d = p.diffx(api, a, b, ctx, None, None, -1);
        let on = g.chance(1, 2).then(|| *g.pick(&nm));
        let mn = g.chance(1, 2).then(|| *g.pick(&nm));
        let d2 = p.diffx(api, a2, b2, ctx, on, mn, -1);
        let d3 = p.diffx(api, a, b, [0i64, 1, 3][g.below(3)], None, None, -1);
        p.same(d, d2);
        p.same(d, d3);
        p.same(d3, d2);
        let r = p.rev(d);
        p.same(r, d);
        sink(p);
    }
}

fn gen_docs(c: &Cfg, sink: &mut Sink) {
    gen_point(c, sink);
    let mut g = Rng::new(c.seed ^ 77 ^ (c.shard as u64) << 32 ^ fnv(c.prop.as_bytes()));
    let tiny = tiny_docs(if c.prop == "P08" || c.prop == "P09" {
        if c.thorough { 5 } else { 4 }
    } else {
        3
    });
    for (i, d) in tiny.iter().enumerate() {
        if i % c.shards == c.shard {
            sink(doc_prog(c.prop, "tiny", d, (i / c.shards % 2) as i64, &mut g));
        }
    }
    // a body ending mid-line
    let n = if c.thorough { 1_000_000 } else { 80_000 };
    let n = if matches!(c.prop, "P08" | "P09") { n } else { n / 8 };
    for k in 0..n {
        let (d, api, tag) = rand_doc(&mut g, k);
        sink(doc_prog(c.prop, tag, &d, api, &mut g));
    }
    // every number in every place of a header
    let mut i = 0;
    for a in NUMS {
        for (pos, b) in [(0, "1"), (1, "1"), (2, "1"), (3, "1"), (4, "3"), (5, "0")] {
            i += 1;
            if i % c.shards != c.shard {
                continue;
            }
            let d = match pos {
                0 => format!("@@ -{a},{b} +1 @@\n-d\n+i\n"),
                1 => format!("@@ -{b},{a} +1 @@\n-d\n+i\n"),
                2 => format!("@@ -{b} +{a} @@\n-d\n+i\n"),
                3 => format!("@@ -{b} +1,{a} @@\n-d\n+i\n"),
                4 => format!("@@ -{b},2 +{a},2 @@\n c\n-d\n+i\n@@ -{a} +{a} @@\n-d\n+i\n"),
                _ => format!("@@ -{a},{b} +{a} @@\n+i\n"),
            };
            sink(doc_prog(c.prop, "nums", d.as_bytes(), API_S, &mut g));
            sink(doc_prog(c.prop, "nums", d.as_bytes(), API_B, &mut g));
        }
    }
}

// ---------------------------------------------------------------- applying

/// a document of hunks for (parts of) a base text, at stated places that may be wrong
fn app_doc(g: &mut Rng, base: &[Bytes], style: usize) -> Bytes {
    let mut d = Vec::new();
    let hunks = [1, 1, 2, 2, 3][g.below(5)];
    let (mut oe, mut ne) = (0usize, 0usize); // ends of the previous stated ranges
    let mut from = 0usize;
    for _ in 0..hunks {
        let mut body: Vec<(u8, Bytes)> = Vec::new();
        // take a block of the base (or invent one), change some of it
        let at = if g.chance(1, 6) { g.below(base.len() + 1) } else { from + g.below((base.len() + 1).saturating_sub(from).max(1)) };
        let len = g.below(4);
        for k in at..(at + len).min(base.len()) {
            let mut l = base[k].clone();
            if !l.ends_with(b"\n") {
                l.push(b'\n');
            }
            if g.chance(1, 10) {
                l = word(g, style);
                l.push(b'\n');
            }
            if g.chance(1, 3) {
                body.push((b'-', l));
            } else {
                body.push((b' ', l));
            }
            if g.chance(1, 3) {
                let mut w = word(g, style);
                w.push(b'\n');
                body.push((b'+', w));
            }
        }
        if body.is_empty() || g.chance(1, 6) {
            let mut w = word(g, style);
            w.push(b'\n');
            let j = g.below(body.len() + 1);
            body.insert(j, (b'+', w));
        }
        from = at + len;
        let oc = body.iter().filter(|l| l.0 != b'+').count();
        let nc = body.iter().filter(|l| l.0 != b'-').count();
        // stated places: right, or off by a little or a lot, but in order
        let off = [0i64, 0, 1, -1, 2, -2, 5, -5, 40][g.below(9)];
        let want = (at as i64 + off).max(0) as usize;
        let os = (want + 1).max(oe + 1) - if oc == 0 { 1 } else { 0 };
        let off2 = [0i64, 0, 0, 1, -1, 3, -3][g.below(7)];
        let ns = ((want as i64 + off2).max(0) as usize + 1).max(ne + 1) - if nc == 0 { 1 } else { 0 };
        oe = os + oc;
        ne = ns + nc;
        d.extend(format!("@@ -{os},{oc} +{ns},{nc} @@\n").bytes());
        for (k, l) in &body {
            d.push(*k);
            d.extend(l);
        }
    }
    d
}

fn gen_apply(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ 99 ^ (c.shard as u64) << 32 ^ fnv(c.prop.as_bytes()));
    let mut i = 0usize;
    // 1. one hunk at every stated line over every small base
    let bases = all_texts(&["a", "b"], if c.thorough { 6 } else { 5 }, true);
    let bodies = ["-a\n", "+x\n", " a\n+x\n", "-a\n+x\n", " a\n-b\n", " a\n+x\n b\n", "-a\n-a\n+a\n", "+a\n b\n", "-b\n\\ No newline at end of file\n+b\n", "+b\n a\n-b\n"];
    for base in &bases {
        for body in bodies {
            for at in 0..8usize {
                i += 1;
                if i % c.shards != c.shard {
                    continue;
                }
                let ls = body.split_inclusive('\n').collect::<Vec<_>>();
                let oc = ls.iter().filter(|l| l.starts_with([' ', '-'])).count();
                let nc = ls.iter().filter(|l| l.starts_with([' ', '+'])).count();
                let d = format!("@@ -{0},{oc} +{0},{nc} @@\n{body}", at);
                let mut p = Prog::new("one");
                let t = p.text(base);
                let id = p.doc(d.as_bytes());
                let api = (i / c.shards % 3 == 0) as i64;
                let q = p.parse(api, id);
                p.apply(t, q);
                sink(p);
            }
        }
    }
    // 2. two hunks over small bases, at many pairs of stated lines
    let pairs = [("-a\n", "-a\n"), (" a\n+x\n", " a\n-b\n"), ("-b\n+a\n", "-a\n+b\n"), ("+a\n", " a\n+y\n"), (" a\n-b\n", " b\n"), ("-a\n+x\n+x\n", " b\n+z\n")];
    for base in &bases {
        for (b1, b2) in pairs {
            i += 1;
            if i % c.shards != c.shard {
                continue;
            }
            let cnt = |b: &str| {
                let ls: Vec<&str> = b.split_inclusive('\n').collect();
                (
                    ls.iter().filter(|l| l.starts_with([' ', '-'])).count(),
                    ls.iter().filter(|l| l.starts_with([' ', '+'])).count(),
                )
            };
            let ((o1, n1), (o2, n2)) = (cnt(b1), cnt(b2));
            let s1 = g.below(3) + 1;
            let s2 = s1 + o1.max(n1) + g.below(4);
            let d = format!("@@ -{s1},{o1} +{s1},{n1} @@\n{b1}@@ -{s2},{o2} +{s2},{n2} @@\n{b2}");
            let mut p = Prog::new("two");
            let t = p.text(base);
            let id = p.doc(d.as_bytes());
            let q = p.parse(API_S, id);
            p.apply(t, q);
            sink(p);
        }
    }
    // 3. random documents for random bases
    let n = if c.thorough { 400_000 } else { 45_000 };
    for k in 0..n {
        let style = [0, 1, 1, 2, 3, 4, 5][g.below(7)];
        let max = [5, 8, 14][g.below(3)];
        let base = text(&mut g, style, max);
        let d = app_doc(&mut g, &own_lines(&base), style);
        let e = [0, 0, 1, 2, 4][g.below(5)];
        let img = edit(&mut g, &base, style, e);
        let mut p = Prog::new("rnddoc");
        let id = p.doc(&d);
        let api = (k % 4 == 0) as i64;
        let q = p.parse(api, id);
        let t = p.text(&img);
        p.apply(t, q);
        sink(p);
    }
    // 4. created patches on drifted copies of their original
    for k in 0..n {
        let style = [0, 1, 2, 2, 4][g.below(5)];
        let max = [6, 10, 18][g.below(3)];
        let o = text(&mut g, style, max);
        let e = g.range(1, 4);
        let m = edit(&mut g, &o, style, e);
        let ctx = [0i64, 1, 1, 2, 3, -2][g.below(6)];
        // drift: lines before, after, inside
        let mut img = Vec::new();
        for _ in 0..[0, 1, 2, 3, 7][g.below(5)] {
            img.extend(word(&mut g, style));
            img.push(b'\n');
        }
        let cut = g.below(3).min(lines(&o).len());
        let body: Bytes = lines(&o)[if g.chance(1, 3) { cut } else { 0 }..].concat();
        img.extend(&body);
        if g.chance(1, 3) && (img.is_empty() || img.ends_with(b"\n")) {
            img.extend(&o);
        }
        let e = g.below(2);
        let img = edit(&mut g, &img, style, e);
        let mut p = Prog::new("drift");
        let api = (k % 4 == 1) as i64;
        let (a, b) = (p.text(&o), p.text(&m));
        let d = p.diff(api, a, b, ctx);
        let t = p.text(&img);
        p.apply(t, d);
        if k % 5 == 0 {
            let r = p.rev(d);
            p.apply(t, r);
        }
        sink(p);
    }
    // 5. far drift in long files of different lines, both directions, first and last positions
    for k in 0..if c.thorough { 400 } else { 40 } {
        let n = [30usize, 120, 600][k % 3];
        let ls: Vec<Bytes> = (0..n).map(|i| format!("l{i}\n").into_bytes()).collect();
        let at = match k % 4 {
            0 => 0,
            1 => n - 3,
            _ => g.below(n - 3),
        };
        let stated = match g.below(4) {
            0 => 1,
            1 => n,
            2 => n + g.below(3 * n),
            _ => g.below(n) + 1,
        };
        let mut d = format!("@@ -{stated},3 +{stated},3 @@\n").into_bytes();
        d.extend([b" ".to_vec(), ls[at].clone(), b"-".to_vec(), ls[at + 1].clone(), b"+new\n ".to_vec(), ls[at + 2].clone()].concat());
        // sometimes a second copy elsewhere
        let mut img = ls.clone();
        if g.chance(1, 2) {
            let to = g.below(n);
            for x in 0..3 {
                img.insert(to.min(img.len()) , ls[at + 2 - x].clone());
            }
        }
        let mut p = Prog::new("far");
        let id = p.doc(&d);
        let q = p.parse(API_S, id);
        let t = p.text(&img.concat());
        p.apply(t, q);
        sink(p);
    }
}

// ----------------------------------------------------------------- merging

fn merge_prog(prop: &str, tag: &str, o: &[u8], a: &[u8], b: &[u8], g: &mut Rng, raw: bool) -> Prog {
    let mut p = Prog::new(tag);
    let (x, y, z) = (p.text(o), p.text(a), p.text(b));
    let api = if raw || g.chance(1, 4) { API_B } else { API_S };
    match prop {
        "P14" => {
            let len = if g.chance(1, 8) {
                [63i64, 64, 65, 100, 127, 128, 255, 256, 257, 300, 512, 1000][g.below(12)]
            } else if g.chance(1, 300) {
                [4095i64, 4096, 10_000, 65_535, 65_536, 65_537][g.below(6)]
            } else {
                [0i64, 1, 2, 3, 5, 6, 7, 8, 10, 20, 40][g.below(11)]
            };
            p.merge(api, x, y, z, true, true, 7);
            p.merge(api, x, y, z, false, false, 7);
            p.merge(api, x, y, z, false, true, len);
            p.merge(1 - api, x, y, z, false, false, len);
        }
        "P15" => {
            let d3 = g.chance(2, 3);
            p.merge(api, x, y, z, false, d3, 9);
            p.merge(api, x, z, y, false, d3, 9);
        }
        _ => {
            if g.chance(2, 3) {
                p.merge(api, x, y, z, true, true, 7);
            } else {
                let d3 = g.chance(1, 2);
                let len = if g.chance(1, 10) { [0i64, 1, 3, 64, 255, 256, 300][g.below(7)] } else { 9 };
                p.merge(api, x, y, z, false, d3, len);
            }
        }
    }
    p
}

fn triple(g: &mut Rng, max: usize, style: usize) -> (Bytes, Bytes, Bytes) {
    let o = text(g, style, max);
    let side = |g: &mut Rng, o: &[u8]| match g.below(8) {
        0 => text(g, style, max),
        1 => o.to_vec(),
        2 => {
            let e = g.range(3, 6);
            edit(g, o, style, e)
        }
        _ => {
            let e = g.range(1, 2);
            edit(g, o, style, e)
        }
    };
    let a = side(g, &o);
    let b = if g.chance(1, 6) {
        let e = g.below(2);
        edit(g, &a, style, e)
    } else {
        side(g, &o)
    };
    (o, a, b)
}

fn gen_merge(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ 55 ^ (c.shard as u64) << 32 ^ fnv(c.prop.as_bytes()));
    let mut i = 0usize;
    // 1. every triple of small texts
    let small = all_texts(&["a", "b"], if c.thorough { 4 } else { 3 }, false);
    let nonl = all_texts(&["a", "b"], 2, true);
    let three = all_texts(&["a", "b", "c"], 2, false);
    let stretch = all_texts(&["a", "b"], 4, false);
    let mut all = |o: &Bytes, a: &Bytes, b: &Bytes, t: &str, g: &mut Rng, sink: &mut Sink| {
        i += 1;
        if i % c.shards == c.shard {
            sink(merge_prog(c.prop, t, o, a, b, g, false));
        }
    };
    for o in &small {
        for a in &small {
            for b in &small {
                all(o, a, b, "small", &mut g, sink);
            }
        }
    }
    for o in &nonl {
        for a in &nonl {
            for b in &nonl {
                all(o, a, b, "nonl", &mut g, sink);
            }
        }
    }
    for o in &three {
        for a in &three {
            for b in &three {
                all(o, a, b, "three", &mut g, sink);
            }
        }
    }
    if c.prop != "P14" {
        for o in &stretch {
            for a in &stretch {
                for b in &stretch {
                    all(o, a, b, "stretch", &mut g, sink);
                }
            }
        }
    }
    // 2. a fixed ancestor of different lines: every pair of single edits (kind, place, length)
    let base: Vec<Bytes> = (1..=5).map(|i| format!("{i}\n").into_bytes()).collect();
    let mut singles: Vec<Vec<Bytes>> = vec![base.clone()];
    for at in 0..=5usize {
        for del in 0..=2usize {
            for ins in 0..=2usize {
                if at + del > 5 || del + ins == 0 {
                    continue;
                }
                for w in 0..if ins > 0 { 2 } else { 1 } {
                    let mut v = base.clone();
                    v.drain(at..at + del);
                    for k in 0..ins {
                        v.insert(at + k, if w == 0 { format!("n{k}\n") } else { format!("m{}\n", at + k) }.into_bytes());
                    }
                    singles.push(v);
                }
            }
        }
    }
    let bt = base.concat();
    for a in &singles {
        for b in &singles {
            all(&bt, &a.concat(), &b.concat(), "edits", &mut g, sink);
        }
    }
    // 3. random
    let n = if c.thorough { 300_000 } else { 20_000 };
    for k in 0..n {
        let raw = k % 11 == 0;
        let style = if raw { 6 } else { [0, 1, 1, 2, 3, 4, 5][g.below(7)] };
        let max = [4, 7, 10, 16][g.below(4)];
        let (o, a, b) = triple(&mut g, max, style);
        let tag = if raw { "raw".to_string() } else { format!("rnd{max}") };
        sink(merge_prog(c.prop, &tag, &o, &a, &b, &mut g, raw));
    }
    // 4. longer, of different lines, several edits on each side at chosen distances
    for _ in 0..if c.thorough { 8000 } else { 1500 } {
        let n = g.range(8, 40);
        let o: Vec<Bytes> = (0..n).map(|i| format!("{i}\n").into_bytes()).collect();
        let side = |g: &mut Rng, w: &str| {
            let mut v = Vec::new();
            let mut i = 0;
            while i < n {
                match g.below(9) {
                    0 => i += 1,                                  // delete
                    1 => {
                        v.extend(format!("{w}{}\n", g.below(3)).into_bytes());
                        i += 1
                    }
                    2 => {
                        v.extend(format!("{w}{}\n", g.below(3)).into_bytes());
                        v.extend(&o[i]);
                        i += 1
                    }
                    _ => {
                        for _ in 0..g.range(1, 4) {
                            if i < n {
                                v.extend(&o[i]);
                                i += 1;
                            }
                        }
                    }
                }
            }
            v
        };
        let a = side(&mut g, "x");
        let w = ["x", "y"][g.below(2)];
        let b = side(&mut g, w);
        sink(merge_prog(c.prop, "long", &o.concat(), &a, &b, &mut g, false));
    }
    // 5. long texts, few changes: alike on both sides, next to each other, on either side
    for k in 0..if c.thorough { 4000 } else { 700 } {
        let n = [30usize, 60, 120, 300, 900][[0, 0, 1, 1, 2, 2, 3, 4][k % 8]];
        let many = g.chance(1, 3);
        let o: Vec<Bytes> = (0..n).map(|i| if many { format!("{}\n", i % 17) } else { format!("{i}\n") }.into_bytes()).collect();
        let (mut a, mut b) = (o.clone(), o.clone());
        let mut at = g.below(n / 3 + 1);
        while at < n {
            // one cluster of changes
            for _ in 0..g.range(1, 3) {
                if at >= n {
                    break;
                }
                let len = g.range(1, 2).min(n - at);
                let change = |g: &mut Rng, t: &mut [Bytes], w: usize| {
                    for x in at..at + len {
                        t[x] = match w % 3 {
                            0 => Vec::new(),
                            1 => format!("new{w}\n").into_bytes(),
                            _ => [t[x].clone(), format!("add{w}\n").into_bytes()].concat(),
                        };
                    }
                    let _ = &g;
                };
                let (v, w) = (g.below(6), g.below(6));
                match g.below(5) {
                    0 => change(&mut g, &mut a, v),
                    1 => change(&mut g, &mut b, v),
                    2 | 3 => {
                        change(&mut g, &mut a, v);
                        change(&mut g, &mut b, v);
                    }
                    _ => {
                        change(&mut g, &mut a, v);
                        change(&mut g, &mut b, w);
                    }
                }
                at += len + g.below(3);
            }
            at += g.range(1, n / 2 + 1);
        }
        sink(merge_prog(c.prop, &format!("sparse{n}"), &o.concat(), &a.concat(), &b.concat(), &mut g, false));
    }
}

// ------------------------------------------------------------------- names

fn gen_names(c: &Cfg, sink: &mut Sink) {
    gen_point(c, sink);
    let mut g = Rng::new(c.seed ^ 33 ^ (c.shard as u64) << 32);
    let n = if c.thorough { 400_000 } else { 60_000 };
    let body = |g: &mut Rng| if g.chance(1, 4) { (b"".to_vec(), b"".to_vec()) } else { (b"a\n".to_vec(), b"b\n".to_vec()) };
    let one = |on: &[u8], mn: &[u8], api: i64, tag: &str, g: &mut Rng| {
        let (o, m) = body(g);
        let mut p = Prog::new(tag);
        let (a, b) = (p.text(&o), p.text(&m));
        let d = p.diffx(api, a, b, 3, Some(on), Some(mn), -1);
        for via in 0..4 {
            let t = p.print(d, Pr { via, ..PLAIN });
            if via == 0 || g.chance(1, 3) {
                let q = p.parse(api, t);
                p.same(d, q);
            }
        }
        let r = p.rev(d);
        let t = p.print(r, PLAIN);
        p.parse(1 - api, t);
        p
    };
    // every name of up to two of the interesting characters
    let cs = ["a", " ", "\t", "\n", "\r", "\0", "\"", "\\", "n", "é", "\u{1}", "\u{7f}", "\u{b}", "\u{8}", "/", "0", "-", "\u{85}"];
    let mut i = 0usize;
    for x in std::iter::once("").chain(cs) {
        for y in std::iter::once("").chain(cs) {
            i += 1;
            if i % c.shards == c.shard {
                let nm = format!("{x}{y}");
                sink(one(nm.as_bytes(), b"m", API_S, "two", &mut g));
                sink(one(b"o", nm.as_bytes(), API_B, "two", &mut g));
            }
        }
    }
    for k in 0..n {
        let (on, mn) = (rand_name(&mut g), rand_name(&mut g));
        if k % 2 == 0 {
            sink(one(&on, &mn, (k / 2 % 2) as i64, "name", &mut g));
        } else {
            let mut d = b"--- ".to_vec();
            d.extend(name_field(&mut g, false));
            d.extend(b"\n+++ ");
            d.extend(name_field(&mut g, false));
            d.extend(b"\n");
            if g.chance(1, 2) {
                d.extend(b"@@ -1 +1 @@\n-a\n+b\n");
            }
            if g.chance(1, 30) {
                d.extend(b"--- again\n");
            }
            let api = g.below(2) as i64;
            sink(doc_prog("P20", "field", &d, api, &mut g));
        }
    }
    // only one of the two set, and a name without its line end
    for k in 0..64 {
        if k % c.shards != c.shard {
            continue;
        }
        let nm = rand_name(&mut g);
        let mut p = Prog::new("oneset");
        let (a, b) = (p.text(b"a\n"), p.text(b"b"));
        let d = p.diffx(API_S, a, b, 3, if k % 2 == 0 { Some(&nm) } else { None }, if k % 2 == 1 { Some(&nm) } else { None }, -1);
        let t = p.print(d, PLAIN);
        p.parse(API_B, t);
        sink(p);
        sink(doc_prog("P20", "unterminated", format!("--- a\n+++ b{k}").as_bytes(), API_S, &mut g));
    }
}

// ------------------------------------------------------------------ parity

fn gen_parity(c: &Cfg, sink: &mut Sink) {
    gen_point(c, sink);
    let mut g = Rng::new(c.seed ^ 44 ^ (c.shard as u64) << 32);
    let n = if c.thorough { 200_000 } else { 18_000 };
    for k in 0..n {
        // arbitrary bytes have no text interface; the text with one character per byte does
        let raw = k / 4 % 3 == 0;
        let apis = if raw { [API_L, API_B] } else { [API_S, API_B] };
        let tag = if raw { ["rdiff", "rdoc", "rmerge", "rapp"] } else { ["pdiff", "pdoc", "pmerge", "papp"] }[k % 4];
        let mut p = Prog::new(tag);
        match k % 4 {
            0 => {
                let max = [5, 10, 30][g.below(3)];
                let (o, m) = if raw { raw_pair(&mut g, max) } else { pair(&mut g, max) };
                let ctx = ctxs(&mut g);
                let (a, b) = (p.text(&o), p.text(&m));
                let (on, mn) = (rand_name(&mut g), rand_name(&mut g));
                let named = g.chance(1, 3);
                let nm = |x| if named { Some(x) } else { None };
                let ds = p.diffx(apis[0], a, b, ctx, nm(&on[..]), nm(&mn[..]), -1);
                let db = p.diffx(apis[1], a, b, ctx, nm(&on[..]), nm(&mn[..]), -1);
                p.apply(a, ds);
                p.apply(a, db);
                let (rs, rb) = (p.rev(ds), p.rev(db));
                p.apply(b, rs);
                p.apply(b, rb);
                for d in [ds, db] {
                    p.print(d, PLAIN);
                    p.print(d, Pr { color: true, nl: true, sb: true, via: 3 });
                    p.print(d, Pr { color: false, nl: false, sb: false, via: 3 });
                    p.print(d, Pr { color: true, nl: false, sb: false, via: 2 });
                }
            }
            1 => {
                let (d, _, _) = rand_doc(&mut g, if raw { 0 } else { 1 });
                let id = p.doc(&d);
                let (qs, qb) = (p.parse(apis[0], id), p.parse(apis[1], id));
                p.print(qs, PLAIN);
                p.print(qb, PLAIN);
                let t = p.text(b"a\nb\na\n");
                p.apply(t, qs);
                p.apply(t, qb);
            }
            2 => {
                let style = if raw { 6 } else { [0, 1, 2, 3, 4, 5][g.below(6)] };
                let (o, a, b) = triple(&mut g, 9, style);
                let (x, y, z) = (p.text(&o), p.text(&a), p.text(&b));
                let len = [0i64, 1, 7, 12, 40, 256, 300][g.below(7)];
                let d3 = g.chance(1, 2);
                for api in apis {
                    p.merge(api, x, y, z, true, true, 7);
                    p.merge(api, x, y, z, false, d3, len);
                    p.merge(api, x, y, z, false, !d3, len);
                }
            }
            _ => {
                let style = if raw { 6 } else { [0, 1, 3, 4][g.below(4)] };
                let base = text(&mut g, style, 10);
                let d = app_doc(&mut g, &own_lines(&base), style);
                let id = p.doc(&d);
                let (qs, qb) = (p.parse(apis[0], id), p.parse(apis[1], id));
                let e = g.below(3);
                let img = edit(&mut g, &base, style, e);
                let t = p.text(&img);
                p.apply(t, qs);
                p.apply(t, qb);
            }
        }
        sink(p);
    }
    // documents only, many of them, and all their beginnings
    let both = |d: &[u8], tag: &str, sink: &mut Sink| {
        let mut p = Prog::new(tag);
        let id = p.doc(d);
        let apis = if std::str::from_utf8(d).is_ok() { [API_S, API_B] } else { [API_L, API_B] };
        for api in apis {
            p.parse(api, id);
        }
        sink(p);
    };
    for (i, d) in tiny_docs(3).iter().enumerate() {
        if i % c.shards == c.shard {
            both(d, "ptiny", sink);
        }
    }
    let odd: [&[u8]; 5] = [
        b"@@ -1,0 +1,0 @@",
        b"--- a\n+++ b\n@@ -1,0 +2,0 @@ f\n@@ -3,0 +4,0 @@",
        b"@@ -0,0 +0,0 @@ @@\n",
        b"@@ -1,0  +1 @@\n+a\n\\ No newline at end of file\n@@",
        b"--- \"a\\n\"\t@@\n+++ b @@ \t\n@@ -1 +1,0 @@@@ \n-a @@",
    ];
    let n = if c.thorough { 60_000 } else { 4_000 };
    for k in 0..n {
        let d = if k < odd.len() { odd[k].to_vec() } else { rand_doc(&mut g, k).0 };
        both(&d, "ponly", sink);
        if k < odd.len() || (d.len() < 300 && k % 20 == 0) {
            for at in 0..d.len() {
                if k >= odd.len() || (at + k) % c.shards == c.shard {
                    both(&d[..at], "pcut", sink);
                }
            }
        }
    }
    // line rules on small texts with carriage returns, NULs and unicode separators
    let small = all_texts(&["a\r", "", "\u{2028}", "a\0"], 2, true);
    let mut i = 0;
    for o in &small {
        for m in &small {
            i += 1;
            if i % c.shards != c.shard {
                continue;
            }
            let mut p = Prog::new("plines");
            let (a, b) = (p.text(o), p.text(m));
            let ds = p.diff(API_S, a, b, 1);
            let db = p.diff(API_B, a, b, 1);
            for d in [ds, db] {
                p.print(d, PLAIN);
                p.apply(a, d);
            }
            for api in [API_S, API_B] {
                p.merge(api, a, b, a, true, true, 7);
                p.merge(api, a, b, b, true, true, 7);
            }
            sink(p);
        }
    }
}

// ---------------------------------------------------------------- totality

fn gen_total(c: &Cfg, sink: &mut Sink) {
    let sub = |prop: &'static str| Cfg { prop, thorough: c.thorough, seed: c.seed ^ 5, shard: c.shard, shards: c.shards };
    gen_docs(&sub("P17"), sink);
    gen_apply(&sub("P10"), sink);
    let mut g = Rng::new(c.seed ^ 66 ^ (c.shard as u64) << 32);
    let n = if c.thorough { 60_000 } else { 8_000 };
    for k in 0..n {
        let max = [3, 8, 25][g.below(3)];
        let (o, m) = if k % 5 == 0 { raw_pair(&mut g, max) } else { pair(&mut g, max) };
        let api = if k % 5 == 0 { API_B } else { g.below(2) as i64 };
        let mut p = Prog::new("all");
        let (a, b) = (p.text(&o), p.text(&m));
        let ctx = ctxs(&mut g);
        let d = p.diff(api, a, b, ctx);
        p.apply(a, d);
        p.apply(b, d);
        let r = p.rev(d);
        p.apply(a, r);
        p.apply(b, r);
        let t = p.print(d, Pr { color: g.chance(1, 3), nl: g.chance(1, 2), sb: g.chance(1, 2), via: 2 + g.below(2) as i64 });
        let q = p.parse(api, t);
        p.look(q);
        let f = Pr { color: g.chance(1, 3), nl: g.chance(1, 2), sb: g.chance(1, 2), via: g.below(2) as i64 };
        p.write(d, f, [g.below(2 * max) as i64 * 3 - 1, 1 + g.below(9) as i64, g.below(4) as i64, g.below(3) as i64]);
        let x = text(&mut g, if api == API_B { 6 } else { 1 }, max);
        let e = p.text(&x);
        p.apply(e, d);
        let len = [0i64, 1, 7, 300][g.below(4)];
        p.merge(api, a, b, e, false, g.chance(1, 2), len);
        p.merge(api, e, a, b, true, true, 7);
        sink(p);
    }
    let big: &[(&str, &[i64])] = &[
        ("disjoint", &[2500, 0, 3]),
        ("sparse", &[140_000, 0, 3]),
        ("sparse", &[70_000, 0, 0]),
        ("binary", &[3000, 1, 3]),
        ("binary", &[2000, 2, 0]),
        ("ternary", &[2500, 3, 3]),
        ("blank", &[20_000, 0, 3]),
        ("reverse", &[2000, 0, 1]),
        ("rotate", &[3000, 0, 3]),
        ("oneside", &[100_000, 0, 3]),
        ("longline", &[3_000_000, 0, 3]),
        ("nonl", &[3000, 0, 3]),
        ("parsehunks", &[20_000, 0]),
        ("regions", &[9000, 0]),
        ("regions", &[6000, 1]),
        ("regions", &[5000, 2]),
        ("regions", &[5000, 3]),
        ("halves", &[16_000, 0, 0]),
        ("merge", &[3000, 4]),
        ("merge", &[900, 5]),
        ("emptyparse", &[200_000, 0]),
        ("disjoint", &[1, 0, 0]),
        ("binary", &[257, 9, 1_000_000]),
    ];
    for (i, (w, n)) in big.iter().enumerate() {
        if i % c.shards == c.shard {
            let mut p = Prog::new("big");
            p.big(w, n.to_vec());
            sink(p);
        }
    }
    if c.thorough {
        for (i, (w, n)) in big.iter().enumerate() {
            for s in 0..6i64 {
                if (i + s as usize) % c.shards == c.shard {
                    let mut p = Prog::new("bigger");
                    let mut v = n.to_vec();
                    v[0] = v[0] * 3 / 2 + s * 7;
                    v[1] += 100 * s;
                    p.big(w, v);
                    sink(p);
                }
            }
        }
    }
}

// --------------------------------------------------------------- histories

fn gen_hist(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ 22 ^ (c.shard as u64) << 32);
    let n = if c.thorough { 200_000 } else { 20_000 };
    for k in 0..n {
        let style = [0, 1, 1, 2, 3, 4, 5][g.below(7)];
        let api = g.below(2) as i64;
        let mut p = Prog::new("versions");
        let max = [10, 10, 10, 25, 60, 200][g.below(6)];
        let max = if k % 10 == 0 { max } else { max.min(25) };
        let mut v = text(&mut g, style, max);
        let first = p.text(&v);
        let mut ids = vec![first];
        let mut ps = Vec::new();
        for _ in 0..g.range(2, 5) {
            let e = g.range(1, 3);
            v = if g.chance(1, 8) { text(&mut g, style, max) } else { edit(&mut g, &v, style, e) };
            let id = p.text(&v);
            let ctx = [0i64, 0, 1, 2, 3, -1, -2][g.below(7)];
            let mut d = p.diff(api, *ids.last().unwrap(), id, ctx);
            // any number of detours
            let mut flips = 0;
            for _ in 0..g.below(4) {
                if g.chance(1, 2) {
                    d = p.rev(d);
                    flips += 1;
                } else {
                    let t = p.print(d, Pr { via: 2 + g.below(2) as i64, sb: g.chance(1, 2), ..PLAIN });
                    d = p.parse(if g.chance(1, 3) && style != 6 { 1 - api } else { api }, t);
                }
            }
            ids.push(id);
            if flips % 2 == 1 {
                d = p.rev(d);
            }
            ps.push(d);
        }
        let mut cur = ids[0];
        for d in &ps {
            cur = p.apply(cur, *d);
        }
        for d in ps.iter().rev() {
            let r = p.rev(*d);
            cur = p.apply(cur, r);
        }
        let _ = k;
        sink(p);
    }
    // two patches of one text, both orders
    for k in 0..n / 2 {
        let n = g.range(6, 24);
        let o: Vec<Bytes> = (0..n).map(|i| format!("{i}\n").into_bytes()).collect();
        let change = |g: &mut Rng, lo: usize, hi: usize, w: &str| {
            let mut v = o.clone();
            for _ in 0..g.range(1, 2) {
                let at = g.range(lo, hi - 1);
                match g.below(3) {
                    0 => v[at] = format!("{w}{at}\n").into_bytes(),
                    1 => v[at].extend(format!("{w}{at}\n").into_bytes()),
                    _ => v[at] = Vec::new(),
                }
            }
            v.concat()
        };
        let cut = g.range(2, n - 2);
        let m1 = change(&mut g, 0, cut, "x");
        let m2 = change(&mut g, cut, n, "y");
        let api = (k % 2) as i64;
        let ctx = g.range(1, 3) as i64;
        let mut p = Prog::new("commute");
        let (a, b, d) = (p.text(&o.concat()), p.text(&m1), p.text(&m2));
        let (p1, p2) = (p.diff(api, a, b, ctx), p.diff(api, a, d, ctx));
        let (x1, x2) = (p.apply(a, p1), p.apply(a, p2));
        let (y1, y2) = (p.apply(x1, p2), p.apply(x2, p1));
        p.commute(a, p1, p2, y1, y2);
        sink(p);
    }
}

/// programs whose calls are to be repeated elsewhere (property P18)
pub fn determinism(c: &Cfg, k: usize) -> Prog {
    let mut g = Rng::new(c.seed ^ 88 ^ (c.shard as u64) << 32 ^ (k as u64) << 8);
    let mut p = Prog::new(&format!("again{}", k % 4));
    let style = [0, 1, 2, 3, 4, 5][g.below(6)];
    let max = [6, 15, 40][g.below(3)];
    let (o, a, b) = triple(&mut g, max, style);
    let api = g.below(2) as i64;
    let (x, y, z) = (p.text(&o), p.text(&a), p.text(&b));
    let ctx = ctxs(&mut g);
    let d = p.diff(api, x, y, ctx);
    let d2 = p.diff(api, x, z, ctx);
    p.apply(x, d);
    p.apply(y, d2);
    p.look(d);
    let r = p.rev(d);
    p.apply(y, r);
    let t = p.print(d, PLAIN);
    let q = p.parse(api, t);
    p.apply(x, q);
    p.merge(api, x, y, z, true, true, 7);
    p.merge(api, x, z, y, false, false, 5);
    let (doc, _, _) = rand_doc(&mut g, 1);
    let id = p.doc(&doc);
    let q2 = p.parse(api, id);
    p.apply(x, q2);
    p.print(q2, Pr { color: true, nl: true, sb: true, via: 2 });
    p.look(q2);
    p.look(d);
    let e = p.copy(q2);
    p.apply(x, e);
    let e = p.copy(r);
    p.apply(y, e);
    p.look(e);
    // where several answers are possible: few letters, hunks stated off their place
    for _ in 0..2 {
        let few = g.below(2);
        let base = text(&mut g, few, 14);
        let doc = app_doc(&mut g, &own_lines(&base), few);
        let id = p.doc(&doc);
        let q = p.parse(api, id);
        let off = edit(&mut g, &base, few, 2);
        for t in [&base, &off] {
            let t = p.text(t);
            let t = p.apply(t, q);
            p.apply(t, q);
        }
    }
    let (o, a, b) = triple(&mut g, 5, 0);
    let (x, y, z) = (p.text(&o), p.text(&a), p.text(&b));
    for ctx in [0, 1] {
        p.diff(api, x, y, ctx);
        p.diff(1 - api, z, x, ctx);
    }
    p.merge(1 - api, x, y, z, false, true, 3);
    p.merge(api, z, y, x, true, true, 7);
    for _ in 0..2 {
        let (doc, _, _) = rand_doc(&mut g, 1);
        let bad = mutate(&mut g, &doc);
        let id = p.doc(&bad);
        p.parse(api, id);
        p.parse(1 - api, id);
    }
    writes(&mut p, d, g.range(1, 60), &mut g);
    formats(&mut p, d2, &mut g, true);
    if k % 5 == 4 {
        let n = [40, 100, 300, 1500][g.below(4)];
        goes_on(&mut p, &b"long".repeat(n / 4));
        p.tag = "long".into();
    }
    p
}

/// a patch read, looked at, copied, used, and looked at again
fn copied(p: &mut Prog, q: i64, g: &mut Rng) {
    let e = p.copy(q);
    p.look(e);
    p.same(q, e);
    match g.below(4) {
        0 => {
            let r = p.rev(q);
            let f = p.copy(r);
            p.same(r, f);
            p.look(f);
        }
        1 => {
            p.print(q, PLAIN);
            p.print(e, PLAIN);
        }
        2 => {
            let t = p.text(b"a\nb\n");
            p.apply(t, q);
            p.apply(t, e);
        }
        _ => {}
    }
    p.look(q);
}

fn gen_copies(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ 89 ^ (c.shard as u64) << 32);
    let n = if c.thorough { 200_000 } else { 12_000 };
    for k in 0..n {
        let mut p = Prog::new("copied");
        let q = if k % 4 == 0 {
            let (o, m) = pair(&mut g, 12);
            let (a, b) = (p.text(&o), p.text(&m));
            let (on, mn) = (rand_name(&mut g), rand_name(&mut g));
            let named = g.chance(1, 2);
            let nm = |x| if named { Some(x) } else { None };
            let api = g.below(2) as i64;
            let ctx = ctxs(&mut g);
            p.diffx(api, a, b, ctx, nm(&on[..]), nm(&mn[..]), -1)
        } else {
            let raw = k % 9 == 0;
            let d = good_doc(&mut g, raw);
            let id = p.doc(&d);
            p.parse(if raw || g.chance(1, 3) { API_B } else { API_S }, id)
        };
        copied(&mut p, q, &mut g);
        sink(p);
    }
}

/// one quantity at a time through all its interesting values
fn gen_sized(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ 11 ^ (c.shard as u64) << 32 ^ fnv(c.prop.as_bytes()));
    let top = if c.thorough { 5200 } else { 2100 };
    let cheap = matches!(c.prop, "P08" | "P09" | "P10" | "P11" | "P20");
    let reps = if c.thorough { 60 } else if cheap { 24 } else { 5 };
    let mut i = 0usize;
    let mut mine = |n: usize| {
        i += 1;
        (i + n) % c.shards == c.shard
    };
    let heavy = matches!(c.prop, "P06" | "P07" | "P16" | "P17" | "P19" | "P20" | "P22");
    let top = if heavy { top / 2 } else { top };
    for n in sized::sizes(top) {
        let reps = (reps * 100 / (100 + n)).max(1);
        for _ in 0..reps {
            if matches!(c.prop, "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" | "P16" | "P17" | "P19" | "P21" | "P22") {
                for dim in 0..sized::TEXTS {
                    if !mine(n) {
                        continue;
                    }
                    let (o, m, ctx, w) = sized::texts(&mut g, dim, n);
                    let api = g.below(2) as i64;
                    let tag = format!("sized{}", dim);
                    match c.prop {
                        "P16" | "P17" => {
                            let mut p = Prog::new(&tag);
                            let (a, b) = (p.text(&o), p.text(&m));
                            for api in [API_S, API_B] {
                                let d = p.diffx(api, a, b, ctx, None, None, w);
                                p.apply(a, d);
                                let t = p.print(d, Pr { color: g.chance(1, 4), ..PLAIN });
                                p.parse(api, t);
                            }
                            sink(p);
                        }
                        "P21" => {
                            let mut p = Prog::new(&tag);
                            let (a, b) = (p.text(&o), p.text(&m));
                            let mut d = p.diffx(api, a, b, ctx, None, None, w);
                            let mut turns = 0;
                            for _ in 0..g.range(1, 3) {
                                if g.chance(1, 2) {
                                    d = p.rev(d);
                                    turns += 1;
                                }
                                let t = p.print(d, PLAIN);
                                d = p.parse(api, t);
                            }
                            let (x, y) = if turns % 2 == 0 { (a, b) } else { (b, a) };
                            p.apply(x, d);
                            let r = p.rev(d);
                            p.apply(y, r);
                            sink(p);
                        }
                        _ => sink(cycle_w(c.prop, &tag, api, &o, &m, ctx, w, &mut g)),
                    }
                }
            }
            if matches!(c.prop, "P02" | "P06" | "P07" | "P08" | "P09" | "P16" | "P17" | "P18" | "P19" | "P20") {
                for dim in 0..sized::DOCS {
                    if !mine(n) || (c.prop == "P20" && dim != 3) {
                        continue;
                    }
                    let d = sized::doc(&mut g, dim, n);
                    let api = g.below(2) as i64;
                    let tag = format!("sizeddoc{}", dim);
                    if c.prop == "P18" {
                        let mut p = Prog::new(&tag);
                        let id = p.doc(&d);
                        let q = p.parse(api, id);
                        copied(&mut p, q, &mut g);
                        sink(p);
                    } else if c.prop == "P16" {
                        let mut p = Prog::new(&tag);
                        let id = p.doc(&d);
                        for api in [API_S, API_B] {
                            let q = p.parse(api, id);
                            p.print(q, PLAIN);
                        }
                        sink(p);
                    } else {
                        sink(doc_prog(c.prop, &tag, &d, api, &mut g));
                    }
                }
            }
            if matches!(c.prop, "P10" | "P11" | "P16" | "P17") {
                for dim in 0..sized::APPLIES {
                    if !mine(n) {
                        continue;
                    }
                    let (d, t) = sized::apply(&mut g, dim, n);
                    let mut p = Prog::new(&format!("sizedapply{dim}"));
                    let id = p.doc(&d);
                    let t = p.text(&t);
                    let apis = if c.prop != "P17" { vec![API_S, API_B] } else { vec![g.below(2) as i64] };
                    for api in apis {
                        let q = p.parse(api, id);
                        let x = p.apply(t, q);
                        if c.prop == "P11" && g.chance(1, 3) {
                            let r = p.rev(q);
                            p.apply(x, r);
                        }
                    }
                    sink(p);
                }
            }
            if matches!(c.prop, "P12" | "P13" | "P14" | "P15" | "P16" | "P17") {
                for dim in 0..sized::MERGES {
                    if !mine(n) || n > 2100 {
                        continue;
                    }
                    let (o, a, b) = sized::merge(&mut g, dim, n);
                    let tag = format!("sizedmerge{dim}");
                    if matches!(c.prop, "P16" | "P17") {
                        let mut p = Prog::new(&tag);
                        let (x, y, z) = (p.text(&o), p.text(&a), p.text(&b));
                        for api in [API_S, API_B] {
                            p.merge(api, x, y, z, true, true, 7);
                            p.merge(api, x, y, z, false, false, n as i64);
                        }
                        sink(p);
                    } else {
                        sink(merge_prog(c.prop, &tag, &o, &a, &b, &mut g, false));
                    }
                }
                // markers of that length
                if mine(n) {
                    let (o, a, b) = triple(&mut g, 4, 1);
                    let mut p = Prog::new("sizedmarker");
                    let (x, y, z) = (p.text(&o), p.text(&a), p.text(&b));
                    for api in [API_S, API_B] {
                        p.merge(api, x, y, z, false, g.chance(2, 3), n as i64);
                    }
                    sink(p);
                }
            }
            if matches!(c.prop, "P06" | "P07" | "P16" | "P17" | "P19" | "P20") && mine(n) {
                let on = sized::name(&mut g, n);
                let k = if g.chance(1, 2) { n } else { 3 };
                let mn = sized::name(&mut g, k);
                let mut p = Prog::new("sizedname");
                let (a, b) = (p.text(b"a\n"), p.text(b"b\n"));
                for api in [API_S, API_B] {
                    let d = p.diffx(api, a, b, 3, Some(&on), Some(&mn), -1);
                    let t = p.print(d, PLAIN);
                    p.parse(api, t);
                    if c.prop == "P19" {
                        p.print(d, Pr { color: true, via: 2, ..PLAIN });
                    }
                }
                sink(p);
            }
        }
    }
    // the cheap quantities go much further
    if matches!(c.prop, "P10" | "P11" | "P17") {
        for n in sized::sizes(70_000).into_iter().filter(|n| *n > top) {
            for dim in 0..sized::APPLIES {
                if mine(n) && (c.thorough || g.chance(1, 4)) {
                    let (d, t) = sized::apply(&mut g, dim, n);
                    if d.len() > 20_000 {
                        continue;
                    }
                    let mut p = Prog::new("farapply");
                    let id = p.doc(&d);
                    let t = p.text(&t);
                    let q = p.parse(g.below(2) as i64, id);
                    p.apply(t, q);
                    sink(p);
                }
            }
        }
    }
    if matches!(c.prop, "P01" | "P02" | "P03" | "P04" | "P05" | "P21") {
        for n in sized::sizes(70_000).into_iter().filter(|n| *n > top) {
            for dim in [0usize, 1, 9] {
                if mine(n) && (c.thorough || g.chance(1, 4)) {
                    let (o, m, ctx, w) = sized::texts(&mut g, dim, n);
                    if w >= 0 {
                        sink(cycle_w(if c.prop == "P21" { "P01" } else { c.prop }, "farsized", g.below(2) as i64, &o, &m, ctx, w, &mut g));
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- variants

/// every line of the texts, and of the bodies of hunks, goes on with `s`
fn goes_on(q: &mut Prog, s: &[u8]) {
    for o in q.ops.iter_mut().filter(|o| o.k == "text" || o.k == "doc") {
        let mut v = Vec::new();
        for l in lines(&o.b[0]) {
            let body = o.k == "text" || matches!(l.first(), Some(b' ' | b'+' | b'-')) && !l.starts_with(b"--- ") && !l.starts_with(b"+++ ");
            let h = l.strip_suffix(b"\n").unwrap_or(l);
            v.extend(h);
            if body {
                v.extend(s);
            }
            v.extend(&l[h.len()..]);
        }
        o.b[0] = v;
    }
}

/// the same calls on other texts of the same lengths
pub fn twin(p: &Prog) -> Prog {
    let mut q = p.clone();
    for (i, o) in q.ops.iter_mut().filter(|o| o.k == "text" || o.k == "doc").enumerate() {
        if o.k == "doc" || i % 4 == 3 {
            for b in o.b[0].iter_mut() {
                *b = match *b {
                    b'a' => b'b',
                    b'b' => b'a',
                    b'x' => b'y',
                    b => b,
                };
            }
        } else if let Ok(t) = std::str::from_utf8(&o.b[0]) {
            o.b[0] = t.chars().rev().collect::<String>().into_bytes();
        } else {
            o.b[0].reverse();
        }
    }
    q
}

/// the same program over other texts: letters that become something longer, bytes that are no
/// text, CRLF, or all texts between the same lines.  Structure and size stay what they were.
fn variant(p: &Prog, g: &mut Rng) -> Option<Prog> {
    let size: usize = p.ops.iter().filter(|o| o.k == "text" || o.k == "doc").map(|o| o.b[0].len()).sum();
    let texts = p.ops.iter().filter(|o| o.k == "text").count();
    let docs = p.ops.iter().any(|o| o.k == "doc");
    if size > 300_000 || p.ops.iter().any(|o| o.k == "big") {
        return None;
    }
    // do all calls that take bytes as such?
    let bytes = p.ops.iter().all(|o| match o.k.as_str() {
        "diff" => o.n[4] == API_B,
        "parse" => o.n[2] == API_B,
        "merge" => o.n[6] == API_B,
        _ => true,
    });
    let mut q = p.clone();
    let mut kind = g.below(if docs { 8 } else { 11 });
    if kind == 0 && !bytes {
        kind = 1;
    }
    q.tag = format!("{}~", p.tag);
    if kind == 6 {
        // what the files are called
        let names: [&[u8]; 8] = [b"b", b"a/b.rs", b"with space", b"t\tb", b"\"q\"", b"/dev/null", "é".as_bytes(), b"back\\slash\n"];
        for o in q.ops.iter_mut().filter(|o| o.k == "diff" && o.n[6] + o.n[7] == 0) {
            let k = g.below(4);
            for s in [0, 1] {
                if k != 1 + s {
                    o.b[s] = g.pick(&names).to_vec();
                    o.n[6 + s] = 1;
                }
            }
        }
        return Some(q);
    }
    if kind == 7 {
        // every line goes on in the same way
        let all: usize = p.ops.iter().filter(|o| o.k == "text" || o.k == "doc").map(|o| lines(&o.b[0]).len()).sum();
        let fill = [&b"x"[..], "é".as_bytes(), b" ", b"\t", b"+ -", b"@"][g.below(6)];
        let want = [1usize, 4, 20, 64, 75, 78, 79, 80, 81, 100, 126, 127, 128, 130, 255, 256, 300, 600][g.below(18)];
        let mut s = fill.repeat((want / fill.len()).min(40_000 / (all + 1)));
        s.extend([&b""[..], b" ", b"  ", b"\r", b"\t", b"\\", b"-", b"+"][g.below(8)]);
        goes_on(&mut q, &s);
        return Some(q);
    }
    let kind = if kind > 7 { kind - 2 } else { kind };
    if kind < 5 {
        // letters that do not occur in the no-newline message
        let from: &[u8] = [&b"bcxABmprz1"[..], &b"xBC"[..], &b"b"[..], &b"c-"[..], &b"sh2 "[..]][g.below(5)];
        let to: &[u8] = match kind {
            0 => [&b"\xff"[..], &b"\xc3"[..], &b"\x80"[..], &b"a\xe9"[..]][g.below(4)],
            1 => "é".as_bytes(),
            2 => ["日", "\u{2028}", "\u{feff}"][g.below(3)].as_bytes(),
            3 => &b"\0"[..],
            _ => &b"\x1b[1m"[..],
        };
        let map = |t: &[u8], skip: usize, out: &mut Bytes| {
            out.extend(&t[..skip]);
            for b in &t[skip..] {
                if from.contains(b) {
                    out.extend(to);
                } else {
                    out.push(*b);
                }
            }
        };
        for o in q.ops.iter_mut() {
            let mut v = Vec::with_capacity(size);
            match o.k.as_str() {
                "text" => map(&o.b[0], 0, &mut v),
                "doc" => {
                    for l in lines(&o.b[0]) {
                        match l {
                            [b'@', b'@', ..] | [b'\\', ..] => v.extend(l),
                            [b'-', b'-', b'-', b' ', ..] | [b'+', b'+', b'+', b' ', ..] => map(l, 4, &mut v),
                            [_, ..] => map(l, 1, &mut v),
                            _ => {}
                        }
                    }
                }
                _ => continue,
            }
            o.b[0] = v;
        }
        return Some(q);
    }
    if kind == 5 {
        for o in q.ops.iter_mut() {
            if o.k != "text" && o.k != "doc" {
                continue;
            }
            let mut v = Vec::with_capacity(size);
            for l in lines(&o.b[0]) {
                let body = o.k == "text" || matches!(l.first(), Some(b' ' | b'+' | b'-')) && !l.starts_with(b"--- ") && !l.starts_with(b"+++ ");
                match l.strip_suffix(b"\n") {
                    Some(h) if body => {
                        v.extend(h);
                        v.extend(b"\r\n");
                    }
                    _ => v.extend(l),
                }
            }
            o.b[0] = v;
        }
        return Some(q);
    }
    if texts == 0 {
        return None;
    }
    // known bounds of distances hold only when lines stay lines
    let ends = p.ops.iter().all(|o| o.k != "text" || matches!(o.b[0].last(), None | Some(b'\n')));
    if kind != 6 && !ends && p.ops.iter().any(|o| o.k == "diff" && o.n[5] >= 0) {
        return None;
    }
    let top = if g.chance(1, 8) { 10 } else { 6 };
    let top = g.below(top);
    let n = if size > 4000 { [1usize, 2, 5][g.below(3)] } else { [1usize, 3, 10, 40, 70, 130, 260, 300, 520, 1100][top] };
    let same = g.chance(1, 3);
    let blk: Bytes = (0..n).flat_map(|i| if same { b"k\n".to_vec() } else { format!("k{i}\n").into_bytes() }).collect();
    for o in q.ops.iter_mut() {
        if o.k == "text" {
            let mut v = Vec::new();
            if kind != 7 {
                v.extend(&blk);
            }
            v.extend(&o.b[0]);
            if kind != 6 {
                v.extend(&blk);
            }
            o.b[0] = v;
        }
    }
    Some(q)
}

pub fn generate(c: &Cfg, sink: &mut Sink) {
    let mut g = Rng::new(c.seed ^ 222 ^ (c.shard as u64) << 32 ^ fnv(c.prop.as_bytes()));
    let mut sink = |p: Prog| {
        let v = if g.chance(1, if p.tag.starts_with("sized") { 4 } else { 8 }) { variant(&p, &mut g) } else { None };
        sink(p);
        if let Some(v) = v {
            sink(v);
        }
    };
    let sink: &mut Sink = &mut sink;
    gen_sized(c, sink);
    match c.prop {
        p if CYCLE.contains(&p) && p != "P16" => {
            gen_cycle(c, sink);
            if p == "P06" {
                gen_near(c, sink);
            }
            if p == "P22" {
                gen_rooms(c, sink);
            }
            if matches!(p, "P02" | "P06" | "P07" | "P19") {
                gen_docs(c, sink);
            }
        }
        "P08" | "P09" => gen_docs(c, sink),
        "P10" | "P11" => gen_apply(c, sink),
        "P12" | "P13" | "P14" | "P15" => gen_merge(c, sink),
        "P16" => gen_parity(c, sink),
        "P17" => gen_total(c, sink),
        "P20" => gen_names(c, sink),
        "P21" => gen_hist(c, sink),
        "P18" => gen_copies(c, sink),
        _ => {}
    }
}
