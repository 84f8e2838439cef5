//! Programs in which one quantity (lines, bytes in a line, hunks, drift, digits, ...) takes
//! every small value, the usual powers and their neighbours, and the numbers written in the
//! sources of the code under test.

use crate::dict::dict;
use crate::gen::*;
use crate::util::*;

/// the values a quantity takes, up to `max`
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=72).collect();
    for p in [80usize, 90, 96, 100, 120, 128, 150, 192, 200, 250, 256, 300, 400, 500, 512, 600, 750, 1000, 1024, 1500, 2000, 2048, 3000, 4000, 4096, 5000, 8192, 10_000, 16_384, 20_000, 32_768, 50_000, 65_536, 100_000] {
        v.extend([p - 1, p, p + 1]);
    }
    for &n in &dict().nums {
        if let Ok(n) = usize::try_from(n) {
            if (3..=max).contains(&n) {
                v.extend([n - 1, n, n + 1, n + 2, 2 * n - 1, 2 * n, 2 * n + 1]);
            }
        }
    }
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v
}

fn line(i: usize) -> Bytes {
    format!("line {i}\n").into_bytes()
}
fn numbered(n: usize) -> Vec<Bytes> {
    (0..n).map(line).collect()
}
fn rep(b: u8, n: usize) -> Bytes {
    vec![b; n]
}

/// two texts, a context length, a number of changes that suffices (or -1)
pub fn texts(g: &mut Rng, dim: usize, n: usize) -> (Bytes, Bytes, i64, i64) {
    let ctx = [0i64, 1, 3, 3, 3, 2, 5][g.below(7)];
    let (mut o, mut m, w): (Vec<Bytes>, Vec<Bytes>, i64) = match dim {
        // n different lines, one change near the start, the end, or anywhere
        0 => {
            let o = numbered(n);
            let mut m = o.clone();
            let at = [0, n / 2, n.saturating_sub(1), n, g.below(n + 1)][g.below(5)];
            let w = match g.below(3) {
                0 if at < n => {
                    m.remove(at);
                    1
                }
                1 if at < n => {
                    m[at] = b"changed\n".to_vec();
                    2
                }
                _ => {
                    m.insert(at, b"new\n".to_vec());
                    1
                }
            };
            (o, m, w)
        }
        // lines of n bytes that differ in one byte, or not at all
        1 => {
            let b = [b'x', b' ', b'-', b'\t', b'@'][g.below(5)];
            let mut l = rep(b, n);
            if n > 3 && g.chance(1, 4) {
                l = "é".repeat(n / 2).into_bytes();
            }
            let mut k = l.clone();
            match g.below(6) {
                0 => k.push(b'y'),
                1 => k.insert(0, b'y'),
                // somewhere within, of the same length or one more
                4 | 5 => {
                    let at = if g.chance(1, 2) { n / 2 } else { g.below(n + 1) }.min(k.len());
                    if at < k.len() && k[at].is_ascii() && g.chance(2, 3) {
                        k[at] = b'y';
                    } else if k.is_ascii() {
                        k.insert(at, b'y');
                    } else {
                        let at = at / 2 * 2;
                        let end = if g.chance(2, 3) { (at + 2).min(k.len()) } else { at };
                        k.splice(at..end, "ü".bytes());
                    }
                }
                2 if k.last().is_some_and(|b| b.is_ascii()) => *k.last_mut().unwrap() = b'y',
                _ => k.push(b'\r'),
            }
            l.push(b'\n');
            k.push(b'\n');
            let mut o = vec![b"a\n".to_vec(), l.clone(), b"b\n".to_vec(), l.clone()];
            let mut m = o.clone();
            let at = [1, 3][g.below(2)];
            m[at] = k;
            if g.chance(1, 2) {
                o.push(b"c\n".to_vec());
                m.push(b"c\n".to_vec());
            }
            (o, m, 2)
        }
        // a block of n lines deleted, inserted, replaced by n or by another number
        2 | 3 | 4 => {
            let (p, q) = (g.below(5), g.below(5));
            let head: Vec<Bytes> = (0..p).map(|i| format!("h{i}\n").into_bytes()).collect();
            let tail: Vec<Bytes> = (0..q).map(|i| format!("t{i}\n").into_bytes()).collect();
            let blk: Vec<Bytes> = (0..n).map(|i| format!("o{i}\n").into_bytes()).collect();
            let k = [n, n, n + 1, n.saturating_sub(1), 2 * n, 1, g.below(n + 1)][g.below(7)];
            let other: Vec<Bytes> = (0..k).map(|i| format!("n{i}\n").into_bytes()).collect();
            let cat = |b: &[Bytes]| [&head[..], b, &tail[..]].concat();
            match dim {
                2 => (cat(&blk), cat(&[]), n as i64),
                3 => (cat(&[]), cat(&blk), n as i64),
                _ => (cat(&blk), cat(&other), (n + k) as i64),
            }
        }
        // n changes, each a hunk of its own (or all joined)
        5 => {
            let gap = (2 * ctx as usize) + [1, 1, 2, 0, 5][g.below(5)];
            let kind = g.below(4);
            let (mut o, mut m) = (Vec::new(), Vec::new());
            let mut w = 0;
            for i in 0..n {
                for j in 0..gap {
                    let l = format!("c{i}.{j}\n").into_bytes();
                    o.push(l.clone());
                    m.push(l);
                }
                let k = if kind == 3 { g.below(3) } else { kind };
                if k != 0 {
                    m.push(format!("new{i}\n").into_bytes());
                    w += 1;
                }
                if k != 1 {
                    o.push(format!("old{i}\n").into_bytes());
                    w += 1;
                }
            }
            if g.chance(1, 2) {
                o.push(b"end\n".to_vec());
                m.push(b"end\n".to_vec());
            }
            (o, m, w)
        }
        // runs of n equal lines, longer or shorter by a little
        6 => {
            let l = [&b"\n"[..], b"a\n", b"}\n"][g.below(3)].to_vec();
            let k = g.range(1, 3);
            let (p, q) = (g.below(3), g.below(3));
            let run = |n: usize| {
                let mut v: Vec<Bytes> = (0..p).map(|i| format!("h{i}\n").into_bytes()).collect();
                v.extend((0..n).map(|_| l.clone()));
                v.extend((0..q).map(|i| format!("t{i}\n").into_bytes()));
                v
            };
            (run(n), run(n + k), k as i64)
        }
        // a period of n lines, one period more
        7 => {
            let p = n.max(1);
            let k = [2, 3][g.below(2)];
            let o: Vec<Bytes> = (0..p * k).map(|i| line(i % p)).collect();
            let m: Vec<Bytes> = (0..p * (k + 1)).map(|i| line(i % p)).collect();
            (o, m, p as i64)
        }
        // about n unrelated changes in a text of few letters
        8 => {
            let n = n.min(700);
            let a = g.range(2, 4);
            let t = |g: &mut Rng, n: usize| -> Vec<Bytes> { (0..n).map(|_| vec![b'a' + g.below(a) as u8, b'\n']).collect() };
            let o = t(g, n);
            let m = t(g, n + n / 8);
            (o, m, -1)
        }
        // two changes n lines apart, the context a little more or less than half of that
        9 => {
            let ctx = (n / 2 + g.below(3)).saturating_sub(1);
            let (p, q) = (g.below(ctx + 2), g.below(ctx + 2));
            let mut o = numbered(p + n + q + 2);
            let mut m = o.clone();
            m[p] = b"x\n".to_vec();
            m[p + n + 1] = b"y\n".to_vec();
            if g.chance(1, 3) {
                m.remove(p + n + 1);
                m.remove(p);
                if g.chance(1, 2) {
                    std::mem::swap(&mut o, &mut m);
                }
                return (o.concat(), m.concat(), ctx as i64, 2);
            }
            return (o.concat(), m.concat(), ctx as i64, 4);
        }
        // a few lines moved within n
        _ if n > 3 && g.chance(1, 2) => {
            let k = g.range(1, 3).min(n - 1);
            let p = [0, n / 2, n / 2, n - k, g.below(n - k + 1)][g.below(5)].min(n - k);
            let q = [0, n / 2, n - k, n - k, g.below(n - k + 1)][g.below(5)].min(n - k);
            let o = numbered(n);
            let mut m = o.clone();
            let b: Vec<Bytes> = m.drain(p..p + k).collect();
            m.splice(q..q, b);
            let d = if p > q { p - q } else { q - p };
            (o, m, 2 * k.min(d) as i64)
        }
        // n lines moved over a few others
        _ => {
            let k = g.range(1, 4);
            let o = numbered(n + k);
            let m: Vec<Bytes> = o[k..].iter().chain(&o[..k]).cloned().collect();
            (o, m, 2 * k.min(n) as i64)
        }
    };
    let mut w = w;
    if g.chance(1, 4) {
        // the final newline of one, the other, or both
        let k = g.range(1, 3);
        let same = o.last() == m.last() && !o.is_empty();
        for (b, t) in [(1, &mut o), (2, &mut m)] {
            if k & b != 0 {
                if let Some(l) = t.last_mut() {
                    if l.len() > 1 {
                        l.pop();
                    }
                }
            }
        }
        w = if w < 0 || (same && o.last() == m.last()) { w } else { -2 };
    }
    if g.chance(1, 2) {
        std::mem::swap(&mut o, &mut m);
    }
    let (o, m) = (o.concat(), m.concat());
    if w == -2 {
        // small enough to be computed, or two more than without it
        w = -1;
    }
    (o, m, ctx, w)
}
pub const TEXTS: usize = 11;

/// a run of n bytes, whose characters may begin anywhere
fn fill(g: &mut Rng, n: usize) -> Bytes {
    let mut s = match g.below(7) {
        0 => rep(b' ', n),
        1 | 2 => {
            let c = ["é", "é", "日", "😀"][g.below(4)];
            let before = g.below(4).min(n);
            let mut s = rep(b'x', before);
            s.extend(c.repeat((n - before) / c.len()).bytes());
            s
        }
        3 => (0..n).map(|i| b"ab c-+@"[i % 7]).collect(),
        _ => rep(b'x', n),
    };
    while s.len() < n {
        s.push(b'y');
    }
    s
}

/// a document one of whose quantities is n; mostly well-formed
pub fn doc(g: &mut Rng, dim: usize, n: usize) -> Bytes {
    let mut d = doc_whole(g, dim, n);
    match g.below(12) {
        // cut off, at the end of a line or within one
        0 if !d.is_empty() => {
            let mut at = g.below(d.len());
            if g.chance(1, 2) {
                // within the longest line
                let ls = lines(&d);
                let (mut start, mut best) = (0, (0, 0));
                for l in ls {
                    if l.len() > best.1 {
                        best = (start, l.len());
                    }
                    start += l.len();
                }
                at = best.0 + [best.1 - 1, best.1 - 1, g.below(best.1)][g.below(3)];
            }
            while at > 0 && d[at] & 0xc0 == 0x80 {
                at -= 1;
            }
            d.truncate(at);
        }
        // a line goes on for n bytes
        1 | 2 => {
            let mut ls: Vec<Bytes> = lines(&d).into_iter().map(|l| l.to_vec()).collect();
            if !ls.is_empty() {
                let m = ls.len();
                let i = [0, 1, 2, m - 1, g.below(m), g.below(m)][g.below(6)].min(m - 1);
                let l = &mut ls[i];
                let end = l.len() - l.ends_with(b"\n") as usize;
                let mut at = if g.chance(1, 2) { end } else { g.below(end + 1) };
                while at > 0 && at < l.len() && l[at] & 0xc0 == 0x80 {
                    at -= 1;
                }
                let f = fill(g, n.min(70_000));
                l.splice(at..at, f);
                if g.chance(1, 6) && l.ends_with(b"\n") {
                    l.pop();
                }
                d = ls.concat();
            }
        }
        _ => {}
    }
    d
}

fn doc_whole(g: &mut Rng, dim: usize, n: usize) -> Bytes {
    let mut d = Vec::new();
    let head = |d: &mut Bytes, g: &mut Rng| {
        if g.chance(2, 3) {
            d.extend(b"--- a\n+++ b\n");
        }
    };
    let hunk = |d: &mut Bytes, os: usize, ns: usize, head: &[u8], body: &[(u8, Bytes)]| {
        let oc = body.iter().filter(|l| l.0 != b'+').count();
        let nc = body.iter().filter(|l| l.0 != b'-').count();
        d.extend(format!("@@ -{os},{oc} +{ns},{nc} @@").bytes());
        d.extend(head);
        d.push(b'\n');
        for (k, l) in body {
            d.push(*k);
            d.extend(l);
            d.push(b'\n');
        }
    };
    let one = |t: &[u8]| vec![(b'-', t.to_vec()), (b'+', b"i".to_vec())];
    match dim {
        // n hunks; sometimes one of them in the wrong order
        0 => {
            head(&mut d, g);
            let gap = [0usize, 0, 1, 7][g.below(4)];
            let wrong = if g.chance(1, 3) { g.below(n + 1) } else { n + 1 };
            let (mut os, mut ns) = (1, 1);
            let back = if g.chance(1, 2) { gap + 1 } else { gap + g.range(1, 20) };
            // a hunk that leaves nothing on a side makes the order of its neighbours doubtful
            let kinds = if g.chance(1, 4) { 3 } else { 2 };
            for i in 0..n {
                let body = match g.below(kinds) {
                    0 => vec![(b' ', b"c".to_vec()), (b'-', line(i)[..4].to_vec()), (b'+', b"i".to_vec())],
                    1 => vec![(b' ', b"c".to_vec()), (b'+', b"i".to_vec())],
                    _ => vec![(b'-', b"d".to_vec())],
                };
                let (oc, nc) = (body.iter().filter(|l| l.0 != b'+').count(), body.iter().filter(|l| l.0 != b'-').count());
                let (a, b) = match (i == wrong, g.below(2)) {
                    (true, 0) if os > back => (os - back, ns),
                    (true, _) if ns > back => (os, ns - back),
                    _ => (os, ns),
                };
                let ns0 = if nc == 0 { b - 1 } else { b };
                hunk(&mut d, a, ns0, if g.chance(1, 9) { b" fn" } else { b"" }, &body);
                os += oc + gap;
                ns += nc + gap;
            }
        }
        // a hunk of n lines; sometimes one more or less than its header says
        1 => {
            head(&mut d, g);
            let k = g.below(4);
            let body: Vec<(u8, Bytes)> = (0..n.max(1))
                .map(|i| (if k == 3 { [b' ', b'-', b'+'][g.below(3)] } else { [b' ', b'-', b'+'][k] }, format!("{i}").into_bytes()))
                .collect();
            hunk(&mut d, 1, 1, b"", &body);
            let at = d.windows(4).position(|w| w == b" @@\n").unwrap_or(0);
            match g.below(5) {
                0 => d.extend(b" more\n"),
                1 => d.extend(b"+more\n"),
                2 => {
                    let mut ls: Vec<Bytes> = lines(&d).into_iter().map(|l| l.to_vec()).collect();
                    ls.pop();
                    d = ls.concat();
                }
                3 if k > 0 && k < 3 => {
                    // one side only
                    let z = if k == 1 { format!("@@ -1,{} +0,0 @@\n", n.max(1)) } else { format!("@@ -0,0 +1,{} @@\n", n.max(1)) };
                    let start = lines(&d[..at]).iter().rev().skip(1).map(|l| l.len()).sum::<usize>();
                    let mut e = d[..start].to_vec();
                    e.extend(z.bytes());
                    e.extend(&d[at + 4..]);
                    d = e;
                }
                _ => {}
            }
        }
        // a heading of n bytes
        2 => {
            head(&mut d, g);
            let f = fill(g, n);
            let f = [&b" "[..], &f].concat();
            hunk(&mut d, 1, 1, &f, &one(b"d"));
        }
        // names of n bytes
        3 => {
            for (s, k) in [("--- ", g.below(6)), ("+++ ", g.below(6))] {
                d.extend(s.bytes());
                match k {
                    0 => d.extend(b"n"),
                    1 => {
                        d.push(b'"');
                        d.extend(rep(b'q', n));
                        d.extend(b"\\n\"");
                    }
                    2 => {
                        d.push(b'"');
                        for _ in 0..n {
                            d.extend(b"\\\\");
                        }
                        d.extend(b"\"");
                    }
                    3 => {
                        d.extend(rep(b'p', n));
                        d.extend(b"\t2024-01-01");
                    }
                    _ => d.extend(fill(g, n)),
                }
                d.push(b'\n');
            }
            hunk(&mut d, 1, 1, b"", &one(b"d"));
        }
        // n lines of preamble
        4 => {
            for i in 0..n {
                d.extend(match g.below(8) {
                    0 => b"\n".to_vec(),
                    1 => b"diff --git a/x b/x\n".to_vec(),
                    2 => b"-x\n".to_vec(),
                    3 => b" y\n".to_vec(),
                    _ => line(i),
                });
            }
            d.extend(b"--- a\n+++ b\n");
            hunk(&mut d, 1, 1, b"", &one(b"d"));
        }
        // a preamble line of n bytes
        5 => {
            d.extend(fill(g, n));
            d.push(b'\n');
            head(&mut d, g);
            hunk(&mut d, 1, 1, b"", &one(b"d"));
        }
        // stated lines and counts about n, with the body to match
        6 => {
            head(&mut d, g);
            hunk(&mut d, n + 1, [n + 1, 1, 2 * n + 1][g.below(3)], b"", &one(b"d"));
            if g.chance(1, 2) {
                hunk(&mut d, n + 2, 2 * n + 2, b"", &one(b"e"));
            }
        }
        // a body line of n bytes
        7 => {
            head(&mut d, g);
            let k = [b' ', b'-', b'+'][g.below(3)];
            let mut b = vec![(k, fill(g, n))];
            b.push((b'-', b"z".to_vec()));
            b.push((b'+', b"z".to_vec()));
            hunk(&mut d, 1, 1, b"", &b);
            if g.chance(1, 3) {
                d.extend(b"\\ No newline at end of file\n");
            }
        }
        // n blank context lines, without their space
        8 => {
            head(&mut d, g);
            d.extend(format!("@@ -1,{} +1,{} @@\n", n + 1, n + 1).bytes());
            let at = g.below(n + 1);
            for i in 0..=n {
                d.extend(if i == at { &b"-d\n+i\n"[..] } else if g.chance(1, 2) { &b"\n"[..] } else { b" \n" });
            }
        }
        // n digits
        9 => {
            head(&mut d, g);
            let z = [format!("{}1", "0".repeat(n)), "1".repeat(n.max(1)), "9".repeat(n.max(1))][g.below(3)].clone();
            d.extend(match g.below(4) {
                0 => format!("@@ -{z} +1 @@\n-d\n+i\n"),
                1 => format!("@@ -1 +{z} @@\n-d\n+i\n"),
                2 => format!("@@ -1,{z} +1 @@\n-d\n+i\n"),
                _ => format!("@@ -1 +1,{z} @@\n-d\n+i\n"),
            }.bytes());
        }
        // deletions, insertions and markers; n lines before the last, the message where it may or may not be
        10 => {
            head(&mut d, g);
            let at = g.below(n + 1);
            let k = [b' ', b'-', b'+'][g.below(3)];
            let mut body: Vec<(u8, Bytes)> = (0..n).map(|i| (b' ', format!("{i}").into_bytes())).collect();
            body.push((k, b"last".to_vec()));
            let (oc, nc) = (n + (k != b'+') as usize, n + (k != b'-') as usize);
            d.extend(format!("@@ -1,{oc} +1,{nc} @@\n").bytes());
            for (i, (k, t)) in body.iter().enumerate() {
                d.push(*k);
                d.extend(t);
                d.push(b'\n');
                if i == n || (i == at && g.chance(1, 6)) {
                    d.extend(b"\\ No newline at end of file\n");
                }
            }
        }
        // something stray after n lines of preamble, hunks or body
        _ => {
            let what = [&b"stray\n"[..], b"--- x\n", b"+++ y\n", b"@@ -1 +1 @@\n", b"\n", b"\\ No newline at end of file\n", b"@@ bad\n"][g.below(7)];
            head(&mut d, g);
            for i in 0..n.min(3000) {
                hunk(&mut d, i + 1, i + 1, b"", &one(b"d"));
            }
            d.extend(what);
        }
    }
    d
}
pub const DOCS: usize = 12;

/// a document of hunks and a text to apply it to
pub fn apply(g: &mut Rng, dim: usize, n: usize) -> (Bytes, Bytes) {
    let hunk = |os: usize, ns: usize, body: &[(u8, Bytes)]| -> Bytes {
        let oc = body.iter().filter(|l| l.0 != b'+').count();
        let nc = body.iter().filter(|l| l.0 != b'-').count();
        let mut d = format!("@@ -{},{oc} +{},{nc} @@\n", if oc == 0 { os - 1 } else { os }, if nc == 0 { ns - 1 } else { ns }).into_bytes();
        for (k, l) in body {
            d.push(*k);
            d.extend(l);
        }
        d
    };
    let b = |k: u8, s: &str| (k, format!("{s}\n").into_bytes());
    let small = || vec![b(b' ', "A"), b(b'-', "B"), b(b'+', "X"), b(b' ', "C")];
    let some = |g: &mut Rng| match g.below(6) {
        0 => vec![b(b'-', "A"), b(b'-', "B"), b(b'-', "C")],
        1 => vec![b(b'+', "X"), b(b' ', "A"), b(b' ', "B"), b(b'-', "C")],
        _ => small(),
    };
    // where the old file had it makes no difference
    let old = |g: &mut Rng, st: usize| match g.below(4) {
        0 => [1, st / 2 + 1, st + 1, st + 11, 2 * st, 2 * st + 30][g.below(6)],
        _ => st,
    };
    let abc = || [b"A\n".to_vec(), b"B\n".to_vec(), b"C\n".to_vec()];
    match dim {
        // drift of n lines, forward or backward
        0 => {
            let rest = [0usize, 1, n, 3][g.below(4)];
            let mut img = numbered(n);
            img.extend(abc());
            img.extend((0..rest).map(|i| format!("r{i}\n").into_bytes()));
            let st = [1, n + 1, 2 * n + 1, n + 1 + rest, n + 2, 2 * n + 7][g.below(6)];
            (hunk(old(g, st), st, &some(g)), img.concat())
        }
        // two places, one n lines off and one n, n+1 or n-1 lines off on the other side
        1 => {
            let k = [n, n, n + 1, n.saturating_sub(1)][g.below(4)];
            let mut img: Vec<Bytes> = Vec::new();
            let mut lo = g.below(3);
            img.extend((0..lo).map(|i| format!("p{i}\n").into_bytes()));
            img.extend(abc());
            lo += 1;
            let mid = (n + k).saturating_sub(3);
            img.extend((0..mid).map(|i| format!("m{i}\n").into_bytes()));
            img.extend(abc());
            img.extend((0..g.below(3)).map(|i| format!("q{i}\n").into_bytes()));
            (hunk(old(g, lo + n), lo + n, &some(g)), img.concat())
        }
        // n hunks, each one line further off than the one before; or all right, or one failing
        2 => {
            let kind = g.below(4);
            let fail = g.below(n + 1);
            let (mut d, mut img) = (Vec::new(), Vec::new());
            let mut at = 1;
            for i in 0..n {
                let body = [b(b' ', &format!("a{i}")), b(b'-', &format!("b{i}")), b(b'+', &format!("x{i}")), b(b' ', &format!("c{i}"))];
                d.extend(hunk(at, at, &body));
                if kind == 1 || (kind == 2 && g.chance(1, 3)) {
                    img.push(format!("extra{i}\n").into_bytes());
                }
                if !(kind == 3 && i == fail) {
                    for c in ["a", "b", "c"] {
                        img.push(format!("{c}{i}\n").into_bytes());
                    }
                }
                at += 4;
                if kind != 2 {
                    img.push(format!("sep{i}\n").into_bytes());
                }
            }
            (d, img.concat())
        }
        // a hunk of n lines of context, deletions or both, off by a few lines
        3 => {
            let k = g.below(3);
            let body: Vec<(u8, Bytes)> = (0..n.max(1))
                .map(|i| (match k { 0 => b' ', 1 => b'-', _ => [b' ', b'-'][g.below(2)] }, line(i)))
                .chain([b(b'+', "X")])
                .collect();
            let pre = g.below(4);
            let mut img: Vec<Bytes> = (0..pre).map(|i| format!("p{i}\n").into_bytes()).collect();
            img.extend(numbered(n.max(1)));
            if g.chance(1, 4) {
                let k = img.len() - 1;
                img[k] = b"other\n".to_vec();
            }
            img.push(b"end\n".to_vec());
            (hunk(1, 1, &body), img.concat())
        }
        // n places where all but the last line matches, then perhaps one that matches
        4 => {
            let mut img = Vec::new();
            for _ in 0..n {
                img.extend([b"A\n".to_vec(), b"B\n".to_vec()]);
            }
            if g.chance(2, 3) {
                img.extend(abc());
            }
            for _ in 0..g.below(3) {
                img.extend([b"B\n".to_vec()]);
            }
            let st = [1, n + 1, 2 * n + 1][g.below(3)];
            (hunk(old(g, st), st, &some(g)), img.concat())
        }
        // insertions only, stated at line n of a text with about n lines
        5 => {
            let k = [n, n, n + 1, n.saturating_sub(1), 0, 2 * n][g.below(6)];
            let mut img = numbered(k).concat();
            if g.chance(1, 4) {
                img.pop();
            }
            let h = hunk(n + 1, n + 1, &[b(b'+', "X"), b(b'+', "Y")]);
            (h, img)
        }
        // hunks of which the first grows or shrinks the text by n
        6 => {
            let grow = g.chance(1, 2);
            let mut first = vec![b(b' ', "A")];
            let blk: Vec<(u8, Bytes)> = (0..n).map(|i| (if grow { b'+' } else { b'-' }, line(i))).collect();
            first.extend(blk);
            first.push(b(b' ', "B"));
            let gap = g.below(4);
            let os2 = 1 + first.iter().filter(|l| l.0 != b'+').count() + gap;
            let ns2 = 1 + first.iter().filter(|l| l.0 != b'-').count() + gap;
            let mut d = hunk(1, 1, &first);
            d.extend(hunk(os2, ns2, &small()));
            let mut img = vec![b"A\n".to_vec()];
            if !grow {
                img.extend(numbered(n));
            }
            img.push(b"B\n".to_vec());
            img.extend((0..gap + [0, 0, 1, 2, n][g.below(5)]).map(|i| format!("g{i}\n").into_bytes()));
            img.extend(abc());
            if g.chance(1, 2) {
                img.extend((0..[1, n][g.below(2)]).map(|i| format!("z{i}\n").into_bytes()));
                img.extend(abc());
            }
            (d, img.concat())
        }
        // lines of n bytes, the text right or one byte off
        _ => {
            let l = rep(b'x', n);
            let (lo, hi) = ([&l[..], b"1\n"].concat(), [&l[..], b"2\n"].concat());
            let d = hunk(1, 1, &[(b' ', lo.clone()), (b'-', hi.clone()), (b'+', lo.clone())]);
            let mut img = vec![b"p\n".to_vec(), lo.clone(), if g.chance(1, 2) { hi.clone() } else { lo.clone() }, hi];
            if g.chance(1, 3) {
                img[1].insert(n / 2, b' ');
            }
            (d, img.concat())
        }
    }
}
pub const APPLIES: usize = 8;

/// ancestor, ours, theirs
pub fn merge(g: &mut Rng, dim: usize, n: usize) -> (Bytes, Bytes, Bytes) {
    let blk = |w: &str, n: usize| -> Vec<Bytes> { (0..n).map(|i| format!("{w}{i}\n").into_bytes()).collect() };
    let (mut o, mut a, mut b) = match dim {
        // n lines between (or around) the changes of the two sides
        0 | 1 => {
            let (p, q) = if dim == 0 { (g.below(3), g.below(3)) } else { (n, [n, 0, 1][g.below(3)]) };
            let mid = if dim == 0 { n } else { g.below(3) };
            let mut o = blk("p", p);
            o.push(b"one\n".to_vec());
            o.extend(blk("m", mid));
            o.push(b"two\n".to_vec());
            o.extend(blk("q", q));
            let ch = |g: &mut Rng, t: &mut Vec<Bytes>, at: usize, w: &str| match g.below(4) {
                0 => t[at] = Vec::new(),
                1 => t[at] = format!("{w}\n").into_bytes(),
                2 => t[at].extend(format!("{w}\n").into_bytes()),
                _ => t[at] = [format!("{w}\n").into_bytes(), t[at].clone()].concat(),
            };
            let (mut a, mut b) = (o.clone(), o.clone());
            ch(g, &mut a, p, "A");
            ch(g, &mut b, p + 1 + mid, "B");
            if g.chance(1, 4) {
                let w = ["A2", "B"][g.below(2)];
                ch(g, &mut a, p + 1 + mid, w);
            }
            (o, a, b)
        }
        // n changes in turn: ours, theirs, both alike, both different
        2 => {
            let (mut o, mut a, mut b) = (Vec::new(), Vec::new(), Vec::new());
            let mode = g.below(5);
            for i in 0..n {
                let s = [format!("s{i}\n").into_bytes(), format!("t{i}\n").into_bytes()].concat();
                for t in [&mut o, &mut a, &mut b] {
                    t.push(s.clone());
                }
                let l = format!("x{i}\n").into_bytes();
                let (x, y) = (format!("a{i}\n").into_bytes(), format!("b{i}\n").into_bytes());
                o.push(l.clone());
                let (p, q) = match if mode == 4 { g.below(4) } else { mode } {
                    0 => (x, l),
                    1 => (l, y),
                    2 => (x.clone(), x),
                    _ => (x, y),
                };
                a.push(p);
                b.push(q);
            }
            (o, a, b)
        }
        // a conflict with sections of n lines
        3 => {
            let k = [n, 1, 0, n + 1][g.below(4)];
            let j = [n, 1, 0, 2][g.below(4)];
            let w = |t: Vec<Bytes>| [blk("h", 1), t, blk("t", 1)].concat();
            let mut v = [w(blk("o", j)), w(blk("a", n)), w(blk("b", k))];
            if g.chance(1, 2) {
                v.swap(1, 2);
            }
            if g.chance(1, 3) {
                // with a common part
                let c = n.min(k) / 2;
                let l = b"common\n".to_vec();
                let at = c.min(v[1].len());
                v[1].insert(at, l.clone());
                let at = c.min(v[2].len());
                v[2].insert(at, l);
            }
            let [o, a, b] = v;
            (o, a, b)
        }
        // the same n lines inserted, deleted or replaced by both, and something else by one of them
        4 => {
            let mut o = blk("h", 2);
            let k = g.below(3);
            if k > 0 {
                o.extend(blk("o", n));
            }
            o.extend(blk("t", 3));
            let mut a = blk("h", 2);
            if k != 1 {
                a.extend(blk("n", n));
            }
            a.extend(blk("t", 3));
            let mut b = a.clone();
            let e = b.len();
            match g.below(6) {
                0 => {}
                1 => b[0] = b"B\n".to_vec(),
                2 => b[e - 1] = b"B\n".to_vec(),
                3 => b[e - 3] = b"B\n".to_vec(),
                4 => b[1] = b"B\n".to_vec(),
                _ => {
                    let x = e / 2;
                    b[x] = b"B\n".to_vec()
                }
            }
            (o, a, b)
        }
        // one side deletes n lines, the other changes one of them, or next to them
        5 => {
            let o = [blk("h", 2), blk("o", n), blk("t", 2)].concat();
            let a = [blk("h", 2), blk("t", 2)].concat();
            let mut b = o.clone();
            let at = [1, 2, 2 + n / 2, 2 + n.saturating_sub(1), 2 + n, 3 + n, g.below(n + 4)][g.below(7)].min(o.len() - 1);
            match g.below(3) {
                0 => b[at] = b"B\n".to_vec(),
                1 => {
                    b.insert(at, b"B\n".to_vec());
                }
                _ => {
                    b.remove(at);
                }
            }
            (o, a, b)
        }
        // runs of n equal lines
        6 => {
            let l = [&b"\n"[..], b"a\n"][g.below(2)].to_vec();
            let run = |k: usize, x: &[&str]| -> Vec<Bytes> {
                let mut v: Vec<Bytes> = (0..k).map(|_| l.clone()).collect();
                v.extend(x.iter().map(|s| format!("{s}\n").into_bytes()));
                v
            };
            let k = g.below(3);
            let (x, y): (&[&str], &[&str]) = [(&["e"][..], &["e"][..]), (&["A", "e"], &["e"]), (&["e"], &["f"]), (&["e", "A"], &["e", "B"])][g.below(4)];
            (run(n, &["e"]), run(n + k, x), run((n + g.below(3)).saturating_sub(1), y))
        }
        // lines of n bytes
        _ => {
            let l = rep(b'x', n);
            let e = |s: &str| [&l[..], s.as_bytes(), b"\n"].concat();
            let o = vec![b"h\n".to_vec(), e(""), b"m\n".to_vec(), e("1")];
            let mut a = o.clone();
            let mut b = o.clone();
            a[1] = e("A");
            let at = [1, 3][g.below(2)];
            b[at] = e(["A", "B", " "][g.below(3)]);
            (o, a, b)
        }
    };
    if g.chance(1, 4) {
        let k = g.range(1, 7);
        for (bit, t) in [(1, &mut o), (2, &mut a), (4, &mut b)] {
            if k & bit != 0 {
                if let Some(l) = t.last_mut() {
                    if l.ends_with(b"\n") && l.len() > 1 {
                        l.pop();
                    }
                }
            }
        }
    }
    if g.chance(1, 2) {
        std::mem::swap(&mut a, &mut b);
    }
    (o.concat(), a.concat(), b.concat())
}
pub const MERGES: usize = 8;

/// file names of about n bytes, something unusual somewhere in them
pub fn name(g: &mut Rng, n: usize) -> Bytes {
    let mut v: Bytes = match g.below(5) {
        0 => (0..n).map(|i| b"ab/"[i % 3]).collect(),
        1 => "é".repeat(n / 2).into_bytes(),
        2 => rep(b' ', n),
        3 => rep([b'"', b'\\', b'\t', b'\n', 1, b'-'][g.below(6)], n),
        _ => rep(b'n', n),
    };
    if g.chance(1, 2) {
        let s = rand_name(g);
        let at = match g.below(3) {
            0 => 0,
            1 => v.len(),
            _ => v.len() / 2 & !1,
        };
        v.splice(at..at, s);
    }
    v
}
