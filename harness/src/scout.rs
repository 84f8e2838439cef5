//! Native look-alikes of the specification's predicates.
//!
//! They decide nothing: a recorded session counts as right or wrong only by what TLC says
//! about it.  They are used to choose, out of the many sessions executed, those that TLC
//! should look at first (a "suspect" is always handed to TLC).

use crate::api::*;
use crate::util::*;

pub fn lcs<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    let mut row = vec![0usize; b.len() + 1];
    for x in a {
        let mut diag = 0;
        for j in 0..b.len() {
            let up = row[j + 1];
            row[j + 1] = if *x == b[j] { diag + 1 } else { up.max(row[j]) };
            diag = up;
        }
    }
    row[b.len()]
}

fn at0(start: u64, len: u64) -> usize {
    (if len == 0 { start } else { start.wrapping_sub(1) }) as usize
}

pub fn truthful(p: &P, o: &[u8], m: &[u8]) -> bool {
    let (a, b) = (lines(o), lines(m));
    let (mut i, mut j) = (0usize, 0usize);
    for h in &p.hunks {
        let (oi, nj) = (at0(h.os, h.ol), at0(h.ns, h.nl));
        if oi < i || nj < j || oi > a.len() || nj > b.len() || oi - i != nj - j || a[i..oi] != b[j..nj] {
            return false;
        }
        i = oi;
        j = nj;
        let mut change = false;
        for l in &h.ls {
            match l.k {
                b'C' => {
                    if a.get(i) != Some(&&l.s[..]) || b.get(j) != Some(&&l.s[..]) {
                        return false;
                    }
                    i += 1;
                    j += 1;
                }
                b'D' => {
                    change = true;
                    if a.get(i) != Some(&&l.s[..]) {
                        return false;
                    }
                    i += 1;
                }
                _ => {
                    change = true;
                    if b.get(j) != Some(&&l.s[..]) {
                        return false;
                    }
                    j += 1;
                }
            }
        }
        if !change || !h.acc || i - oi != h.ol as usize || j - nj != h.nl as usize {
            return false;
        }
    }
    a[i..] == b[j..] && (p.hunks.is_empty() == (o == m))
}

/// context rule; assumes `truthful`
pub fn context_ok(p: &P, o: &[u8], ctx: usize) -> bool {
    let n = lines(o).len();
    let mut prev_end: Option<usize> = None;
    for h in &p.hunks {
        let oi = at0(h.os, h.ol);
        let lead = h.ls.iter().take_while(|l| l.k == b'C').count();
        let trail = h.ls.iter().rev().take_while(|l| l.k == b'C').count();
        let first = oi + lead;
        let last = oi + h.ol as usize - trail;
        if lead != ctx.min(first) || trail != ctx.min(n - last) {
            return false;
        }
        if let Some(e) = prev_end {
            if first - e < ctx.saturating_mul(2) {
                return false;
            }
        }
        let mut run = 0;
        let mut seen = false;
        for l in &h.ls {
            if l.k == b'C' {
                run += 1;
            } else {
                if seen && run > ctx.saturating_mul(2) {
                    return false;
                }
                seen = true;
                run = 0;
            }
        }
        prev_end = Some(last);
    }
    true
}

pub fn cost(p: &P) -> usize {
    p.hunks.iter().flat_map(|h| &h.ls).filter(|l| l.k != b'C').count()
}

pub fn reversed(p: &P) -> P {
    P {
        on: p.mn.clone(),
        mn: p.on.clone(),
        hunks: p
            .hunks
            .iter()
            .map(|h| H {
                os: h.ns,
                ol: h.nl,
                ns: h.os,
                nl: h.ol,
                fc: h.fc.clone(),
                acc: h.acc,
                ls: h
                    .ls
                    .iter()
                    .map(|l| HL { k: match l.k { b'D' => b'I', b'I' => b'D', k => k }, s: l.s.clone() })
                    .collect(),
            })
            .collect(),
    }
}

/// outcomes of applying `p` with every hunk at a nearest match
pub fn apply_near(img: &[u8], p: &P) -> Vec<Result<Bytes, u64>> {
    const DONE: u32 = 1 << 31; // the line was written by a hunk
    let mut ids = std::collections::HashMap::new();
    let mut back: Vec<&[u8]> = Vec::new();
    let mut id = |l| {
        *ids.entry(l).or_insert_with(|| {
            back.push(l);
            back.len() as u32 - 1
        })
    };
    let mut states: Vec<Vec<u32>> = vec![lines(img).into_iter().map(&mut id).collect()];
    let mut outs = Vec::new();
    for (no, h) in p.hunks.iter().enumerate() {
        let pre: Vec<u32> = h.ls.iter().filter(|l| l.k != b'I').map(|l| id(&l.s)).collect();
        let post: Vec<u32> = h.ls.iter().filter(|l| l.k != b'D').map(|l| id(&l.s) | DONE).collect();
        let mut next = Vec::new();
        for st in states {
            let want = if h.nl == 0 { h.ns } else { h.ns.saturating_sub(1) }.min(st.len() as u64) as usize;
            let fits = |p0: usize| p0 + pre.len() <= st.len() && st[p0..p0 + pre.len()] == pre[..];
            let mut best: Vec<usize> = Vec::new();
            for d in 0..=st.len() {
                if want >= d && fits(want - d) {
                    best.push(want - d);
                }
                if d > 0 && fits(want + d) {
                    best.push(want + d);
                }
                if !best.is_empty() {
                    break;
                }
            }
            if best.is_empty() {
                outs.push(Err(no as u64 + 1));
            }
            for p0 in best {
                let mut s2 = Vec::with_capacity(st.len() + post.len());
                s2.extend_from_slice(&st[..p0]);
                s2.extend_from_slice(&post);
                s2.extend_from_slice(&st[p0 + pre.len()..]);
                if next.len() < 64 && !next.contains(&s2) {
                    next.push(s2);
                }
            }
        }
        states = next;
    }
    for st in states {
        outs.push(Ok(st.into_iter().flat_map(|l| back[(l & !DONE) as usize].iter().copied()).collect()));
    }
    outs
}

// ------------------------------------------------------------ printing

pub const MARK: &[u8] = b"\\ No newline at end of file";
const SPECIAL: &[u8] = b"\n\t\0\r\"\\";

fn name(out: &mut Bytes, n: &[u8]) {
    if n.iter().any(|b| SPECIAL.contains(b)) {
        out.push(b'"');
        for &b in n {
            match b {
                b'\n' => out.extend(b"\\n"),
                b'\t' => out.extend(b"\\t"),
                0 => out.extend(b"\\0"),
                b'\r' => out.extend(b"\\r"),
                b'"' => out.extend(b"\\\""),
                b'\\' => out.extend(b"\\\\"),
                b => out.push(b),
            }
        }
        out.push(b'"');
    } else {
        out.extend(n);
    }
}

fn rng(start: u64, len: u64) -> String {
    if len == 1 {
        format!("{}", start)
    } else {
        format!("{},{}", start, len)
    }
}

pub fn print(p: &P, f: FOpts) -> Bytes {
    let mut o = Vec::new();
    if let Some(n) = &p.on {
        o.extend(b"--- ");
        name(&mut o, n);
        o.push(b'\n');
    }
    if let Some(n) = &p.mn {
        o.extend(b"+++ ");
        name(&mut o, n);
        o.push(b'\n');
    }
    for h in &p.hunks {
        o.extend(format!("@@ -{} +{} @@", rng(h.os, h.ol), rng(h.ns, h.nl)).bytes());
        if let Some(c) = &h.fc {
            o.push(b' ');
            o.extend(c);
        }
        o.push(b'\n');
        for l in &h.ls {
            if !(l.k == b'C' && l.s == b"\n" && f.sb) {
                o.push(match l.k { b'C' => b' ', b'D' => b'-', _ => b'+' });
            }
            o.extend(&l.s);
            if !l.s.ends_with(b"\n") {
                o.push(b'\n');
                if f.nl {
                    o.extend(MARK);
                    o.push(b'\n');
                }
            }
        }
    }
    o
}

pub fn strip_sgr(t: &[u8]) -> Bytes {
    let mut o = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] == 0x1b && t.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < t.len() && (t[j].is_ascii_digit() || t[j] == b';') {
                j += 1;
            }
            if t.get(j) == Some(&b'm') {
                i = j + 1;
                continue;
            }
        }
        o.push(t[i]);
        i += 1;
    }
    o
}

// ------------------------------------------------------------ parsing

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Accept,
    Reject,
    Open,
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.len() > h.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|&i| &h[i..i + n.len()] == n)
}

fn unname(l: &[u8]) -> (St, Option<Bytes>) {
    let r = (St::Reject, None);
    let Some(e) = find(l, b"\t").or_else(|| find(l, b"\n")) else { return r };
    let n = &l[..e];
    if n.len() >= 2 && n[0] == b'"' && n[n.len() - 1] == b'"' {
        let q = &n[1..n.len() - 1];
        let mut out = Vec::new();
        let mut i = 0;
        while i < q.len() {
            if q[i] == b'\\' {
                let Some(&c) = q.get(i + 1) else { return r };
                out.push(match c {
                    b'n' => b'\n',
                    b't' => b'\t',
                    b'0' => 0,
                    b'r' => b'\r',
                    b'"' => b'"',
                    b'\\' => b'\\',
                    b'a' | b'b' | b'f' | b'v' | b'1'..=b'7' => return (St::Open, None),
                    _ => return r,
                });
                i += 2;
            } else if SPECIAL.contains(&q[i]) {
                return r;
            } else {
                out.push(q[i]);
                i += 1;
            }
        }
        (St::Accept, Some(out))
    } else if n.iter().any(|b| SPECIAL.contains(b)) {
        r
    } else {
        (St::Accept, Some(n.to_vec()))
    }
}

fn number(s: &[u8]) -> Option<(u64, bool)> {
    let (d, plus) = if s.first() == Some(&b'+') { (&s[1..], true) } else { (s, false) };
    if d.is_empty() || !d.iter().all(u8::is_ascii_digit) {
        return None;
    }
    std::str::from_utf8(d).ok()?.parse().ok().map(|n| (n, plus))
}

pub fn parse(doc: &[u8]) -> (St, Option<P>) {
    let rej = (St::Reject, None);
    let ls = lines(doc);
    let mut open = false;
    let mut i = 0;
    while i < ls.len() && !(ls[i].starts_with(b"--- ") || ls[i].starts_with(b"+++ ") || ls[i].starts_with(b"@@ ")) {
        i += 1;
    }
    if i == ls.len() {
        open = true;
    }
    let (mut on, mut mn) = (None, None);
    while i < ls.len() {
        let slot = if ls[i].starts_with(b"--- ") {
            &mut on
        } else if ls[i].starts_with(b"+++ ") {
            &mut mn
        } else {
            break;
        };
        if slot.is_some() {
            return rej;
        }
        let (st, n) = unname(&ls[i][4..]);
        match st {
            St::Reject => return rej,
            St::Open => open = true,
            _ => {}
        }
        *slot = Some(n.unwrap_or_default());
        i += 1;
    }
    let mut hunks: Vec<H> = Vec::new();
    let mut nn_before = false;
    while i < ls.len() {
        let Some(h) = ls[i].strip_prefix(b"@@ ") else { return rej };
        let Some(e) = find(h, b" @@") else { return rej };
        let (ranges, after) = (&h[..e], &h[e + 3..]);
        let fc = after.strip_prefix(b" ").map(|a| a.strip_suffix(b"\n").unwrap_or(a).to_vec());
        if fc.is_none() && after != b"\n" {
            open = true;
        }
        let Some(sp) = find(ranges, b" ") else { return rej };
        let (Some(r1), Some(r2)) = (ranges[..sp].strip_prefix(b"-"), ranges[sp + 1..].strip_prefix(b"+")) else {
            return rej;
        };
        let mut nums = [0u64; 4];
        for (k, r) in [r1, r2].iter().enumerate() {
            let (s, l) = match find(r, b",") {
                Some(c) => (number(&r[..c]), number(&r[c + 1..])),
                None => (number(r), Some((1, false))),
            };
            let (Some(s), Some(l)) = (s, l) else { return rej };
            open |= s.1 || l.1 || s.0.checked_add(l.0).is_none() || (s.0 == 0 && l.0 > 0);
            nums[2 * k] = s.0;
            nums[2 * k + 1] = l.0;
        }
        i += 1;
        if nn_before {
            open = true;
        }
        let mut body: Vec<HL> = Vec::new();
        let (mut nc, mut nd, mut ni) = (false, false, false);
        while i < ls.len() && !ls[i].starts_with(b"@") {
            let l = ls[i];
            if nc {
                return rej;
            }
            match l[0] {
                b' ' => {
                    open |= nd || ni;
                    body.push(HL { k: b'C', s: l[1..].to_vec() })
                }
                b'\n' => {
                    open |= nd || ni;
                    body.push(HL { k: b'C', s: l.to_vec() })
                }
                b'-' => {
                    if nd {
                        return rej;
                    }
                    body.push(HL { k: b'D', s: l[1..].to_vec() })
                }
                b'+' => {
                    if ni {
                        return rej;
                    }
                    body.push(HL { k: b'I', s: l[1..].to_vec() })
                }
                _ if l.starts_with(MARK) => {
                    let Some(last) = body.last_mut() else { return rej };
                    if last.s.last() != Some(&b'\n') {
                        return rej;
                    }
                    last.s.pop();
                    match last.k {
                        b'C' => {
                            open |= nd || ni;
                            nc = true
                        }
                        b'D' => nd = true,
                        _ => ni = true,
                    }
                    open |= l.len() > MARK.len() + 1 || (l.len() == MARK.len() + 1 && l[MARK.len()] != b'\n');
                }
                _ => return rej,
            }
            if i + 1 == ls.len() && l[0] != b'\\' && !l.ends_with(b"\n") {
                open = true;
            }
            i += 1;
        }
        nn_before |= nc || nd || ni;
        let oc = body.iter().filter(|l| l.k != b'I').count() as u64;
        let nw = body.iter().filter(|l| l.k != b'D').count() as u64;
        if oc != nums[1] || nw != nums[3] {
            return rej;
        }
        if body.is_empty() {
            open = true;
        }
        hunks.push(H { os: nums[0], ol: nums[1], ns: nums[2], nl: nums[3], fc, ls: body, acc: true });
    }
    for w in hunks.windows(2) {
        for (a, b) in [((w[0].os, w[0].ol), (w[1].os, w[1].ol)), ((w[0].ns, w[0].nl), (w[1].ns, w[1].nl))] {
            let plain = a.0 as u128 + a.1 as u128 <= b.0 as u128;
            let z = |r: (u64, u64)| if r.1 == 0 { r.0 as i128 } else { r.0 as i128 - 1 };
            let proper = z(a) + a.1 as i128 <= z(b);
            if !plain && !proper {
                return rej;
            }
            open |= plain != proper;
        }
    }
    (if open { St::Open } else { St::Accept }, Some(P { on, mn, hunks }))
}

// ------------------------------------------------------------ merging

fn suffix_lcs(a: &[u32], b: &[u32]) -> Vec<Vec<u32>> {
    let mut t = vec![vec![0u32; b.len() + 1]; a.len() + 1];
    for i in (0..a.len()).rev() {
        for j in (0..b.len()).rev() {
            t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    t
}

fn intern<'a>(ts: &[&'a [u8]]) -> (Vec<Vec<u32>>, Vec<&'a [u8]>) {
    let mut m = std::collections::HashMap::new();
    let mut back = Vec::new();
    let ids = ts
        .iter()
        .map(|t| {
            lines(t)
                .into_iter()
                .map(|l| {
                    *m.entry(l).or_insert_with(|| {
                        back.push(l);
                        back.len() as u32 - 1
                    })
                })
                .collect()
        })
        .collect();
    (ids, back)
}

fn marker(c: u8, n: usize, label: &[u8]) -> Bytes {
    let mut v = vec![c; n];
    if !label.is_empty() {
        v.push(b' ');
        v.extend(label);
    }
    v.push(b'\n');
    v
}

fn emit(o: &[u8], a: &[u8], b: &[u8], m: MOpts) -> (Bytes, bool) {
    if a == b || o == b {
        return (a.to_vec(), false);
    }
    if o == a {
        return (b.to_vec(), false);
    }
    let mut v = marker(b'<', m.len, b"ours");
    let sec = |v: &mut Bytes, t: &[u8]| {
        v.extend(t);
        if !t.is_empty() && !t.ends_with(b"\n") {
            v.push(b'\n');
        }
    };
    sec(&mut v, a);
    if m.diff3 {
        v.extend(marker(b'|', m.len, b"original"));
        sec(&mut v, o);
    }
    v.extend(marker(b'=', m.len, b""));
    sec(&mut v, b);
    v.extend(marker(b'>', m.len, b"theirs"));
    (v, true)
}

/// Is (out, conflict) the three-way merge for some pair of longest alignments?
/// None: the search got too big.
pub fn merge_ok(o: &[u8], a: &[u8], b: &[u8], m: MOpts, out: &[u8], conflict: bool) -> Option<bool> {
    if a == b && (conflict || out != a) {
        return Some(false);
    }
    let (ids, back) = intern(&[o, a, b]);
    let (oi, ai, bi) = (&ids[0], &ids[1], &ids[2]);
    if oi.len() * ai.len() > 4_000_000 || oi.len() * bi.len() > 4_000_000 {
        return None;
    }
    let (la, lb) = (suffix_lcs(oi, ai), suffix_lcs(oi, bi));
    let cat = |ids: &[u32]| -> Bytes { ids.iter().flat_map(|i| back[*i as usize].to_vec()).collect() };
    // (ci, cj, ck, j, k, pos, conflicted)
    let mut set = std::collections::BTreeSet::new();
    set.insert((0usize, 0usize, 0usize, 0usize, 0usize, 0usize, false));
    let opts = |l: &Vec<Vec<u32>>, i: usize, j: usize, t: &Vec<u32>| -> Vec<Option<usize>> {
        let mut v = Vec::new();
        if l[i + 1][j] == l[i][j] {
            v.push(None);
        }
        for j2 in j..t.len() {
            if l[i][j2] < l[i][j] {
                break;
            }
            if t[j2] == oi[i] && l[i + 1][j2 + 1] + 1 == l[i][j] {
                v.push(Some(j2));
            }
        }
        v
    };
    for i in 0..oi.len() {
        let mut next = std::collections::BTreeSet::new();
        for &(ci, cj, ck, j, k, pos, cf) in &set {
            for x in opts(&la, i, j, ai) {
                for y in opts(&lb, i, k, bi) {
                    match (x, y) {
                        (Some(j2), Some(k2)) => {
                            let (e, c) = emit(&cat(&oi[ci..i]), &cat(&ai[cj..j2]), &cat(&bi[ck..k2]), m);
                            let l = back[oi[i] as usize];
                            if out[pos..].starts_with(&e) && out[pos + e.len()..].starts_with(l) {
                                next.insert((i + 1, j2 + 1, k2 + 1, j2 + 1, k2 + 1, pos + e.len() + l.len(), cf | c));
                            }
                        }
                        (x, y) => {
                            next.insert((ci, cj, ck, x.map_or(j, |v| v + 1), y.map_or(k, |v| v + 1), pos, cf));
                        }
                    }
                }
            }
        }
        if next.len() > 5000 {
            return None;
        }
        set = next;
    }
    Some(set.iter().any(|&(ci, cj, ck, _, _, pos, cf)| {
        let (e, c) = emit(&cat(&oi[ci..]), &cat(&ai[cj..]), &cat(&bi[ck..]), m);
        out[pos..] == e[..] && (cf | c) == conflict
    }))
}

/// a rendered conflicting merge with the sections of the two sides exchanged
pub fn swap_sections(out: &[u8], m: MOpts) -> Bytes {
    let (lt, or, eq, gt) = (
        marker(b'<', m.len, b"ours"),
        marker(b'|', m.len, b"original"),
        marker(b'=', m.len, b""),
        marker(b'>', m.len, b"theirs"),
    );
    let mut r = Vec::new();
    let mut sec = [Vec::new(), Vec::new(), Vec::new()];
    let mut at = None;
    for l in lines(out) {
        if l == &lt[..] && at.is_none() {
            at = Some(0);
        } else if l == &or[..] && at == Some(0) && m.diff3 {
            at = Some(1);
        } else if l == &eq[..] && at.is_some() {
            at = Some(2);
        } else if l == &gt[..] && at == Some(2) {
            r.extend(&lt);
            r.extend(&sec[2]);
            if m.diff3 {
                r.extend(&or);
                r.extend(&sec[1]);
            }
            r.extend(&eq);
            r.extend(&sec[0]);
            r.extend(&gt);
            sec = Default::default();
            at = None;
        } else if let Some(k) = at {
            sec[k].extend(l);
        } else {
            r.extend(l);
        }
    }
    r
}

type Org = Option<(Bytes, Bytes)>;
/// must the two patches of one text commute?
pub fn independent(o: &[u8], (p, po): (&P, &Org), (q, qo): (&P, &Org)) -> bool {
    let (Some(po), Some(qo)) = (po, qo) else { return false };
    let differ = |t: &[u8]| {
        let mut l = lines(t);
        l.sort();
        l.windows(2).all(|w| w[0] != w[1])
    };
    let fresh = |t: &[u8], u: &[u8]| {
        let (lo, lu) = (lines(o), lines(u));
        lines(t).iter().all(|l| lo.contains(l) || !lu.contains(l))
    };
    po.0 == o
        && qo.0 == o
        && differ(o)
        && differ(&po.1)
        && differ(&qo.1)
        && fresh(&po.1, &qo.1)
        && fresh(&qo.1, &po.1)
        && p.hunks.iter().chain(&q.hunks).all(|h| h.ol > 0 && h.ls.iter().any(|l| l.k == b'C'))
        && p.hunks.iter().all(|h| q.hunks.iter().all(|g| h.os + h.ol <= g.os || g.os + g.ol <= h.os))
}
