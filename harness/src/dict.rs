//! Numbers and strings written in the sources of the code under test.  They only steer the
//! generators (sizes and contents worth trying); nothing is judged by them.

use crate::util::Bytes;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Bytes>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("DIFFY_SRC").unwrap_or("/repo/src".into());
        let mut files = Vec::new();
        walk(std::path::Path::new(&root), &mut files);
        files.sort();
        let mut d = Dict::default();
        for f in files {
            if f.file_name().is_some_and(|n| n == "tests.rs") {
                continue;
            }
            let Ok(b) = std::fs::read(&f) else { continue };
            scan(&String::from_utf8_lossy(&b), &mut d);
        }
        d.nums.sort();
        d.nums.dedup();
        d.nums.truncate(400);
        d.strs.sort();
        d.strs.dedup();
        d.strs.retain(|s| s.len() <= 300);
        d.strs.truncate(2000);
        d
    })
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(es) = std::fs::read_dir(p) else { return };
    for e in es.flatten() {
        let q = e.path();
        if q.is_dir() {
            walk(&q, out);
        } else if q.extension().is_some_and(|x| x == "rs") {
            out.push(q);
        }
    }
}

fn scan(s: &str, d: &mut Dict) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
        } else if x == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && at(i + 2) == '"')) {
            let hash = at(i + 1) == '#';
            i += if hash { 3 } else { 2 };
            let st = i;
            while i < c.len() && !(c[i] == '"' && (!hash || at(i + 1) == '#')) {
                i += 1;
            }
            d.strs.push(c[st..i.min(c.len())].iter().collect::<String>().into_bytes());
            i += 1;
        } else if x == '"' {
            let (v, e) = quoted(&c, i + 1, '"');
            d.strs.push(v);
            i = e;
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' || (at(i + 2) == '\'' && at(i + 1) != '\'') {
                let (v, e) = quoted(&c, i + 1, '\'');
                d.strs.push(v);
                i = e;
            } else {
                i += 1;
            }
        } else if x.is_ascii_digit() {
            let st = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let t: String = c[st..i].iter().filter(|c| **c != '_').collect();
            if let Some(v) = int(&t) {
                d.nums.push(v);
                // 1 << 12
                let mut k = i;
                while at(k) == ' ' {
                    k += 1;
                }
                if at(k) == '<' && at(k + 1) == '<' {
                    k += 2;
                    while at(k) == ' ' {
                        k += 1;
                    }
                    let t: String = c[k..].iter().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(s) = t.parse::<u32>() {
                        d.nums.extend(v.checked_shl(s));
                    }
                }
            }
        } else if x.is_alphabetic() || x == '_' {
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            // byte strings and characters
            if i == 0 {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn int(t: &str) -> Option<u64> {
    for (p, r) in [("0x", 16), ("0b", 2), ("0o", 8)] {
        if let Some(t) = t.strip_prefix(p) {
            let t: String = t.chars().take_while(|c| c.is_digit(r)).collect();
            return u64::from_str_radix(&t, r).ok();
        }
    }
    let n: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    n.parse().ok()
}

fn quoted(c: &[char], mut i: usize, end: char) -> (Bytes, usize) {
    let mut v = Vec::new();
    let mut put = |ch: char| {
        let mut b = [0; 4];
        v.extend(ch.encode_utf8(&mut b).bytes());
    };
    while i < c.len() && c[i] != end {
        if c[i] == '\\' && i + 1 < c.len() {
            i += 1;
            match c[i] {
                'n' => put('\n'),
                't' => put('\t'),
                'r' => put('\r'),
                '0' => put('\0'),
                'x' => {
                    let t: String = c[i + 1..].iter().take(2).collect();
                    put(char::from(u8::from_str_radix(&t, 16).unwrap_or(b'x')));
                    i += 2;
                }
                'u' => {
                    let t: String = c[i + 1..].iter().skip(1).take_while(|c| c.is_ascii_hexdigit()).collect();
                    put(u32::from_str_radix(&t, 16).ok().and_then(char::from_u32).unwrap_or('u'));
                    while i < c.len() && c[i] != '}' {
                        i += 1;
                    }
                }
                '\n' => {
                    while i + 1 < c.len() && c[i + 1].is_whitespace() {
                        i += 1;
                    }
                }
                ch => put(ch),
            }
        } else {
            put(c[i]);
        }
        i += 1;
    }
    (v, i + 1)
}
