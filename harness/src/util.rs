//! Small helpers: byte strings, line splitting, RNG, JSON in and out.

pub type Bytes = Vec<u8>;

/// Split after every b'\n'; the inverse is plain concatenation.
pub fn lines(t: &[u8]) -> Vec<&[u8]> {
    t.split_inclusive(|b| *b == b'\n').collect()
}

/// one character per byte
pub fn latin(t: &[u8]) -> String {
    t.iter().map(|b| *b as char).collect()
}
/// the bytes a text made of such characters stands for; anything else comes out as '?'s
pub fn unlatin(t: Bytes) -> Bytes {
    String::from_utf8_lossy(&t).chars().map(|c| u8::try_from(c as u32).unwrap_or(b'?')).collect()
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- JSON out
// A byte string is written as the JSON string whose characters are U+0000..U+00FF,
// one per byte, so that the specification sees every byte of a non-UTF-8 text.

pub fn jstr(out: &mut String, s: &[u8]) {
    out.push('"');
    for &b in s {
        match b {
            b'"' => out.push_str("\\\""),
            b'\\' => out.push_str("\\\\"),
            b'\n' => out.push_str("\\n"),
            0x20..=0x7e => out.push(b as char),
            _ => {
                const HEX: &[u8] = b"0123456789abcdef";
                out.push_str("\\u00");
                out.push(HEX[(b >> 4) as usize] as char);
                out.push(HEX[(b & 15) as usize] as char);
            }
        }
    }
    out.push('"');
}

pub fn jlines(out: &mut String, t: &[u8]) {
    out.push('[');
    for (i, l) in lines(t).into_iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        jstr(out, l);
    }
    out.push(']');
}

pub fn jopt(out: &mut String, s: &Option<Bytes>) {
    out.push('[');
    if let Some(s) = s {
        jstr(out, s);
    }
    out.push(']');
}

// ---------------------------------------------------------------- JSON in

#[derive(Debug, Clone)]
#[allow(dead_code)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(Bytes),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => 0,
        }
    }
    pub fn bytes(&self) -> Bytes {
        match self {
            J::Str(s) => s.clone(),
            _ => Vec::new(),
        }
    }
}

pub fn jparse(s: &str) -> Option<J> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = jval(&c, &mut i)?;
    ws(&c, &mut i);
    if i == c.len() {
        Some(v)
    } else {
        None
    }
}

fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn jval(c: &[char], i: &mut usize) -> Option<J> {
    ws(c, i);
    match *c.get(*i)? {
        '{' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(c, i);
                if *c.get(*i)? == '}' {
                    *i += 1;
                    return Some(J::Obj(v));
                }
                if *c.get(*i)? == ',' {
                    *i += 1;
                    continue;
                }
                let k = jval(c, i)?;
                ws(c, i);
                if *c.get(*i)? != ':' {
                    return None;
                }
                *i += 1;
                let x = jval(c, i)?;
                v.push((String::from_utf8(k.bytes()).ok()?, x));
            }
        }
        '[' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(c, i);
                if *c.get(*i)? == ']' {
                    *i += 1;
                    return Some(J::Arr(v));
                }
                if *c.get(*i)? == ',' {
                    *i += 1;
                    continue;
                }
                v.push(jval(c, i)?);
            }
        }
        '"' => {
            *i += 1;
            let mut s = Vec::new();
            loop {
                let ch = *c.get(*i)?;
                *i += 1;
                match ch {
                    '"' => return Some(J::Str(s)),
                    '\\' => {
                        let e = *c.get(*i)?;
                        *i += 1;
                        match e {
                            'n' => s.push(b'\n'),
                            't' => s.push(b'\t'),
                            'r' => s.push(b'\r'),
                            'b' => s.push(8),
                            'f' => s.push(12),
                            'u' => {
                                let h: String = c.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                s.push(u32::from_str_radix(&h, 16).ok()? as u8);
                            }
                            o => s.push(o as u8),
                        }
                    }
                    o => s.push(o as u32 as u8),
                }
            }
        }
        't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < c.len() && (c[*i] == '-' || c[*i].is_ascii_digit()) {
                *i += 1;
            }
            let t: String = c[st..*i].iter().collect();
            t.parse().ok().map(J::Num)
        }
    }
}
