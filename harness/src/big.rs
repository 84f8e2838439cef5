//! Calls on inputs too large to hand to the specification: all that is asked is that they
//! return normally (property P17), and natively that the round trip holds.

use crate::api::*;
use crate::util::*;

fn text(n: usize, mut f: impl FnMut(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&f(i));
        s.push('\n');
    }
    s
}

/// The calls are made with a small stack: none may need more of it for more input.
pub fn call(what: &str, n: &[i64]) -> Out<bool> {
    std::thread::scope(|s| {
        let small = std::thread::Builder::new().stack_size(256 << 10);
        match small.spawn_scoped(s, || work(what, n)).map(|t| t.join()) {
            Ok(Ok(r)) => r,
            _ => Out::Panic("the thread ended".into()),
        }
    })
}

fn work(what: &str, n: &[i64]) -> Out<bool> {
    let k = n.first().copied().unwrap_or(0) as usize;
    let seed = n.get(1).copied().unwrap_or(0) as u64;
    let (o, m): (String, String) = match what {
        // nothing in common
        "disjoint" => (text(k, |i| format!("a{i}")), text(k, |i| format!("b{i}"))),
        // few changes in a very long file
        "sparse" => (
            text(k, |i| format!("{i}")),
            text(k, |i| if i % 9973 == 5 { format!("x{i}") } else { format!("{i}") }),
        ),
        // many ties
        "binary" => {
            let mut g = Rng::new(seed);
            let a = text(k, |_| g.below(2).to_string());
            (a, text(k, |_| g.below(2).to_string()))
        }
        "ternary" => {
            let mut g = Rng::new(seed);
            let a = text(k, |_| g.below(3).to_string());
            (a, text(k + 7, |_| g.below(3).to_string()))
        }
        "blank" => (text(k, |_| String::new()), text(k + k / 3, |_| String::new())),
        // as many hunks as can be
        "halves" => (text(k, |i| i.to_string()), text(k, |i| if i % 2 == 0 { format!("{i}m") } else { i.to_string() })),
        "reverse" => (text(k, |i| i.to_string()), text(k, |i| (k - i).to_string())),
        "rotate" => (text(k, |i| i.to_string()), text(k, |i| ((i + k / 2) % k).to_string())),
        "oneside" => (String::new(), text(k, |i| i.to_string())),
        "longline" => ("x".repeat(k), format!("{}y", "x".repeat(k))),
        "nonl" => (format!("{}z", text(k, |i| (i % 7).to_string())), text(k, |i| (i % 5).to_string())),
        _ => (String::new(), String::new()),
    };
    match what {
        "parsehunks" => {
            // k hunks, far apart; applied to a file where all of them drifted
            let mut d = String::from("--- a\n+++ b\n");
            for i in 0..k {
                d.push_str(&format!("@@ -{0},3 +{0},3 @@\n a{1}\n-b{1}\n+c{1}\n d{1}\n", 10 * i + 1, i));
            }
            let img = text(k * 10 + 50, |i| {
                if i < 50 {
                    return "pad".into();
                }
                let (h, r) = ((i - 50) / 10, (i - 50) % 10);
                match r {
                    0 => format!("a{h}"),
                    1 => format!("b{h}"),
                    2 => format!("d{h}"),
                    _ => format!("f{i}"),
                }
            });
            guard(|| {
                let p = S::parse(&d);
                p.is_ok_and(|p| p == p.reverse().reverse() && S::apply(&img, &p).is_ok() && S::print(Via::Display, FOpts { color: false, nl: true, sb: true }, &p) == d.as_bytes())
            })
        }
        // very many regions, all of one side, all conflicts, or in turn
        "regions" => {
            let o = text(k, |i| i.to_string());
            let kind = seed;
            let a = text(k, |i| if i % 2 == 0 { format!("{i}a") } else { i.to_string() });
            let b = match kind {
                0 => o.clone(),
                1 => text(k, |i| if i % 2 == 0 { format!("{i}b") } else { i.to_string() }),
                2 => text(k, |i| if i % 2 == 1 { format!("{i}b") } else { i.to_string() }),
                _ => a.clone(),
            };
            guard(|| {
                let mo = MOpts { dflt: true, diff3: true, len: 7 };
                let r = S::merge(mo, &o, &a, &b);
                let q = S::merge(mo, &o, &b, &a);
                match kind {
                    0 | 3 => r == Ok(a.clone().into_bytes()) && q == r,
                    1 => r.is_err() && q.is_err(),
                    _ => true,
                }
            })
        }
        "merge" => {
            let o = text(k, |i| (i % 13).to_string());
            let mut g = Rng::new(seed);
            let a = text(k, |i| if g.chance(1, 9) { "x".into() } else { (i % 13).to_string() });
            let b = text(k, |i| if g.chance(1, 9) { "y".into() } else { (i % 13).to_string() });
            guard(|| {
                let mo = MOpts { dflt: true, diff3: true, len: 7 };
                let _ = S::merge(mo, &o, &a, &b);
                let _ = B::merge(mo, o.as_bytes(), a.as_bytes(), b.as_bytes());
                let _ = S::merge(MOpts { dflt: false, diff3: false, len: 100_000 }, &o, &a, &b);
                true
            })
        }
        "emptyparse" => {
            // a long preamble, then nothing; and a very long unterminated header
            let d = text(k, |_| "preamble".into());
            let h = format!("--- {}", "n".repeat(k));
            let q = format!("--- \"{}\"\n", "\\n".repeat(k));
            guard(|| {
                let _ = S::parse(&d);
                let _ = S::parse(&h);
                let _ = B::parse(h.as_bytes());
                S::parse(&q).is_ok()
            })
        }
        _ => guard(|| {
            let d = DOpts { ctx: n.get(2).map(|c| *c as usize), on: None, mn: None };
            let p = S::create(&d, &o, &m);
            let ok = S::apply(&o, &p).is_ok();
            let r = p.reverse();
            let _ = S::apply(&m, &r);
            // an unrelated image: must fail or not, but return
            let _ = S::apply(&m, &p);
            let _ = S::apply("", &p);
            let t = S::print(Via::Display, FOpts { color: false, nl: true, sb: true }, &p);
            let s = String::from_utf8(t).unwrap_or_default();
            let back = S::parse(&s).is_ok();
            ok && back
        }),
    }
}
