//! Drives the real library with generated call sequences and records what happened.
//!
//!   drive run    --prop P --tier T --seed N --shard I --shards N --out DIR --budget B
//!   drive show   (same) --index K        print program number K of that shard
//!   drive replay --prop P [FILE]         run the programs of FILE (or stdin), print trace lines
//!   drive exec   --prop P --off N        (internal) run programs from stdin, print their steps
//!
//! `run` executes every generated program, and writes the sessions TLC is to judge to
//! DIR/trace.I.ndjson, with their programs, line by line, in DIR/progs.I.ndjson.

mod api;
mod big;
mod dict;
mod gen;
mod prog;
mod scout;
mod sized;
mod util;

use gen::Cfg;
use prog::{Prog, Sess};
use std::collections::BTreeMap;
use std::io::{BufRead, Read, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use util::*;

const MAX_SUSPECTS: usize = 40;
const KEEP: usize = 400; // candidates kept per class

struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k, &d.to_string()).parse().expect("a number")
    }
}

struct Done {
    prog: Prog,
    line: String,
    cost: u64,
    size: usize,
}

/// what judging the session will cost TLC, roughly in units of a microsecond
fn cost_of(prop: &str, p: &Prog, log: &[String]) -> u64 {
    let bytes: usize = log.iter().map(|l| l.len()).sum();
    let mut c = 400 + 300 * log.len() as u64 + bytes as u64;
    let n: Vec<u64> = p.ops.iter().filter(|o| o.k == "text" || o.k == "doc").map(|o| lines(&o.b[0]).len() as u64).collect();
    let big = n.iter().copied().max().unwrap_or(0) + 1;
    match prop {
        "P05" if p.ops.iter().all(|o| o.k != "diff" || o.n[5] < 0) => c += big * big * 4,
        "P10" | "P11" => c += big * big * 8,
        "P12" | "P13" | "P14" | "P15" => c += big * big * 15,
        _ => c += big * 20,
    }
    c
}

fn session(log: &[String]) -> String {
    format!("{{\"s\":[{}]}}", log.join(","))
}

fn broken(st: &str, note: &str) -> String {
    let mut s = String::from("{\"op\":\"call\",\"what\":");
    jstr(&mut s, note.as_bytes());
    s.push_str(&format!(",\"r\":{{\"st\":\"{st}\"}}}}"));
    s
}

/// all sessions of one class are equally likely to be looked at
struct Class {
    seen: u64,
    kept: Vec<(u64, Done)>,
}

struct Picker {
    classes: BTreeMap<String, Class>,
    suspects: Vec<Done>,
    suspect_count: u64,
    rng: Rng,
    programs: u64,
    calls: u64,
    steps: u64,
}

impl Picker {
    fn new(seed: u64) -> Self {
        Picker { classes: BTreeMap::new(), suspects: Vec::new(), suspect_count: 0, rng: Rng::new(seed), programs: 0, calls: 0, steps: 0 }
    }
    fn take(&mut self, suspect: bool, d: impl FnOnce() -> Done, key: String) {
        if suspect {
            self.suspect_count += 1;
            let d = d();
            self.suspects.push(d);
            if self.suspects.len() > 4 * MAX_SUSPECTS {
                self.suspects.sort_by_key(|d| d.size);
                self.suspects.truncate(MAX_SUSPECTS);
            }
            return;
        }
        let c = self.classes.entry(key).or_insert(Class { seen: 0, kept: Vec::new() });
        c.seen += 1;
        let r = self.rng.next();
        if c.kept.len() < KEEP {
            c.kept.push((r, d()));
        } else {
            let j = (r % c.seen) as usize;
            if j < KEEP {
                c.kept[j] = (self.rng.next(), d());
            }
        }
    }
    fn finish(mut self, budget: u64) -> (Vec<Done>, BTreeMap<String, (u64, u64)>) {
        self.suspects.sort_by_key(|d| d.size);
        self.suspects.truncate(MAX_SUSPECTS);
        // the smallest suspects: three at least, more as long as they are cheap to judge
        let mut out: Vec<Done> = Vec::new();
        let mut worth = 0u64;
        for d in std::mem::take(&mut self.suspects) {
            worth += d.cost;
            if out.len() < 3 || worth < budget {
                out.push(d);
            }
        }
        let mut stat: BTreeMap<String, (u64, u64)> = self.classes.iter().map(|(k, c)| (k.clone(), (c.seen, 0))).collect();
        let mut spent = 0u64;
        let mut pools: Vec<(String, Vec<(u64, Done)>)> = self.classes.into_iter().map(|(k, c)| (k, c.kept)).collect();
        for p in &mut pools {
            p.1.sort_by_key(|d| d.0);
        }
        loop {
            let mut any = false;
            for (k, pool) in &mut pools {
                let Some((_, d)) = pool.pop() else { continue };
                any = true;
                if d.cost * 16 > budget || spent + d.cost > budget {
                    continue;
                }
                spent += d.cost;
                stat.get_mut(k).unwrap().1 += 1;
                out.push(d);
            }
            if !any || spent >= budget {
                break;
            }
        }
        (out, stat)
    }
}

fn execute(prop: &str, p: &Prog, off: i64) -> (Vec<String>, bool, String, usize) {
    let mut s = Sess::new(prop, off);
    s.run(p);
    (std::mem::take(&mut s.log), s.suspect, std::mem::take(&mut s.class), s.calls)
}

fn run_shard(a: &Args) {
    let prop = a.get("prop", "ALL");
    let (shard, shards) = (a.num("shard", 0) as usize, a.num("shards", 1) as usize);
    let seed = a.num("seed", 1);
    let thorough = a.get("tier", "quick") == "thorough";
    let cfg = Cfg { prop: &prop, thorough, seed, shard, shards };
    let out = a.get("out", ".");
    let budget = a.num("budget", 8_000_000);
    let cur = Arc::new(std::fs::File::create(format!("{out}/cur.{shard}")).expect("cur file"));

    // the watchdog: a program that does not come back is a finding, recorded as such
    let beat = Arc::new(AtomicU64::new(0));
    let limit = a.num("hang", 120);
    {
        let beat = beat.clone();
        let cur = cur.clone();
        std::thread::spawn(move || {
            let (mut last, mut since) = (u64::MAX, std::time::Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = beat.load(Ordering::Relaxed);
                if now != last {
                    last = now;
                    since = std::time::Instant::now();
                } else if since.elapsed().as_secs() > limit {
                    let _ = cur.write_at(b"hang", 8);
                    std::process::exit(97);
                }
            }
        });
    }

    let mut pick = Picker::new(seed ^ 0xabc ^ shard as u64);
    let mut index = 0u64;
    let start = |index: u64| {
        beat.store(index, Ordering::Relaxed);
        let _ = cur.write_at(&index.to_le_bytes(), 0);
    };
    if prop == "P18" {
        again(&cfg, &mut pick, &start);
        index = ALONE;
    }
    {
        let mut sink = |p: Prog| {
            start(index);
            index += 1;
            let (log, suspect, class, calls) = execute(&prop, &p, 0);
            pick.programs += 1;
            pick.calls += calls as u64;
            pick.steps += log.len() as u64;
            let key = format!("{}/{}", p.tag, class);
            let cost = cost_of(&prop, &p, &log);
            let size = p.size();
            pick.take(suspect, move || Done { prog: p, line: session(&log), cost, size }, key);
        };
        gen::generate(&cfg, &mut sink);
    }
    start(u64::MAX - 1);
    let (programs, calls, steps, suspects) = (pick.programs, pick.calls, pick.steps, pick.suspect_count);
    let (done, stat) = pick.finish(budget);
    let mut t = std::io::BufWriter::new(std::fs::File::create(format!("{out}/trace.{shard}.ndjson")).expect("trace file"));
    let mut q = std::io::BufWriter::new(std::fs::File::create(format!("{out}/progs.{shard}.ndjson")).expect("progs file"));
    for d in &done {
        writeln!(t, "{}", d.line).expect("write");
        writeln!(q, "{}", d.prog.json()).expect("write");
    }
    t.flush().expect("write");
    q.flush().expect("write");
    let mut s = format!(
        "{{\"programs\":{programs},\"calls\":{calls},\"steps\":{steps},\"suspects\":{suspects},\"sessions\":{},\"classes\":{{",
        done.len()
    );
    for (i, (k, (n, m))) in stat.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        jstr(&mut s, k.as_bytes());
        s.push_str(&format!(":[{n},{m}]"));
    }
    s.push_str("}}");
    std::fs::write(format!("{out}/stats.{shard}.json"), s).expect("stats");
}

/// programs of P18 with a number from here on run once and alone
const ALONE: u64 = 1 << 40;

/// Property P18: the same calls again, after other calls, in other threads at the same
/// time, and in another process.
fn again(cfg: &Cfg, pick: &mut Picker, start: &dyn Fn(u64)) {
    let n = if cfg.thorough { 2400 } else { 320 };
    let batch = 40usize;
    for b in 0..n / batch {
        start(b as u64);
        let progs: Vec<Prog> = (0..batch).map(|k| gen::determinism(cfg, b * batch + k)).collect();
        let texts: Vec<String> = progs.iter().map(|p| p.json()).collect();
        let mut logs: Vec<Vec<String>> = progs.iter().map(|_| Vec::new()).collect();
        let add = |logs: &mut Vec<Vec<String>>, k: usize, l: Vec<String>| logs[k].extend(l);
        for (k, p) in progs.iter().enumerate() {
            let r = execute("P18", p, 0);
            pick.calls += 2 * r.3 as u64;
            add(&mut logs, k, r.0);
            let r = execute("P18", p, 1000);
            add(&mut logs, k, r.0);
            // after the same calls on other texts at the same place
            let q = gen::twin(p);
            let mut r = prog::in_place(&mut |i| execute("P18", if i == 0 { &q } else { p }, 7000), 2);
            add(&mut logs, k, std::mem::take(&mut r[1].0));
            pick.calls += r[1].3 as u64;
        }
        // after all the others, in the opposite order
        for (k, p) in progs.iter().enumerate().rev() {
            let r = execute("P18", p, 2000);
            pick.calls += r.3 as u64;
            add(&mut logs, k, r.0);
        }
        // all at once
        let threads = 4;
        let gate = std::sync::Barrier::new(threads);
        let mut from: Vec<Vec<(usize, Vec<String>, usize)>> = Vec::new();
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (progs, gate) = (&progs, &gate);
                    sc.spawn(move || {
                        gate.wait();
                        (0..batch)
                            .map(|i| {
                                // pairs of threads run the same program at the same time
                                let k = (i + t / 2 * 7) % batch;
                                let r = execute("P18", &progs[k], 3000 + 1000 * t as i64);
                                (k, r.0, r.3)
                            })
                            .collect()
                    })
                })
                .collect();
            from = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
        });
        for t in from {
            if t.len() < batch {
                for l in logs.iter_mut() {
                    l.push(broken("panic", "a thread"));
                }
            }
            for (k, l, c) in t {
                pick.calls += c as u64;
                add(&mut logs, k, l);
            }
        }
        // elsewhere
        let mut ch = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(["exec", "--prop", "P18", "--off", "9000"])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("child");
        let input = texts.join("\n");
        let mut w = ch.stdin.take().expect("pipe");
        let th = std::thread::spawn(move || {
            let _ = w.write_all(input.as_bytes());
        });
        let mut got = String::new();
        let _ = ch.stdout.take().expect("pipe").read_to_string(&mut got);
        let _ = th.join();
        let _ = ch.wait();
        let got: Vec<&str> = got.lines().collect();
        for k in 0..batch {
            let l = match got.get(k) {
                Some(l) => l.to_string(),
                None => broken("abort", "another process"),
            };
            logs[k].push(l);
        }
        for (k, p) in progs.into_iter().enumerate() {
            let log = std::mem::take(&mut logs[k]);
            pick.programs += 8;
            pick.steps += 8 * p.ops.len() as u64;
            // differing logs, up to the ids, are suspects
            let suspect = !alike(&log, p.ops.len());
            let cost = cost_of("P18", &p, &log) * 3 / 2;
            let size = p.size();
            let class = p.tag.clone();
            pick.take(suspect, move || Done { prog: p, line: session(&log), cost, size }, class);
        }
    }
}

/// the runs of a log have equal results
fn alike(log: &[String], _n: usize) -> bool {
    let text = log.join(",");
    let mut by: BTreeMap<u64, Vec<&str>> = BTreeMap::new();
    // results in order of appearance, per run: a run starts with the first text step
    let mut run = 0u64;
    for part in text.split("{\"op\":\"") {
        if part.starts_with("text\",\"t\":") && part.split(',').nth(1).is_some_and(|t| t.ends_with("001") || t == "\"t\":1") {
            run += 1;
        }
        let r = part.find("\"r\":{").map_or("", |i| &part[i..]);
        by.entry(run).or_default().push(r.trim_end_matches(','));
    }
    let mut it = by.into_iter().filter(|(k, _)| *k > 0).map(|(_, v)| v);
    let first = it.next();
    it.all(|v| Some(&v) == first.as_ref())
}

fn main() {
    let mut a = Args(BTreeMap::new(), Vec::new());
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.strip_prefix("--") {
            Some(k) => {
                let v = it.next().unwrap_or_default();
                a.0.insert(k.to_string(), v);
            }
            None => a.1.push(x),
        }
    }
    if std::env::var("SHOW").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let prop = a.get("prop", "ALL");
    match a.1.first().map(|s| s.as_str()) {
        Some("run") => run_shard(&a),
        Some("show") => {
            let cfg = Cfg {
                prop: &prop,
                thorough: a.get("tier", "quick") == "thorough",
                seed: a.num("seed", 1),
                shard: a.num("shard", 0) as usize,
                shards: a.num("shards", 1) as usize,
            };
            let (want, mut i) = (a.num("index", 0), if prop == "P18" { ALONE } else { 0 });
            let mut show = |p: Prog| {
                if i == want {
                    println!("{}", p.json());
                }
                i += 1;
            };
            if prop == "P18" && want < ALONE {
                for k in 0..40 {
                    println!("{}", gen::determinism(&cfg, want as usize * 40 + k).json());
                }
            } else {
                gen::generate(&cfg, &mut show);
            }
        }
        Some(c @ ("replay" | "exec")) => {
            let off = a.num("off", 0) as i64;
            let input: Box<dyn BufRead> = match a.1.get(1) {
                Some(f) => Box::new(std::io::BufReader::new(std::fs::File::open(f).expect("the file"))),
                None => Box::new(std::io::BufReader::new(std::io::stdin())),
            };
            for l in input.lines() {
                let l = l.expect("a line");
                if l.trim().is_empty() {
                    continue;
                }
                let p = Prog::from_json(&l).expect("a program");
                let (mut log, _, _, _) = execute(&prop, &p, off);
                if c == "exec" {
                    println!("{}", log.join(","));
                    continue;
                }
                if prop == "P18" {
                    for k in 1..8 {
                        log.extend(execute(&prop, &p, 1000 * k).0);
                    }
                }
                println!("{}", session(&log));
            }
        }
        _ => {
            eprintln!("usage: drive run|show|replay|exec ...");
            std::process::exit(2);
        }
    }
}
