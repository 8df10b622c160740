//! C22: the same results in every build. Each build of this explorer makes the same calls and writes a digest of
//! the results; the digests of the builds are compared.
use crate::checks::{Report, W32};
use crate::engine::{self, guarded, Counts, Swept, Violation};
use crate::ops::*;
use crate::pool;
use crate::seq::{call, lite_words, mix, mix_obs, odd_calls, visit, whole_tour, BLOCK};
use crate::spec::Spec;
use crate::sys;
use std::process::Command;
use std::time::Duration;

/// What is digested: every word (one digest per block), the words of one block, or chosen words and calls.
#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Whole,
    Block(u64),
    Chosen,
}

fn digest(item: u64, calls: &mut u64) -> u64 {
    guarded(|| visit(item, false, calls)).unwrap_or_else(|| mix(item, 0xdead))
}
fn table(n: usize, body: impl Fn(usize, &mut u64) -> u64) -> (Vec<u64>, u64, Option<Violation>) {
    let t = sys::shared_mem(n * 8) as *mut u64;
    let chunk = 4096.min(n);
    let out = pool::run(n.div_ceil(chunk) as u64, 1, Duration::from_secs(800), &|c| format!("calls from number {}", c * 4096), |w, c| {
        let mut calls = 0;
        for i in (c as usize * chunk..n).take(chunk) {
            unsafe { *t.add(i) = body(i, &mut calls) };
        }
        w.add(1, calls);
    });
    let v = out.violation.map(|v| Violation { item: v.0, msg: v.1 });
    (unsafe { std::slice::from_raw_parts(t, n).to_vec() }, out.n[1], v)
}
/// The digests, the number of calls made, and how it ended if not well.
pub fn produce(s: &Spec, what: What, time: Duration) -> (Vec<u64>, u64, Option<Violation>) {
    match what {
        What::Whole => {
            let (out, v) = whole_tour(time);
            (v, out.n[1], out.violation.map(|v| Violation { item: v.0, msg: v.1 }))
        }
        What::Block(b) => table(BLOCK as usize, |i, calls| digest(b * BLOCK + i as u64, calls)),
        What::Chosen => {
            let (words, k) = (lite_words(s), all_opcodes());
            let ops = odd_calls(&k, s);
            table(words.len() + ops.len(), |i, calls| match words.get(i) {
                Some(w) => digest(*w, calls),
                None => {
                    *calls += 1;
                    let r = call(&k, &ops[i - words.len()]);
                    mix_obs(r.text, &r.obs)
                }
            })
        }
    }
}

/// mc digest <what> <file> <seconds>
pub fn command(s: &Spec, args: &[String]) {
    let what = match args[0].as_str() {
        "whole" => What::Whole,
        "chosen" => What::Chosen,
        n => What::Block(n.parse().expect("block")),
    };
    let (mut v, calls, bad) = produce(s, what, Duration::from_secs(args[2].parse().expect("seconds")));
    if let Some(b) = bad {
        println!("{}", b.msg);
        std::process::exit(1);
    }
    v.push(calls);
    let bytes: Vec<u8> = v.iter().flat_map(|d| d.to_le_bytes()).collect();
    std::fs::write(&args[1], bytes).expect("digests");
}

/// Another build of the explorer.
struct Build {
    name: &'static str,
    exe: String,
}
impl Build {
    fn produce(&self, what: What, time: Duration) -> (Vec<u64>, u64, Option<Violation>) {
        let arg = match what {
            What::Whole => "whole".into(),
            What::Chosen => "chosen".into(),
            What::Block(n) => n.to_string(),
        };
        let file = format!("{}-digests", self.exe);
        let out = Command::new(&self.exe).args(["digest", &arg, &file, &time.as_secs().to_string()]).output();
        let out = out.unwrap_or_else(|e| {
            eprintln!("{}: {e}", self.exe);
            std::process::exit(3);
        });
        match out.status.code() {
            Some(0) => {}
            Some(1) => {
                let msg = format!("{}: {}", self.name, String::from_utf8_lossy(&out.stdout).trim());
                return (vec![], 0, Some(Violation { item: 0, msg }));
            }
            code => {
                eprintln!("{} ended with {code:?}: {}", self.exe, String::from_utf8_lossy(&out.stderr));
                std::process::exit(3);
            }
        }
        let bytes = std::fs::read(&file).expect("digests");
        let _ = std::fs::remove_file(&file);
        let mut v: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let calls = v.pop().unwrap_or(0);
        (v, calls, None)
    }
    /// What this build says about a word.
    fn explain(&self, item: u64) -> String {
        let v = if item < W32 { item } else { item - W32 };
        let out = Command::new(&self.exe).args(["explain", &v.to_string()]).output().expect("explain");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let kind = if item < W32 { "word" } else { "halfword" };
        let mut lines: Vec<&str> = text.lines().filter(|l| l.starts_with(kind)).collect();
        lines.dedup();
        format!("{}:\n    {}", self.name, lines.join("\n    "))
    }
}

pub fn every_build(s: &Spec, thorough: bool) -> Report {
    let exe = |p: &str| {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        format!("{dir}/mc/target/{p}/{p}/mc")
    };
    let this = Build { name: "optimised, with overflow checks and debug assertions", exe: exe("release") };
    let plain = Build { name: "optimised, without overflow checks and debug assertions", exe: exe("plain") };
    let steps = Build { name: "not optimised, with overflow checks and debug assertions", exe: exe("steps") };
    let bare = Build { name: "not optimised, without overflow checks and debug assertions", exe: exe("bare") };
    let mut n = Counts::default();
    let mut violation = None;
    let mut cut = false;
    let mut samples = vec![];
    let words = lite_words(s);
    let ops = odd_calls(&all_opcodes(), s);
    let others: &[&Build] = if thorough { &[&plain, &bare] } else { &[&plain] };
    let mut compare = |what: What, others: &[&Build]| {
        if violation.is_some() {
            return;
        }
        // time for one tour by each build, and a minute to locate a difference
        let time = |builds: usize| engine::left().saturating_sub(Duration::from_secs(60)) / builds as u32;
        let (mine, calls, bad) = produce(s, what, time(others.len() + 1));
        n.calls += calls;
        n.states += match what {
            What::Whole => 2 * BLOCK * mine.iter().filter(|d| **d != 0).count() as u64,
            _ => mine.len() as u64,
        };
        violation = bad;
        for (i, other) in others.iter().enumerate() {
            if violation.is_some() {
                return;
            }
            let (theirs, calls, bad) = other.produce(what, time(others.len() - i));
            n.calls += calls;
            n.validated += theirs.len() as u64;
            n.extra[0] += 1;
            violation = bad;
            if violation.is_some() {
                return;
            }
            cut |= what == What::Whole && (mine.contains(&0) || theirs.contains(&0));
            assert_eq!(mine.len(), theirs.len());
            samples.push(format!("{} against {}: {} digests", this.name, other.name, mine.len()));
            let Some(at) = (0..mine.len()).find(|i| mine[*i] != theirs[*i] && !(what == What::Whole && (mine[*i] == 0 || theirs[*i] == 0))) else { continue };
            let tell = |item: u64| format!("builds disagree; {}\n{}", this.explain(item), other.explain(item));
            let (item, msg) = match what {
                What::Chosen if at >= words.len() => (0, format!("builds disagree on {} ({} and {})", ops[at - words.len()].show(), this.name, other.name)),
                What::Chosen => (words[at], tell(words[at])),
                _ => {
                    let block = What::Block(at as u64);
                    let (a, b) = (produce(s, block, engine::left()).0, other.produce(block, engine::left()).0);
                    let first = (0..a.len().min(b.len())).find(|i| a[*i] != b[*i]);
                    let item = at as u64 * BLOCK + first.unwrap_or(0) as u64;
                    (item, tell(item))
                }
            };
            violation = Some(Violation { item, msg });
        }
    };
    compare(What::Chosen, &[&plain, &steps, &bare]);
    compare(What::Whole, others);
    let swept = Swept { n, samples, violation, unrepeated: None, cut };
    Report { swept, extra: vec!["comparisons_of_builds"], known: None }
}
