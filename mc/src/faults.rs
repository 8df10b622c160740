//! C21: formatting into an output that fails, for every moment at which it can fail.
use crate::checks::{In, Report};
use crate::engine::{guarded, panic_message, sweep, Ctx, Swept};
use crate::ops::*;
use crate::spec::{Spec, MISSING};
use crate::text::Faulty;
use std::fmt::Display;

const EVER: usize = usize::MAX;

/// All failures while formatting one value. The description of the first wrong outcome, if any.
fn all_failures(c: &mut Ctx, d: &impl Display) -> Option<String> {
    let run = |c: &mut Ctx, bytes: usize, pieces: usize| {
        let mut out = Faulty::new(bytes, pieces);
        let good = c.call(|| out.put(d));
        (good, out)
    };
    let (good, whole) = run(c, EVER, EVER);
    let text = whole.bytes().to_vec();
    let show = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    match good {
        None => return Some(panic_message()),
        Some(false) => return Some(format!("writing \"{}\" into an output that never fails is reported as a failure", show(&text))),
        _ => {}
    }
    let bytes = (0..=text.len()).map(|n| (n, EVER));
    let pieces = (0..=whole.used).map(|n| (EVER, n));
    for (b, p) in bytes.chain(pieces) {
        let (good, out) = run(c, b, p);
        c.n.states += 1;
        c.n.validated += 1;
        let when = if p == EVER { format!("after {b} bytes") } else { format!("at piece {}", p + 1) };
        let enough = b >= text.len() && p >= whole.used;
        let bad = match good {
            None => panic_message(),
            Some(true) if !enough => "reported as success".into(),
            Some(false) if enough => "reported as failure although everything was written".into(),
            _ if out.again => "more was written after the failure".into(),
            _ if !text.starts_with(out.bytes()) => format!("wrote \"{}\", no beginning of \"{}\"", show(out.bytes()), show(&text)),
            _ if p == EVER && out.bytes().len() != b => format!("wrote only \"{}\"", show(out.bytes())),
            _ => continue,
        };
        return Some(format!("\"{}\" into an output that fails {when}: {bad}", show(&text)));
    }
    None
}

/// For every encoding, words over all pairs of register fields and all values of the upper field; all halfwords.
fn words(s: &Spec, thorough: bool) -> Vec<In> {
    let mut v: Vec<In> = (0..=0xffff).map(In::H).collect();
    let few: &[u32] = if thorough { &[0, 1, 2, 8, 15, 16, 30, 31] } else { &[0, 31] };
    for e in s.w32.iter().filter(|e| e.id != MISSING) {
        let mut w: Vec<u32> = vec![];
        for (a, b) in [(7, 15), (15, 20), (7, 20)] {
            w.extend((0..1024u32).map(|r| (r & 31) << a | (r >> 5) << b));
        }
        for at in [7, 15] {
            w.extend(few.iter().flat_map(|r| (0..1u32 << 12).map(move |t| t << 20 | r << at)));
        }
        w.extend(few.iter().flat_map(|r| (0..1u32 << 12).map(move |t| (t >> 5) << 25 | (t & 31) << 7 | r << 20)));
        w.extend((0..1u32 << 12).map(|t| t << 12 | 0x80));
        if thorough && !e.mask & 0xffff_f000 == 0xffff_f000 {
            w.extend((0..1u32 << 20).map(|t| t << 12));
        }
        for x in &mut w {
            *x = e.value | (*x & !e.mask);
        }
        w.sort_unstable();
        w.dedup();
        v.extend(w.into_iter().map(In::W));
    }
    v
}

pub fn failing_output(s: &Spec, thorough: bool) -> Report {
    let words = words(s, thorough);
    let k = all_opcodes();
    let a: Swept = sweep((words.len() + k.len()) as u64, |c, item| {
        let Some(i) = words.get(item as usize).copied() else {
            let id = item as usize - words.len();
            if let Some(bad) = all_failures(c, &k[id]) {
                c.violation(format!("formatting the opcode {}: {bad}", NAMES[id]));
            }
            c.n.extra[1] += 1;
            return;
        };
        let mut before = None;
        for isa in 0..2 {
            c.n.calls += 1;
            let Some(Some(inst)) = guarded(|| i.decode(isa).ok()) else { continue };
            let o = inst_obs(&inst);
            if before == Some(o) {
                continue; // the same instruction on both ISAs
            }
            before = Some(o);
            c.n.extra[0] += 1;
            if let Some(bad) = all_failures(c, &inst) {
                c.violation(format!("formatting {} on {}: {bad}", i.show(), isa_name(isa)));
                return;
            }
            if c.sample.is_none() {
                c.sample = Some(format!("{} on {}: every number of bytes and pieces before the failure", i.show(), isa_name(isa)));
            }
        }
    });
    Report { swept: a, extra: vec!["instructions", "opcodes"], known: None }
}
