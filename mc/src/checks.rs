//! The properties decided by exhaustive enumeration of inputs (C01-C15, C18-C20).
use crate::engine::{guarded, panic_message, sweep, Counts, Ctx, Swept};
use crate::ops::*;
use crate::spec::{Entry, Expansion, Operands, Spec, Src, Tok, MISSING};
use crate::text;
use raki::{Decode, DecodingError, InstFormat, Instruction, Isa, OpcodeKind};

pub const W32: u64 = 1 << 32;
pub const ALL: u64 = W32 + (1 << 16);

pub struct Report {
    pub swept: Swept,
    /// what the numbers in `extra` mean
    pub extra: Vec<&'static str>,
    /// the rendered KNOWN-FINDING description, when one was met
    pub known: Option<String>,
}

/// Words the known-findings file lists as rejected although supported: (mask, match, error).
pub struct Known {
    pub mask: u32,
    pub value: u32,
    pub err: u8,
    pub what: String,
}
impl Known {
    fn covers(&self, w: u32, o: &Obs) -> bool {
        w & self.mask == self.value && o.err == self.err
    }
}

/// One input with its width.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum In {
    H(u16),
    W(u32),
}
impl In {
    fn of(item: u64) -> In {
        if item < W32 { In::W(item as u32) } else { In::H((item - W32) as u16) }
    }
    pub fn show(self) -> String {
        match self {
            In::H(h) => format!("halfword {h:#06x}"),
            In::W(w) => format!("word {w:#010x}"),
        }
    }
    pub fn word(self) -> u32 {
        match self {
            In::H(h) => h.into(),
            In::W(w) => w,
        }
    }
    #[inline(always)]
    pub fn decode(self, isa: usize) -> Result<Instruction, DecodingError> {
        match self {
            In::H(h) => d16(h, isa),
            In::W(w) => d32(w, isa),
        }
    }
    #[inline(always)]
    fn model(self, s: &Spec, isa: usize) -> Option<&Entry> {
        match self {
            In::H(h) => s.find16(h, isa),
            In::W(w) => s.find32(w, isa),
        }
    }
}

const PANIC_OBS: Obs =
    Obs { err: 253, id: NO_OPC, rd: NONE, rs1: NONE, rs2: NONE, has_imm: false, imm: 0, fmt: 0, compressed: false };

#[inline(always)]
fn observe(c: &mut Ctx, i: In, isa: usize) -> Obs {
    match c.call(|| obs(&i.decode(isa))) {
        Some(o) => o,
        None => PANIC_OBS,
    }
}
pub fn show_obs(o: &Obs) -> String {
    if o.err == 253 { panic_message() } else { o.show() }
}
fn complain(c: &mut Ctx, i: In, isa: usize, o: &Obs, want: &str) {
    let s = format!("{} on {}: got {}; {}", i.show(), isa_name(isa), show_obs(o), want);
    c.violation(s);
}
fn show_ops(o: &Operands) -> String {
    let r = |v: u32| if v == NONE { "-".to_string() } else { v.to_string() };
    format!("rd={} rs1={} rs2={} imm={}", r(o.rd), r(o.rs1), r(o.rs2), if o.has_imm { o.imm.to_string() } else { "-".into() })
}
fn sample(c: &mut Ctx, i: In, isa: usize, o: &Obs) {
    if c.sample.is_none() && o.ok() {
        c.sample = Some(format!("{} on {} -> {}", i.show(), isa_name(isa), o.show()));
    }
}

fn plain(swept: Swept) -> Report {
    Report { swept, extra: vec![], known: None }
}

/// C01 / C02: what the model accepts is decoded to exactly that instruction.
fn identification(s: &Spec, k: &[Known], halfwords: bool) -> Report {
    let (base, n) = if halfwords { (W32, 1 << 16) } else { (0, W32) };
    let swept = sweep(n, |c, item| {
        let i = In::of(base + item);
        for isa in 0..2 {
            c.n.states += 1;
            let Some(e) = i.model(s, isa) else { continue };
            let o = observe(c, i, isa);
            if e.id == MISSING {
                if k.iter().any(|k| k.covers(i.word(), &o)) {
                    c.n.known += 1;
                } else if o.id != UNKNOWN {
                    complain(c, i, isa, &o, &format!("expected {}", e.name));
                } else if !c.call(|| spelled(&i, isa, &e.name)).unwrap_or(false) {
                    complain(c, i, isa, &o, &format!("expected {}", e.name));
                }
                continue;
            }
            c.n.validated += 1;
            if o.id != e.id {
                complain(c, i, isa, &o, &format!("expected {} ({})", NAMES[e.id as usize], e.name));
                return;
            }
            sample(c, i, isa, &o);
        }
    });
    let known = (swept.n.known > 0).then(|| k[0].what.clone());
    Report { swept, extra: vec![], known }
}
/// Does an opcode this harness has no name for at least call itself by the right mnemonic?
fn spelled(i: &In, isa: usize, name: &str) -> bool {
    i.decode(isa).is_ok_and(|x| x.opc.to_string().eq_ignore_ascii_case(name))
}

/// C03: what the model does not accept is an error.
fn rejection(s: &Spec, k: &[Known]) -> Report {
    plain(sweep(ALL, |c, item| {
        let i = In::of(item);
        for isa in 0..2 {
            c.n.states += 1;
            if i.model(s, isa).is_some_and(|e| e.id != MISSING) {
                continue;
            }
            let o = observe(c, i, isa);
            c.n.validated += 1;
            if o.ok() {
                // an opcode added for the known-missing instruction is C01's business
                if o.id == UNKNOWN && k.iter().any(|k| i.word() & k.mask == k.value) {
                    continue;
                }
                complain(c, i, isa, &o, "expected an error: this encodes no supported instruction");
                return;
            }
            if o.err == 253 {
                complain(c, i, isa, &o, "expected an error value");
                return;
            }
            if c.sample.is_none() {
                c.sample = Some(format!("{} on {} -> {}", i.show(), isa_name(isa), o.show()));
            }
        }
    }))
}

struct Ids {
    only64: Vec<bool>,
    shift: Vec<bool>,
    /// RV32 opcode -> the RV64 opcode of the same encoding
    pairs: Vec<(u16, u16)>,
}
fn id(name: &str) -> u16 {
    NAMES.iter().position(|n| *n == name).expect("opcode name") as u16
}
fn ids(s: &Spec) -> Ids {
    let mut only64 = vec![false; 1 << 16];
    for e in s.w32.iter().chain(&s.w16).filter(|e| e.only64) {
        only64[e.id as usize] = true;
    }
    only64[id("C.ADDIW") as usize] = true;
    let mut shift = vec![false; 1 << 16];
    for n in ["BaseI.SLLI", "BaseI.SRLI", "BaseI.SRAI", "C.SLLI", "C.SRLI", "C.SRAI"] {
        shift[id(n) as usize] = true;
    }
    let csrrs = id("Zicsr.CSRRS");
    let pairs = vec![
        (id("C.JAL"), id("C.ADDIW")),
        (id("Zicntr.RDCYCLE_H"), csrrs),
        (id("Zicntr.RDTIME_H"), csrrs),
        (id("Zicntr.RDINSTRET_H"), csrrs),
    ];
    Ids { only64, shift, pairs }
}

/// C04: the two ISAs against each other.
fn isa_difference(s: &Spec) -> Report {
    let ids = ids(s);
    let only_rv64 = err_code("OnlyRv64Inst");
    plain(sweep(ALL, |c, item| {
        let i = In::of(item);
        let o32 = observe(c, i, 0);
        let o64 = observe(c, i, 1);
        c.n.states += 2;
        let bad = |c: &mut Ctx, why: &str| {
            let m = format!("{}: Rv32 gives {}, Rv64 gives {}; {why}", i.show(), show_obs(&o32), show_obs(&o64));
            c.violation(m);
        };
        if o64.err == only_rv64 {
            return bad(c, "RV64 must not report RV64-only");
        }
        if o32.ok() {
            c.n.validated += 1;
            if ids.only64[o32.id as usize] {
                return bad(c, "RV32 yields a 64-bit-only instruction");
            }
            if o32 != o64 {
                let expected = ids.pairs.contains(&(o32.id, o64.id))
                    && i.model(s, 0).is_some_and(|e| e.id == o32.id)
                    && i.model(s, 1).is_some_and(|e| e.id == o64.id);
                if !expected {
                    return bad(c, "the ISAs do not differ here");
                }
                c.n.extra[1] += 1;
            } else {
                if ids.pairs.iter().any(|p| p.0 == o32.id) {
                    return bad(c, "this instruction exists on RV32 only");
                }
                c.n.extra[0] += 1;
                sample(c, i, 1, &o64);
            }
        } else if o64.ok() {
            c.n.validated += 1;
            c.n.extra[2] += 1;
            if o32.err == only_rv64 {
                if !ids.only64[o64.id as usize] {
                    return bad(c, "not a 64-bit-only instruction");
                }
            } else if !(ids.shift[o64.id as usize] && o64.has_imm && (32..64).contains(&o64.imm)) {
                return bad(c, "only 64-bit-only instructions (rejected as such) and shifts by 32 or more are limited to RV64");
            }
        }
    }))
    .with(vec!["same_on_both", "rv32_form_differs_from_rv64_form", "accepted_on_rv64_only"])
}
impl Report {
    fn with(mut self, extra: Vec<&'static str>) -> Report {
        self.extra = extra;
        self
    }
}

/// The model line that describes this accepted word: the word's own, or (if the word was misidentified, which is
/// not the business of the operand properties) the one of the opcode that was reported.
#[inline(always)]
fn reference<'a>(s: &'a Spec, by_id: &'a [Vec<u16>], i: In, isa: usize, o: &Obs) -> Option<&'a Entry> {
    if let Some(e) = i.model(s, isa) {
        if e.id == o.id {
            return Some(e);
        }
    }
    let list = match i {
        In::H(_) => &s.w16,
        In::W(_) => &s.w32,
    };
    let c = by_id.get(o.id as usize)?;
    c.iter()
        .map(|n| *n as usize)
        .filter(|n| *n < list.len() && list[*n].id == o.id)
        .map(|n| &list[n])
        .find(|e| e.isa & (1 << isa) != 0)
}
fn by_id(s: &Spec) -> Vec<Vec<u16>> {
    NAMES
        .iter()
        .enumerate()
        .map(|(id, _)| {
            let of = |l: &[Entry]| l.iter().enumerate().filter(|(_, e)| e.id as usize == id).map(|(n, _)| n as u16).collect::<Vec<_>>();
            let a = of(&s.w32);
            if a.is_empty() { of(&s.w16) } else { a }
        })
        .collect()
}

/// C05-C08: operands of everything that decodes.
fn operands(s: &Spec, halfwords: bool, imm: bool) -> Report {
    let (base, n) = if halfwords { (W32, 1 << 16) } else { (0, W32) };
    let by_id = by_id(s);
    plain(sweep(n, |c, item| {
        let i = In::of(base + item);
        for isa in 0..2 {
            c.n.states += 1;
            let o = observe(c, i, isa);
            if !o.ok() {
                if o.err == 253 && i.model(s, isa).is_some() {
                    complain(c, i, isa, &o, "expected operands");
                }
                continue;
            }
            c.n.extra[0] += 1;
            let Some(e) = reference(s, &by_id, i, isa, &o) else { continue };
            let m = e.operands(i.word());
            c.n.validated += 1;
            let ok = if imm { o.has_imm == m.has_imm && o.imm == m.imm } else { (o.rd, o.rs1, o.rs2) == (m.rd, m.rs1, m.rs2) };
            if !ok {
                complain(c, i, isa, &o, &format!("expected {}", show_ops(&m)));
                return;
            }
            sample(c, i, isa, &o);
        }
    }))
    .with(vec!["accepted"])
}

pub fn is16(name: &str) -> bool {
    name.starts_with("C.") || name.starts_with("Zicfiss.C_")
}

/// Words for the queries with arbitrary opcodes: every combination of at most 3 (thorough: 4) set or cleared bits,
/// every byte from a boundary alphabet, every value of bits 31-20, 14-12 and 6-2, every pair of register fields with
/// every value of bits 14-12 and 6-2, words near every encoding, and (thorough) every halfword in either half.
pub fn query_words(s: &Spec, thorough: bool) -> Vec<u32> {
    let mut v = vec![];
    for a in 0..32 {
        for b in a..32 {
            for d in b..32 {
                let m = (1u32 << a) | (1 << b) | (1 << d);
                v.push(m);
                v.push(!m);
                if thorough {
                    for f in d..32 {
                        v.push(m | (1 << f));
                        v.push(!(m | (1 << f)));
                    }
                }
            }
        }
    }
    // every upper field with every function code and major opcode
    for top in 0..1u32 << 12 {
        for low in 0..1u32 << 8 {
            v.push(top << 20 | (low >> 5) << 12 | (low & 31) << 2 | 3);
        }
    }
    // every pair of register fields, likewise
    for pair in 0..1u32 << 10 {
        let (x, y) = (pair & 31, pair >> 5);
        for (a, b) in [(7, 15), (7, 20), (15, 20)] {
            for low in 0..1u32 << 8 {
                v.push(x << a | y << b | (low >> 5) << 12 | (low & 31) << 2 | 3);
            }
        }
    }
    v.push(0);
    v.push(u32::MAX);
    let bytes: [u32; 5] = [0, 1, 0x7f, 0x80, 0xff];
    for a in bytes {
        for b in bytes {
            for c in bytes {
                for d in bytes {
                    v.push(a << 24 | b << 16 | c << 8 | d);
                }
            }
        }
    }
    if thorough {
        for h in 0..=0xffffu32 {
            v.push(h);
            v.push(h << 16);
            v.push(h << 16 | 0xffff);
            v.push(h | 0xffff_0000);
        }
    }
    for e in s.w32.iter() {
        v.push(e.value);
        v.push(e.value | !e.mask);
        for b in 0..32 {
            v.push(e.value ^ (1 << b));
            v.push((e.value | !e.mask) ^ (1 << b));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn queries(i: In, op: &OpcodeKind, isa: usize) -> [Result<Option<i64>, u8>; 4] {
    fn r(x: Result<Option<usize>, DecodingError>) -> Result<Option<i64>, u8> {
        x.map(|v| v.map(|v| v as i64)).map_err(|e| err_id(&e))
    }
    fn m(x: Result<Option<i32>, DecodingError>) -> Result<Option<i64>, u8> {
        x.map(|v| v.map(|v| v as i64)).map_err(|e| err_id(&e))
    }
    match i {
        In::H(h) => [r(h.parse_rd(op)), r(h.parse_rs1(op)), r(h.parse_rs2(op)), m(h.parse_imm(op, isa_of(isa)))],
        In::W(w) => [r(w.parse_rd(op)), r(w.parse_rs1(op)), r(w.parse_rs2(op)), m(w.parse_imm(op, isa_of(isa)))],
    }
}
const QUERY: [&str; 4] = ["rd", "rs1", "rs2", "imm"];

/// C09, part 2, and C10, part 2: operand queries with every opcode there is.
fn foreign(s: &Spec, thorough: bool, need_error: bool) -> Swept {
    let ops = all_opcodes();
    let words = query_words(s, thorough);
    let n16 = 1u64 << 16;
    sweep(n16 + words.len() as u64, |c, item| {
        let i = if item < n16 { In::H(item as u16) } else { In::W(words[(item - n16) as usize]) };
        for (id, op) in ops.iter().enumerate() {
            let foreign = is16(NAMES[id]) != matches!(i, In::H(_));
            if need_error && !foreign {
                continue;
            }
            for isa in 0..2 {
                c.n.states += 1;
                c.n.calls += 3;
                let Some(q) = c.call(|| queries(i, op, isa)) else {
                    let m = format!("{} queried for operands of {} on {}: {}", i.show(), NAMES[id], isa_name(isa), panic_message());
                    // for C10 a panic is not an error value either
                    c.violation(m);
                    return;
                };
                if need_error {
                    if let Some(n) = q.iter().position(|r| r.is_ok()) {
                        let m = format!("{} queried for {} with {} on {}: got {:?}, expected an error", i.show(), QUERY[n], NAMES[id], isa_name(isa), q[n]);
                        c.violation(m);
                        return;
                    }
                }
                if c.sample.is_none() && foreign {
                    c.sample = Some(format!("{} with {}: {:?}", i.show(), NAMES[id], q.map(|r| r.map_err(|e| ERR_NAMES[e as usize]))));
                }
            }
        }
    })
}

fn merge(mut a: Swept, b: impl FnOnce() -> Swept) -> Swept {
    if a.violation.is_some() {
        return a;
    }
    let mut b = b();
    a.n.add(&b.n);
    a.samples.append(&mut b.samples);
    a.violation = b.violation;
    a.cut |= b.cut;
    a.unrepeated = a.unrepeated.or(b.unrepeated);
    a
}

/// Values above 32 bits: one or two high bits over a set of low parts.
fn high_values(s: &Spec, thorough: bool) -> (Vec<u64>, Vec<u32>) {
    let mut hi = vec![];
    for a in 32..64 {
        for b in a..64 {
            hi.push((1u64 << a) | (1 << b));
            hi.push(!0 << 32 ^ ((1u64 << a) | (1 << b)));
        }
    }
    hi.push(!0 << 32);
    hi.sort_unstable();
    hi.dedup();
    let mut lo: Vec<u32> = if thorough { (0..=0xffff).collect() } else { (0..=0xfff).collect() };
    for e in s.w32.iter().chain(&s.w16) {
        lo.push(e.value);
        lo.push(e.value | (!e.mask & if e.value & 3 == 3 { !0 } else { 0xffff }));
    }
    for a in 0..32 {
        for b in a..32 {
            for v in [(1u32 << a) | (1 << b), !((1u32 << a) | (1 << b))] {
                for l in 0..4 {
                    lo.push((v & !3) | l);
                }
            }
        }
    }
    lo.sort_unstable();
    lo.dedup();
    (hi, lo)
}

fn same(a: &Option<Obs>, b: &Option<Obs>) -> bool {
    a == b
}

/// C09: nothing panics, crashes or hangs.
fn no_panic(s: &Spec, thorough: bool) -> Report {
    // decoding both widths and ISAs, opcode queries, and formatting of everything accepted
    let a = sweep(ALL, |c, item| {
        let i = In::of(item);
        let mut before = None;
        for isa in (0..2).rev() {
            c.n.states += 1;
            let r = c.call(|| i.decode(isa));
            let Some(r) = r else {
                return complain(c, i, isa, &PANIC_OBS, "decoding must return");
            };
            let op = c.call(|| match i {
                In::H(h) => opt(h.parse_opcode(isa_of(isa))),
                In::W(w) => opt(w.parse_opcode(isa_of(isa))),
            });
            if op.is_none() {
                return complain(c, i, isa, &PANIC_OBS, "querying the opcode must return");
            }
            let Ok(inst) = r else { continue };
            c.n.extra[0] += 1;
            let o = inst_obs(&inst);
            if before == Some(o) {
                continue; // the same instruction on the other ISA has just been formatted
            }
            before = Some(o);
            let mut b = text::Buf::new();
            c.n.extra[1] += 1;
            c.n.validated += 1;
            match c.call(|| b.put(&inst)) {
                None => return complain(c, i, isa, &PANIC_OBS, &format!("formatting {} must return", o.show())),
                Some(false) => return complain(c, i, isa, &o, "formatting fails or gives an absurdly long text"),
                Some(true) => {}
            }
            if c.sample.is_none() {
                c.sample = Some(format!("{} on {} formats as \"{}\"", i.show(), isa_name(isa), b.text()));
            }
        }
    });
    // operand queries with every opcode
    let a = merge(a, || foreign(s, thorough, false));
    // pointer-sized conversion: everything below 2^32 and the high values
    let a = merge(a, || {
        sweep(W32, |c, item| {
            c.n.states += 1;
            if c.call(|| Instruction::try_from(item as usize).is_ok()).is_none() {
                c.violation(format!("converting usize {item:#x}: {}", panic_message()));
            }
        })
    });
    let (hi, lo) = high_values(s, thorough);
    let a = merge(a, || {
        sweep(hi.len() as u64 * lo.len() as u64, |c, item| {
            let v = hi[(item / lo.len() as u64) as usize] | u64::from(lo[(item % lo.len() as u64) as usize]);
            c.n.states += 1;
            if c.call(|| Instruction::try_from(v as usize).is_ok()).is_none() {
                c.violation(format!("converting usize {v:#x}: {}", panic_message()));
            }
        })
    });
    let mut a = a;
    a.violation = a.violation.or(a.unrepeated.take());
    plain(a).with(vec!["accepted", "formatted"])
}
fn opt(r: Result<OpcodeKind, DecodingError>) -> (u8, u16) {
    match r {
        Ok(k) => (OK, opc_id(&k)),
        Err(e) => (err_id(&e), NO_OPC),
    }
}

/// C10: decode against the individual queries.
fn agreement(s: &Spec, thorough: bool) -> Report {
    let illegal = err_code("IllegalInstruction");
    let a = sweep(ALL, |c, item| {
        let i = In::of(item);
        for isa in 0..2 {
            c.n.states += 1;
            let o = observe(c, i, isa);
            let q = c.call(|| {
                let k = match i {
                    In::H(h) => h.parse_opcode(isa_of(isa)),
                    In::W(w) => w.parse_opcode(isa_of(isa)),
                };
                match k {
                    Ok(k) => (OK, opc_id(&k), fmt_id(&k.get_format()), queries(i, &k, isa)),
                    Err(e) => (err_id(&e), NO_OPC, 0, [Ok(None); 4]),
                }
            });
            let Some((err, opc, fmt, q)) = q else {
                if o.err != 253 {
                    complain(c, i, isa, &o, &format!("but the queries {}", panic_message()));
                    return;
                }
                continue;
            };
            if err != OK || !o.ok() {
                let zero = i == In::H(0) && o.err == illegal && err != OK;
                if err != o.err && !zero {
                    let name = if err == OK { NAMES.get(opc as usize).copied().unwrap_or("?") } else { ERR_NAMES.get(err as usize).copied().unwrap_or("?") };
                    complain(c, i, isa, &o, &format!("but the opcode query gives {name}"));
                    return;
                }
                continue;
            }
            c.n.calls += 4;
            c.n.validated += 1;
            let v = |r: u32| Ok(if r == NONE { None } else { Some(r as i64) });
            let want = [v(o.rd), v(o.rs1), v(o.rs2), Ok(o.has_imm.then_some(o.imm as i64))];
            if opc != o.id || fmt != o.fmt || q != want {
                let got = q.map(|r| r.map_err(|e| ERR_NAMES.get(e as usize).copied().unwrap_or("?")));
                complain(c, i, isa, &o, &format!("but the queries give {} {:?}", NAMES.get(opc as usize).unwrap_or(&"?"), got));
                return;
            }
            sample(c, i, isa, &o);
        }
    });
    plain(merge(a, || foreign(s, thorough, true)))
}

/// C11: conversion from usize.
fn conversion(s: &Spec, thorough: bool) -> Report {
    let convert = |c: &mut Ctx, v: u64| c.call(|| obs(&Instruction::try_from(v as usize)));
    let a = sweep(W32, |c, item| {
        c.n.states += 1;
        let got = convert(c, item);
        let want = if item & 3 == 3 {
            Some(In::W(item as u32))
        } else if item < 1 << 16 {
            Some(In::H(item as u16))
        } else {
            None
        };
        let ok = match want {
            Some(i) => {
                let w = c.call(|| obs(&i.decode(1)));
                c.n.validated += 1;
                same(&got, &w)
            }
            None => got.is_some_and(|o| !o.ok()),
        };
        if !ok {
            let g = got.map_or_else(panic_message, |o| o.show());
            let w = want.map_or("an error".to_string(), |i| format!("the RV64 decoding of {}", i.show()));
            c.violation(format!("converting usize {item:#x}: got {g}; expected {w}"));
        }
        if let Some(o) = got.filter(|o| o.ok()) {
            if c.sample.is_none() {
                c.sample = Some(format!("usize {item:#x} -> {}", o.show()));
            }
        }
    });
    let (hi, lo) = high_values(s, thorough);
    let a = merge(a, || {
        sweep(hi.len() as u64 * lo.len() as u64, |c, item| {
            let v = hi[(item / lo.len() as u64) as usize] | u64::from(lo[(item % lo.len() as u64) as usize]);
            c.n.states += 1;
            c.n.extra[0] += 1;
            let got = convert(c, v);
            if !got.is_some_and(|o| !o.ok()) {
                let g = got.map_or_else(panic_message, |o| o.show());
                c.violation(format!("converting usize {v:#x}: got {g}; expected an error: it does not fit 32 bits"));
            }
        })
    });
    // the compressed flag tells the width, on both ISAs
    let a = merge(a, || {
        sweep(ALL, |c, item| {
            let i = In::of(item);
            for isa in 0..2 {
                c.n.states += 1;
                let o = observe(c, i, isa);
                if o.ok() && o.compressed != matches!(i, In::H(_)) {
                    return complain(c, i, isa, &o, "the compressed flag does not tell the width");
                }
            }
        })
    });
    plain(a).with(vec!["values_above_32_bits"])
}

/// C12: format.
fn format_class(s: &Spec) -> Report {
    let by_id = by_id(s);
    plain(sweep(ALL, |c, item| {
        let i = In::of(item);
        for isa in 0..2 {
            c.n.states += 1;
            let got = c.call(|| {
                i.decode(isa).map(|x| {
                    let f = fmt_id(&x.opc.get_format());
                    (inst_obs(&x), f)
                })
            });
            let Some(got) = got else {
                if i.model(s, isa).is_some() {
                    complain(c, i, isa, &PANIC_OBS, "expected an instruction");
                }
                continue;
            };
            let Ok((o, of_opcode)) = got else { continue };
            c.n.calls += 1;
            let Some(e) = reference(s, &by_id, i, isa, &o) else { continue };
            c.n.validated += 1;
            if o.fmt != e.fmt || of_opcode != e.fmt {
                complain(c, i, isa, &o, &format!("expected format {} (the opcode says {})", FMT_NAMES[e.fmt as usize], FMT_NAMES.get(of_opcode as usize).unwrap_or(&"?")));
                return;
            }
            for (t, optional) in &e.text {
                let present = match t {
                    Tok::Rd => o.rd != NONE,
                    Tok::Rs1 => o.rs1 != NONE,
                    Tok::Rs2 | Tok::NumRs2 => o.rs2 != NONE,
                    Tok::NumImm => o.has_imm,
                    _ => true,
                };
                if !present && !optional {
                    complain(c, i, isa, &o, "an operand this format needs is missing");
                    return;
                }
            }
            if o.compressed != matches!(i, In::H(_)) {
                complain(c, i, isa, &o, "wrong compressed flag");
                return;
            }
            sample(c, i, isa, &o);
        }
    }))
}

/// C13 / C14: the text form.
fn text_form(s: &Spec, mnemonic: bool) -> Report {
    let by_id = by_id(s);
    let ops = all_opcodes();
    let name_of: Vec<Option<&str>> = (0..NAMES.len())
        .map(|id| s.w32.iter().chain(&s.w16).find(|e| e.id as usize == id).map(|e| e.name.as_str()))
        .collect();
    let first = if mnemonic {
        sweep(ops.len() as u64, |c, item| {
            let id = item as usize;
            c.n.states += 1;
            let mut b = text::Buf::new();
            let shown = c.call(|| b.put(&ops[id]));
            let got = if shown == Some(true) { b.text() } else { panic_message() };
            let Some(want) = name_of[id] else { return };
            if !got.eq_ignore_ascii_case(want) {
                c.violation(format!("opcode {} formats as \"{got}\"; expected \"{want}\"", NAMES[id]));
                return;
            }
            // and no other opcode shares it
            for other in 0..ops.len() {
                if other != id && c.call(|| ops[other].to_string()).is_some_and(|t| t.eq_ignore_ascii_case(&got)) {
                    c.violation(format!("opcodes {} and {} both format as \"{got}\"", NAMES[id], NAMES[other]));
                    return;
                }
            }
            c.n.validated += 1;
        })
    } else {
        Swept { n: Counts::default(), samples: vec![], violation: None, unrepeated: None, cut: false }
    };
    let a = merge(first, || {
        sweep(ALL, |c, item| {
            let i = In::of(item);
            let mut before = None;
            for isa in (0..2).rev() {
                c.n.states += 1;
                let r = c.call(|| i.decode(isa));
                let Some(Ok(inst)) = r else {
                    if r.is_none() && i.model(s, isa).is_some() {
                        return complain(c, i, isa, &PANIC_OBS, "expected an instruction");
                    }
                    continue;
                };
                let o = inst_obs(&inst);
                if before == Some(o) {
                    continue;
                }
                before = Some(o);
                let Some(e) = reference(s, &by_id, i, isa, &o) else { continue };
                let mut b = text::Buf::new();
                if c.call(|| b.put(&inst)) != Some(true) {
                    return complain(c, i, isa, &PANIC_OBS, &format!("formatting {}", o.show()));
                }
                c.n.validated += 1;
                let p = text::parse(b.bytes());
                if mnemonic {
                    if !b.bytes()[..p.mnemonic_len].eq_ignore_ascii_case(e.name.as_bytes()) {
                        return complain(c, i, isa, &o, &format!("text \"{}\" does not start with {}", b.text(), e.name));
                    }
                } else if !text::operands_match(&p, e, &o) {
                    return complain(c, i, isa, &o, &format!("text \"{}\" does not show these operands in order", b.text()));
                }
                if c.sample.is_none() {
                    c.sample = Some(format!("{} on {} -> \"{}\"", i.show(), isa_name(isa), b.text()));
                }
            }
        })
    });
    plain(a)
}

/// C15: which errors are admissible for a word the model rejects (bit set over error ids).
pub struct Errors {
    f3: u16,
    f5: u16,
    f6: u16,
    f7: u16,
    opcode: u16,
    unknown: u16,
    only64: u16,
    illegal: u16,
    majors: [bool; 128],
}
impl Errors {
    pub fn new(s: &Spec) -> Errors {
        let b = |n: &str| 1u16 << err_code(n);
        Errors {
            f3: b("InvalidFunct3"),
            f5: b("InvalidFunct5"),
            f6: b("InvalidFunct6"),
            f7: b("InvalidFunct7"),
            opcode: b("InvalidOpcode"),
            unknown: b("UnknownExtension"),
            only64: b("OnlyRv64Inst"),
            illegal: b("IllegalInstruction"),
            majors: s.majors(),
        }
    }
    pub fn admissible16(&self, s: &Spec, h: u16, isa: usize) -> u16 {
        if h == 0 {
            self.illegal
        } else if isa == 0 && s.rv64_only16(h) {
            self.only64
        } else {
            self.opcode
        }
    }
    pub fn admissible32(&self, s: &Spec, w: u32, isa: usize) -> u16 {
        let op7 = (w & 0x7f) as usize;
        if !self.majors[op7] {
            return self.opcode;
        }
        if isa == 0 && s.rv64_only32(w) {
            return self.only64;
        }
        let (f3, f7, f5) = ((w >> 12) & 7, w >> 25, w >> 27);
        let (rd, rs1, rs2) = ((w >> 7) & 31, (w >> 15) & 31, (w >> 20) & 31);
        match op7 {
            // cache-block space: the whole word is the function code
            0x0f if f3 == 2 => self.opcode,
            0x0f => self.unknown,
            0x2f => {
                let assigned = matches!(f5, 0 | 1 | 2 | 3 | 4 | 8 | 9 | 12 | 16 | 20 | 24 | 28);
                if !assigned {
                    return self.unknown;
                }
                let mut a = 0;
                if f3 != 2 && f3 != 3 {
                    a |= self.f3;
                }
                if f5 == 2 && rs2 != 0 {
                    a |= self.opcode;
                }
                a
            }
            // shadow-stack (may-be-operation) space: the whole word is the function code
            0x73 if f3 == 4 => self.opcode,
            0x73 => {
                let mut a = 0;
                let known5 = match f7 {
                    0 => Some(rs2 < 2),
                    8 => Some(rs2 == 2 || rs2 == 5),
                    0x18 => Some(rs2 == 2),
                    9 => Some(true),
                    _ => None,
                };
                match known5 {
                    None => a |= self.f7,
                    Some(false) => a |= self.f5,
                    Some(true) => {}
                }
                // trap returns and wfi are single words: their upper field is one function code
                if f7 == 8 || f7 == 0x18 {
                    a |= self.f7;
                }
                if rd != 0 || (rs1 != 0 && f7 != 9) {
                    a |= self.opcode;
                }
                a
            }
            0x3b if !matches!(f7, 0 | 1 | 0x20) => self.unknown,
            _ => {
                // entries of this ISA's instruction set, the 64-bit-only ones included
                let fixes7 = |e: &Entry| e.mask >> 26 == 0x3f;
                let val7 = |e: &Entry| (e.value >> 25, if e.mask >> 25 == 0x7f { 0x7f } else { 0x7e });
                let mut has_f3 = false;
                let mut a = 0;
                for e in s.w32.iter().filter(|e| (e.value & 0x7f) as usize == op7 && (e.only64 || e.isa & (1 << isa) != 0)) {
                    let same_f3 = e.mask & 0x7000 == 0 || (e.value >> 12) & 7 == f3;
                    has_f3 |= same_f3;
                    if fixes7(e) {
                        let (v, m) = val7(e);
                        if same_f3 && (f7 ^ v) & m != 0 {
                            a |= if m == 0x7f { self.f7 } else { self.f6 };
                        }
                        if !same_f3 && (f7 ^ v) & m == 0 {
                            a |= self.f3;
                        }
                    }
                }
                if !has_f3 {
                    a |= self.f3;
                }
                a
            }
        }
    }
}

fn error_cause(s: &Spec) -> Report {
    let er = Errors::new(s);
    plain(sweep(ALL, |c, item| {
        let i = In::of(item);
        for isa in 0..2 {
            c.n.states += 1;
            if i.model(s, isa).is_some_and(|e| e.id != MISSING) {
                continue;
            }
            let o = observe(c, i, isa);
            if o.ok() {
                continue; // C03
            }
            let want = match i {
                In::H(h) => er.admissible16(s, h, isa),
                In::W(w) => er.admissible32(s, w, isa),
            };
            c.n.validated += 1;
            if o.err >= 16 || want & (1 << o.err) == 0 {
                let names: Vec<&str> = (0..ERR_NAMES.len()).filter(|e| want & (1 << e) != 0).map(|e| ERR_NAMES[e]).collect();
                return complain(c, i, isa, &o, &format!("expected {}", names.join(" or ")));
            }
            c.n.extra[0] += u64::from(want.count_ones() == 1);
            if c.sample.is_none() {
                c.sample = Some(format!("{} on {} -> {}", i.show(), isa_name(isa), o.show()));
            }
        }
    }))
    .with(vec!["with_a_single_admissible_error"])
}

/// Re-encode a decoded instruction by the model's line(s) for its opcode.
fn reencode(s: &Spec, by_id: &[Vec<u16>], i: In, isa: usize, o: &Obs) -> Result<(u32, u32), String> {
    let ops = Operands { rd: o.rd, rs1: o.rs1, rs2: o.rs2, has_imm: o.has_imm, imm: o.imm };
    let list = match i {
        In::H(_) => &s.w16,
        In::W(_) => &s.w32,
    };
    let mut err = "no such instruction in the model".to_string();
    for n in by_id.get(o.id as usize).into_iter().flatten() {
        let Some(e) = list.get(*n as usize).filter(|e| e.id == o.id && e.isa & (1 << isa) != 0) else { continue };
        match e.encode(&ops) {
            Ok(w) if e.matches(w) && e.operands(w) == ops => return Ok((w, e.lost)),
            Ok(_) => err = "the operands do not belong to any encoding of this opcode".into(),
            Err(x) => err = x,
        }
    }
    Err(err)
}

/// C18: the decoded instruction determines the word.
fn round_trip(s: &Spec) -> Report {
    let by_id = by_id(s);
    plain(sweep(ALL, |c, item| {
        let i = In::of(item);
        for isa in 0..2 {
            c.n.states += 1;
            let o = observe(c, i, isa);
            if !o.ok() {
                if o.err == 253 && i.model(s, isa).is_some() {
                    return complain(c, i, isa, &o, "expected an instruction");
                }
                continue;
            }
            if o.id == UNKNOWN {
                continue;
            }
            c.n.validated += 1;
            match reencode(s, &by_id, i, isa, &o) {
                Err(e) => return complain(c, i, isa, &o, &format!("which cannot be encoded: {e}")),
                Ok((w, lost)) if (w ^ i.word()) & !lost != 0 => {
                    return complain(c, i, isa, &o, &format!("which encodes to {w:#x}"));
                }
                Ok(_) => {}
            }
            sample(c, i, isa, &o);
        }
    }))
}

/// C19: the compressed instruction against the 32-bit instruction it abbreviates.
fn expansion(s: &Spec) -> Report {
    plain(sweep(1 << 16, |c, item| {
        let i = In::H(item as u16);
        for isa in 0..2 {
            c.n.states += 1;
            let Some(e) = i.model(s, isa) else { continue };
            let Some(x) = &e.exp else { continue };
            let m = e.operands(i.word());
            let reserved = match x.nonzero {
                Some("imm") => m.imm == 0,
                Some("rd") => m.rd == 0,
                Some("rs1") => m.rs1 == 0,
                _ => false,
            };
            if reserved {
                c.n.extra[0] += 1;
                continue;
            }
            let Some(long) = s.w32.iter().filter(|l| l.name == x.name && l.isa & (1 << isa) != 0).find(|l| fits(l, x, &m).is_some()) else {
                panic!("model: {} has no 32-bit form for {:#x}", e.name, i.word());
            };
            let (word, want) = fits(long, x, &m).unwrap();
            let o16 = observe(c, i, isa);
            let o32 = observe(c, In::W(word), isa);
            if !o16.ok() && o16.err != 253 {
                c.n.extra[1] += 1;
                continue; // C02's business
            }
            let both = |c: &mut Ctx, why: &str| {
                let m = format!("{} on {}: {}; its expansion {word:#010x} ({}): {}; {why}", i.show(), isa_name(isa), show_obs(&o16), x.name, show_obs(&o32));
                c.violation(m);
            };
            if o16.err == 253 || !o32.ok() {
                return both(c, "both must decode");
            }
            if o16.id != e.id {
                return both(c, &format!("the halfword is {}", e.name));
            }
            if o32.id != long.id {
                return both(c, &format!("the expansion is {}", long.name));
            }
            c.n.validated += 1;
            // every operand of the expansion comes from the halfword's report or is implied
            let pick = |src: Option<Src>, v16: u32, v32: u32| match src {
                Some(Src::Same) => v16 == v32,
                Some(Src::Reg(r)) => v32 == r as u32,
                _ => true,
            };
            let imm_ok = match x.imm {
                Some(Src::Same) => o16.has_imm && o32.has_imm && o16.imm == o32.imm,
                Some(Src::Shr12) => o16.has_imm && o32.has_imm && (o16.imm as u32) >> 12 == o32.imm as u32 && o16.imm & 0xfff == 0,
                Some(Src::Const(v)) => o32.has_imm && o32.imm == v,
                _ => true,
            };
            let _ = want;
            if !(pick(x.rd, o16.rd, o32.rd) && pick(x.rs1, o16.rs1, o32.rs1) && pick(x.rs2, o16.rs2, o32.rs2) && imm_ok) {
                return both(c, "their operands differ");
            }
            if c.sample.is_none() {
                c.sample = Some(format!("{} on {}: {} ~ {word:#010x}: {}", i.show(), isa_name(isa), o16.show(), o32.show()));
            }
        }
    }))
    .with(vec!["reserved", "rejected_by_the_decoder"])
}
fn fits(long: &Entry, x: &Expansion, m: &Operands) -> Option<(u32, Operands)> {
    let get = |s: Option<Src>, v: u32| match s {
        Some(Src::Same) => v,
        Some(Src::Reg(r)) => r as u32,
        Some(Src::Const(c)) => c as u32,
        _ => NONE,
    };
    let mut o = Operands {
        rd: get(x.rd, m.rd),
        rs1: get(x.rs1, m.rs1),
        rs2: get(x.rs2, m.rs2),
        has_imm: x.imm.is_some(),
        imm: match x.imm {
            Some(Src::Same) => m.imm,
            Some(Src::Shr12) => ((m.imm as u32) >> 12) as i32,
            Some(Src::Const(c)) => c,
            _ => 0,
        },
    };
    // operands the long form fixes by itself
    let fixed = long.operands(long.value);
    for (v, f) in [(&mut o.rd, fixed.rd), (&mut o.rs1, fixed.rs1), (&mut o.rs2, fixed.rs2)] {
        if *v == NONE {
            *v = f;
        }
    }
    let w = long.encode(&o).ok()?;
    (long.matches(w) && long.operands(w) == o).then_some((w, o))
}

/// C20: equality.
fn equality(s: &Spec, thorough: bool) -> Report {
    let by_id = by_id(s);
    // (1) opcodes, formats, errors: all pairs
    let ops = all_opcodes();
    let (fmts, errs) = (all_formats(), all_errors());
    let a = sweep((ops.len() * ops.len()) as u64, |c, item| {
        let (x, y) = (item as usize / ops.len(), item as usize % ops.len());
        c.n.states += 1;
        c.n.calls += 1;
        if (ops[x] == ops[y]) != (x == y) || (ops[x] != ops[y]) == (x == y) {
            c.violation(format!("opcodes {} and {}: equality is wrong", NAMES[x], NAMES[y]));
        }
        c.n.validated += 1;
    });
    let a = merge(a, || {
        sweep((fmts.len() * fmts.len()) as u64, |c, item| {
            let (x, y) = (item as usize / fmts.len(), item as usize % fmts.len());
            c.n.states += 1;
            c.n.calls += 1;
            if (fmts[x] == fmts[y]) != (x == y) || (fmts[x] != fmts[y]) == (x == y) {
                c.violation(format!("formats {} and {}: equality is wrong", FMT_NAMES[x], FMT_NAMES[y]));
            }
            c.n.validated += 1;
        })
    });
    let a = merge(a, || {
        sweep((errs.len() * errs.len()) as u64, |c, item| {
            let (x, y) = (item as usize / errs.len(), item as usize % errs.len());
            c.n.states += 1;
            c.n.calls += 1;
            if (errs[x] == errs[y]) != (x == y) || (errs[x] != errs[y]) == (x == y) {
                c.violation(format!("errors {} and {}: equality is wrong", ERR_NAMES[x], ERR_NAMES[y]));
            }
            c.n.validated += 1;
        })
    });
    // (2) instructions: two dozen words of every encoding, on both ISAs, all pairs
    let all = |w: Vec<In>, isa: usize| -> Vec<(In, Obs, Instruction)> {
        w.into_iter().filter_map(|i| guarded(|| i.decode(isa))?.ok().map(|x| (i, inst_obs(&x), x))).collect()
    };
    let mixed = mixed_words(s, thorough);
    let insts: Vec<_> = (0..2).flat_map(|isa| all(mixed.clone(), isa)).collect();
    let n = insts.len() as u64;
    let mut a = merge(a, || {
        sweep(n * n, |c, item| {
            let (x, y) = (&insts[(item / n) as usize], &insts[(item % n) as usize]);
            c.n.states += 1;
            c.n.calls += 1;
            let want = x.1 == y.1;
            if c.call(|| (x.2 == y.2) != want || (x.2 != y.2) == want) != Some(false) {
                c.violation(format!("{} and {}: equality of {} and {} should be {want}", x.0.show(), y.0.show(), x.1.show(), y.1.show()));
            }
            c.n.validated += 1;
            c.n.extra[0] += u64::from(want);
        })
    });
    // all pairs of halfwords, and for every 32-bit encoding all pairs over planes spanned by two of its fields
    let mut planes: Vec<Vec<In>> = vec![(0..=0xffff).map(In::H).collect()];
    for e in s.w32.iter().filter(|e| e.id != MISSING) {
        let mut words: Vec<Vec<u32>> = vec![];
        let regs = |a: u32, b: u32| (0..1024u32).map(|v| (v & 31) << a | (v >> 5) << b).collect();
        words.extend([regs(7, 15), regs(15, 20), regs(7, 20)]);
        let few: &[u32] = if thorough { &[0, 1, 2, 31] } else { &[0, 1] };
        for at in [7, 15, 12] {
            words.push(few.iter().flat_map(|r| (0..1u32 << 12).map(move |t| t << 20 | r << at)).collect());
        }
        // the immediate of stores and branches
        words.push(few.iter().flat_map(|r| (0..1u32 << 12).map(move |t| (t >> 5) << 25 | (t & 31) << 7 | r << 20)).collect());
        for mut w in words {
            for x in &mut w {
                *x = e.value | (*x & !e.mask);
            }
            w.sort_unstable();
            w.dedup();
            if w.len() > 1 {
                planes.push(w.into_iter().map(In::W).collect());
            }
        }
    }
    for plane in planes {
        let insts = all(plane, 1);
        let n = insts.len();
        a = merge(a, || {
            sweep(n as u64, |c, x| {
                let (w, o, inst) = &insts[x as usize];
                let bad = c.call(|| insts[x as usize..].iter().position(|y| (*inst == y.2) != (*o == y.1)));
                c.n.states += n as u64 - x;
                c.n.calls += n as u64 - x - 1;
                c.n.validated += n as u64 - x;
                if bad != Some(None) {
                    let y = &insts[x as usize + bad.flatten().unwrap_or(0)];
                    c.violation(format!("{} and {}: equality of {} and {} is wrong", w.show(), y.0.show(), o.show(), y.1.show()));
                }
            })
        });
    }
    // (3) every word against itself, and against the word its decoding re-encodes to (if any two accepted words
    //     decode alike, one of them differs from that word)
    let a = merge(a, || {
        sweep(ALL, |c, item| {
            let i = In::of(item);
            for isa in 0..2 {
                c.n.states += 1;
                let Some(r) = c.call(|| i.decode(isa)) else { continue };
                let Some(same) = c.call(|| i.decode(isa) == r) else { continue };
                if !same {
                    return c.violation(format!("{} on {}: two decodings compare unequal", i.show(), isa_name(isa)));
                }
                let Ok(inst) = &r else { continue };
                c.n.extra[1] += 1;
                let o = inst_obs(inst);
                if i.model(s, isa).is_some_and(|e| e.id == o.id && e.lost == 0 && matches(e, i.word(), &o)) {
                    continue; // re-encodes to itself
                }
                let Ok((w, lost)) = reencode(s, &by_id, i, isa, &o) else { continue };
                if (w ^ i.word()) & !lost == 0 {
                    continue;
                }
                let other = match i {
                    In::H(_) => In::H(w as u16),
                    In::W(_) => In::W(w),
                };
                if c.call(|| other.decode(isa) == r) == Some(true) {
                    return c.violation(format!("{} and {} on {} decode to equal instructions: {}", i.show(), other.show(), isa_name(isa), o.show()));
                }
            }
        })
    });
    // (4) decoded neighbours: model words with up to three bits flipped, compared with the unflipped word
    let mut base: Vec<In> = vec![];
    for e in s.w32.iter().filter(|e| e.id != MISSING) {
        base.extend([In::W(e.value), In::W(e.value | !e.mask), In::W(e.value | (!e.mask & 0x5555_5555)), In::W(e.value | (!e.mask & 0xaaaa_aaaa))]);
    }
    for e in s.w16.iter().filter(|e| !e.illegal) {
        base.extend([In::H(e.value as u16), In::H((e.value | !e.mask) as u16), In::H((e.value | (!e.mask & 0x5555)) as u16)]);
    }
    let flips: Vec<u32> =
        (0..32).flat_map(|a| (a..32).flat_map(move |b| (b..32).map(move |d| (1u32 << a) | (1 << b) | (1 << d)))).collect();
    let a = merge(a, || {
        sweep((base.len() * flips.len()) as u64, |c, item| {
            let (i, f) = (base[item as usize / flips.len()], flips[item as usize % flips.len()]);
            let j = match i {
                In::H(h) => In::H(h ^ f as u16),
                In::W(w) => In::W(w ^ f),
            };
            if i == j {
                return;
            }
            for (ia, ja) in [(0, 0), (1, 1), (0, 1), (1, 0)] {
                c.n.states += 1;
                let (Some(x), Some(y)) = (c.call(|| i.decode(ia)), c.call(|| j.decode(ja))) else { continue };
                let want = obs(&x) == obs(&y);
                c.n.calls += 1;
                if c.call(|| (x == y) != want) != Some(false) {
                    return c.violation(format!("{} on {} and {} on {}: equality should be {want}", i.show(), isa_name(ia), j.show(), isa_name(ja)));
                }
                c.n.validated += 1;
            }
        })
    });
    plain(a).with(vec!["equal_pairs", "accepted"])
}
fn matches(e: &Entry, w: u32, o: &Obs) -> bool {
    let m = e.operands(w);
    (m.rd, m.rs1, m.rs2, m.has_imm, m.imm) == (o.rd, o.rs1, o.rs2, o.has_imm, o.imm)
}
fn all_formats() -> Vec<InstFormat> {
    use InstFormat::*;
    vec![
        RFormat, RShamtFormat, IFormat, SFormat, BFormat, UFormat, JFormat, CrFormat, CiFormat, CssFormat, CiwFormat, ClFormat,
        CsFormat, CaFormat, CbFormat, CjFormat, CsrFormat, CsrUiFormat, MFormat, AFormat, ALrFormat, NoOperand, OnlyRd, OnlyRs1,
        OnlyRs2,
    ]
}
fn all_errors() -> Vec<DecodingError> {
    use DecodingError::*;
    vec![
        Not16BitInst, Not32BitInst, InvalidFunct3, InvalidFunct5, InvalidFunct6, InvalidFunct7, InvalidOpcode, UnknownExtension,
        IllegalInstruction, OnlyRv64Inst,
    ]
}
/// Words of every encoding with the operand bits filled in different ways.
fn mixed_words(s: &Spec, thorough: bool) -> Vec<In> {
    let mut fills = vec![0, u32::MAX, 0x5555_5555, 0xaaaa_aaaa, 0x5a96_a5a5, 0xa569_5a5a, 0x0f0f_f0f0, 0xf0f0_0f0f];
    // one operand field at a time
    for field in [0x0000_0f80, 0x000f_8000, 0x01f0_0000, 0xfe00_0000, 0x0010_8080, 0x8000_0000, 0x0000_7000, 0x0200_0000] {
        fills.extend([field, !field]);
    }
    if thorough {
        fills.extend((0..32).flat_map(|b| [1 << b, !(1 << b)]));
    }
    let mut v: Vec<In> = vec![];
    for fill in fills {
        v.extend(s.w32.iter().map(|e| In::W(e.value | (fill & !e.mask))));
        v.extend(s.w16.iter().map(|e| In::H((e.value | ((fill | fill >> 16) & !e.mask)) as u16)));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn run(property: &str, s: &Spec, known: &[Known], thorough: bool) -> Option<Report> {
    let _ = Isa::Rv32;
    Some(match property {
        "C01" => identification(s, known, false),
        "C02" => identification(s, known, true),
        "C03" => rejection(s, known),
        "C04" => isa_difference(s),
        "C05" => operands(s, false, false),
        "C06" => operands(s, false, true),
        "C07" => operands(s, true, false),
        "C08" => operands(s, true, true),
        "C09" => no_panic(s, thorough),
        "C10" => agreement(s, thorough),
        "C11" => conversion(s, thorough),
        "C12" => format_class(s),
        "C13" => text_form(s, true),
        "C14" => text_form(s, false),
        "C15" => error_cause(s),
        "C16" => crate::seq::histories(s, thorough),
        "C17" => crate::sched::schedules(s, thorough),
        "C18" => round_trip(s),
        "C19" => expansion(s),
        "C20" => equality(s, thorough),
        "C22" => crate::builds::every_build(s, thorough),
        "C21" => crate::faults::failing_output(s, thorough),
        _ => return None,
    })
}
