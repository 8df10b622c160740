//! Reading raki's text form back: mnemonic, register tokens and number tokens.
use crate::ops::{Obs, NONE};
use crate::spec::{Entry, Tok};
use std::fmt::Write;

pub struct Buf {
    b: [u8; 160],
    n: usize,
    overflow: bool,
}
impl Buf {
    pub fn new() -> Buf {
        Buf { b: [0; 160], n: 0, overflow: false }
    }
    pub fn clear(&mut self) {
        self.n = 0;
        self.overflow = false;
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(self.bytes()).into_owned()
    }
    pub fn put(&mut self, d: &impl std::fmt::Display) -> bool {
        self.clear();
        write!(self, "{d}").is_ok() && !self.overflow
    }
}
impl Write for Buf {
    #[inline]
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let s = s.as_bytes();
        if self.n + s.len() > self.b.len() {
            self.overflow = true;
            return Ok(());
        }
        self.b[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
        Ok(())
    }
}

/// An output that fails: when it has taken so many bytes, or when given so many pieces.
pub struct Faulty {
    buf: Buf,
    bytes: usize,
    pieces: usize,
    pub used: usize,
    pub failed: bool,
    /// written to again after it had failed
    pub again: bool,
}
impl Faulty {
    pub fn new(bytes: usize, pieces: usize) -> Faulty {
        Faulty { buf: Buf::new(), bytes, pieces, used: 0, failed: false, again: false }
    }
    /// Did formatting report success?
    pub fn put(&mut self, d: &impl std::fmt::Display) -> bool {
        write!(self, "{d}").is_ok()
    }
    pub fn bytes(&self) -> &[u8] {
        self.buf.bytes()
    }
}
impl Write for Faulty {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.again = true;
            return Err(std::fmt::Error);
        }
        if self.used == self.pieces {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.used += 1;
        let room = s.len().min(self.bytes - self.buf.n);
        self.failed = room < s.len();
        for b in &s.as_bytes()[..room] {
            if self.buf.n < self.buf.b.len() {
                self.buf.b[self.buf.n] = *b;
                self.buf.n += 1;
            }
        }
        if self.failed { Err(std::fmt::Error) } else { Ok(()) }
    }
}

fn register(t: &[u8]) -> Option<u8> {
    // "fp" is the other ABI name of s0
    if t == b"fp" {
        return Some(8);
    }
    let (c, d) = (*t.first()?, t.get(1).copied());
    let num = |t: &[u8]| -> Option<u8> {
        match t.len() {
            1 if t[0].is_ascii_digit() => Some(t[0] - b'0'),
            2 if t[0] == b'1' && t[1].is_ascii_digit() => Some(10 + t[1] - b'0'),
            _ => None,
        }
    };
    match (c, d) {
        (b'z', _) => (t == b"zero").then_some(0),
        (b'r', _) => (t == b"ra").then_some(1),
        (b's', Some(b'p')) if t.len() == 2 => Some(2),
        (b'g', _) => (t == b"gp").then_some(3),
        (b't', Some(b'p')) if t.len() == 2 => Some(4),
        (b't', _) => num(&t[1..]).filter(|n| *n <= 6).map(|n| if n < 3 { 5 + n } else { 25 + n }),
        (b's', _) => num(&t[1..]).filter(|n| *n <= 11).map(|n| if n < 2 { 8 + n } else { 16 + n }),
        (b'a', _) => num(&t[1..]).filter(|n| *n <= 7).map(|n| 10 + n),
        _ => None,
    }
}

/// A decimal or 0x-prefixed number, optionally negative, modulo 2^32.
fn number(t: &[u8]) -> Option<u32> {
    let (neg, t) = t.strip_prefix(b"-").map_or((false, t), |t| (true, t));
    let mut v: u64 = 0;
    let hex = t.strip_prefix(b"0x").or_else(|| t.strip_prefix(b"0X"));
    let (digits, base) = hex.map_or((t, 10), |h| (h, 16));
    if digits.is_empty() || digits.len() > 18 {
        return None;
    }
    for d in digits {
        v = v.wrapping_mul(base).wrapping_add((*d as char).to_digit(base as u32)? as u64);
    }
    if v > u64::from(u32::MAX) && v < 0xffff_ffff_8000_0000 {
        return None;
    }
    Some(if neg { (v as u32).wrapping_neg() } else { v as u32 })
}

pub struct Parsed {
    pub mnemonic_len: usize,
    pub regs: [u8; 6],
    pub nregs: usize,
    pub nums: [u32; 6],
    pub nnums: usize,
    /// a token that is neither a register nor a number, or too many
    pub junk: bool,
}

pub fn parse(s: &[u8]) -> Parsed {
    let end = s.iter().position(|c| c.is_ascii_whitespace()).unwrap_or(s.len());
    let mut p = Parsed { mnemonic_len: end, regs: [0; 6], nregs: 0, nums: [0; 6], nnums: 0, junk: false };
    let mut i = end;
    while i < s.len() {
        let c = s[i];
        if c.is_ascii_alphanumeric() || c == b'-' || c == b'_' || c == b'.' || !c.is_ascii() {
            let b = i;
            i += 1;
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_' || s[i] == b'.' || !s[i].is_ascii()) {
                i += 1;
            }
            let t = &s[b..i];
            if let Some(r) = register(t) {
                if p.nregs == 6 {
                    p.junk = true;
                } else {
                    p.regs[p.nregs] = r;
                    p.nregs += 1;
                }
            } else if let Some(n) = number(t) {
                if p.nnums == 6 {
                    p.junk = true;
                } else {
                    p.nums[p.nnums] = n;
                    p.nnums += 1;
                }
            } else {
                p.junk = true;
            }
        } else {
            // separators: spaces, commas, brackets, a leading plus
            if !(c.is_ascii_whitespace() || matches!(c, b',' | b'(' | b')' | b'[' | b']' | b'+')) {
                p.junk = true;
            }
            i += 1;
        }
    }
    p
}

/// Do the operands shown match what this instruction shows in assembly? Registers and numbers are compared as two
/// sequences, so that `lw a0, 4(a1)` and `lw a0, a1, 4` are both fine.
pub fn operands_match(p: &Parsed, e: &Entry, o: &Obs) -> bool {
    if p.junk {
        return false;
    }
    let (mut r, mut n) = (0, 0);
    for (tok, optional) in &e.text {
        let (is_reg, want) = match tok {
            Tok::Rd => (true, o.rd),
            Tok::Rs1 => (true, o.rs1),
            Tok::Rs2 => (true, o.rs2),
            Tok::Reg(x) => (true, *x as u32),
            Tok::NumImm => (false, o.imm as u32),
            Tok::NumRs2 => (false, o.rs2),
            Tok::Num(v) => (false, *v as u32),
        };
        if is_reg {
            let next_ok = r < p.nregs && p.regs[r] as u32 == want && want != NONE;
            if *optional {
                // leave an implied register out only if the text is then short of it
                let need = e.text.iter().filter(|t| !t.1 && matches!(t.0, Tok::Rd | Tok::Rs1 | Tok::Rs2 | Tok::Reg(_))).count();
                if p.nregs > need {
                    if !next_ok {
                        return false;
                    }
                    r += 1;
                }
            } else if next_ok {
                r += 1;
            } else {
                return false;
            }
        } else {
            let next_ok = n < p.nnums && p.nums[n] == want;
            if next_ok {
                n += 1;
            } else if !*optional {
                return false;
            }
        }
    }
    r == p.nregs && n == p.nnums
}
