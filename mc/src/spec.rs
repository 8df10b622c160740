//! The reference model: parses spec/riscv.spec and answers "what should this word decode to".
use crate::ops::{self, NAMES, NONE};

pub const ISA32: u8 = 1;
pub const ISA64: u8 = 2;
/// Id of instructions the specification has but raki has no opcode for (known finding).
pub const MISSING: u16 = 0xfff0;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Field {
    Absent,
    Bits { lo: u8, width: u8, add: u8 },
    Const(u8),
}
impl Field {
    fn get(&self, w: u32) -> u32 {
        match *self {
            Field::Absent => NONE,
            Field::Bits { lo, width, add } => ((w >> lo) & ((1u32 << width) - 1)) + add as u32,
            Field::Const(c) => c as u32,
        }
    }
}

/// A run of bits: `width` bits from source bit `src` upward land at immediate bit `dst` upward.
#[derive(Clone, Copy, Debug)]
pub struct Seg {
    pub src: u8,
    pub width: u8,
    pub dst: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Rd,
    Rs1,
    Rs2,
    Reg(u8),
    NumImm,
    NumRs2,
    Num(i64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Src {
    Same,
    Reg(u8),
    Const(i32),
    Shr12,
}

#[derive(Clone, Debug)]
pub struct Expansion {
    pub nonzero: Option<&'static str>,
    pub name: String,
    pub rd: Option<Src>,
    pub rs1: Option<Src>,
    pub rs2: Option<Src>,
    pub imm: Option<Src>,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub name: String,
    pub id: u16,
    pub isa: u8,
    /// RV64-only instruction: RV32 must say so.
    pub only64: bool,
    pub fmt: u8,
    pub mask: u32,
    pub value: u32,
    pub nonzero: u32,
    pub rd: Field,
    pub rs1: Field,
    pub rs2: Field,
    pub imm: Option<(bool, u8, Vec<Seg>)>,
    pub lost: u32,
    /// (token, optional) in assembly order.
    pub text: Vec<(Tok, bool)>,
    pub exp: Option<Expansion>,
    pub illegal: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Operands {
    pub rd: u32,
    pub rs1: u32,
    pub rs2: u32,
    pub has_imm: bool,
    pub imm: i32,
}

impl Entry {
    #[inline]
    pub fn matches(&self, w: u32) -> bool {
        w & self.mask == self.value && (self.nonzero == 0 || w & self.nonzero != 0)
    }
    pub fn imm(&self, w: u32) -> Option<i32> {
        let (signed, width, segs) = self.imm.as_ref()?;
        let mut v: u32 = 0;
        for s in segs {
            v |= ((w >> s.src) & ((1u32 << s.width) - 1)) << s.dst;
        }
        Some(if *signed { ((v << (32 - width)) as i32) >> (32 - width) } else { v as i32 })
    }
    pub fn operands(&self, w: u32) -> Operands {
        let imm = self.imm(w);
        Operands {
            rd: self.rd.get(w),
            rs1: self.rs1.get(w),
            rs2: self.rs2.get(w),
            has_imm: imm.is_some(),
            imm: imm.unwrap_or(0),
        }
    }
    /// The word whose fields are these operands, or what does not fit.
    pub fn encode(&self, o: &Operands) -> Result<u32, String> {
        let mut w = self.value;
        for (f, v, n) in [(&self.rd, o.rd, "rd"), (&self.rs1, o.rs1, "rs1"), (&self.rs2, o.rs2, "rs2")] {
            match *f {
                Field::Absent | Field::Const(_) => {}
                Field::Bits { lo, width, add } => {
                    if v == NONE || v < add as u32 || v - add as u32 >= 1 << width {
                        return Err(format!("{n} is not encodable"));
                    }
                    let bits = (v - add as u32) << lo;
                    let m = ((1u32 << width) - 1) << lo;
                    // a second operand on the same field must agree with the first
                    if w & m & !self.mask != 0 && w & m != bits {
                        return Err(format!("{n} contradicts the other operand of its field"));
                    }
                    w |= bits;
                }
            }
        }
        if let Some((signed, width, segs)) = &self.imm {
            if !o.has_imm {
                return Err("immediate missing".into());
            }
            let v = o.imm as u32;
            let mut back = 0u32;
            for s in segs {
                let bits = (v >> s.dst) & ((1u32 << s.width) - 1);
                w |= bits << s.src;
                back |= bits << s.dst;
            }
            let back = if *signed { ((back << (32 - width)) as i32) >> (32 - width) } else { back as i32 };
            if back != o.imm {
                return Err(format!("immediate {} is not encodable", o.imm));
            }
        }
        Ok(w)
    }
}

fn num(s: &str) -> u32 {
    s.strip_prefix("0x").map_or_else(|| s.parse().ok(), |h| u32::from_str_radix(h, 16).ok()).unwrap_or_else(|| panic!("spec: number {s}"))
}
fn range(s: &str) -> (u8, u8) {
    let (h, l) = s.split_once('-').unwrap_or((s, s));
    (num(h) as u8, num(l) as u8)
}
fn field_mask(h: u8, l: u8) -> u32 {
    let width = h - l + 1;
    if width == 32 { u32::MAX } else { ((1u32 << width) - 1) << l }
}

fn parse_entry(line: &str) -> Entry {
    let secs: Vec<&str> = line.split(';').map(str::trim).collect();
    let head: Vec<&str> = secs[0].split_whitespace().collect();
    let mut e = Entry {
        name: head[0].into(),
        id: NAMES.iter().position(|n| *n == head[1]).map_or(MISSING, |i| i as u16),
        isa: match head[2] {
            "both" => ISA32 | ISA64,
            "32" => ISA32,
            "64" | "64s" => ISA64,
            x => panic!("spec: isa {x}"),
        },
        only64: head[2] == "64",
        fmt: ops::FMT_NAMES.iter().position(|n| *n == head[3]).map_or(0xfe, |i| i as u8),
        mask: 0,
        value: 0,
        nonzero: 0,
        rd: Field::Absent,
        rs1: Field::Absent,
        rs2: Field::Absent,
        imm: None,
        lost: 0,
        text: vec![],
        exp: None,
        illegal: head[0] == "illegal",
    };
    assert!(e.id != MISSING || e.illegal || head[1] == "Zifencei.FENCE_I", "spec: opcode {}", head[1]);
    for f in secs[1].split_whitespace() {
        let (r, v) = f.split_once('=').unwrap();
        if let Some(r) = r.strip_suffix('!') {
            let (h, l) = range(r);
            assert_eq!(num(v), 0);
            e.nonzero = field_mask(h, l);
        } else {
            let (h, l) = range(r);
            assert_eq!(e.mask & field_mask(h, l), 0, "spec: overlap in {line}");
            e.mask |= field_mask(h, l);
            e.value |= num(v) << l;
        }
    }
    for f in secs[2].split_whitespace() {
        let (n, v) = f.split_once('=').unwrap();
        if n == "imm" {
            let (sign, list) = v.split_once(':').unwrap();
            let mut runs: Vec<(u8, u8)> = vec![];
            let mut zeros = 0;
            for r in list.split(',') {
                if let Some(z) = r.strip_prefix('z') {
                    zeros = num(z) as u8;
                } else {
                    runs.push(range(r));
                }
            }
            let mut dst = zeros;
            let mut segs = vec![];
            for (h, l) in runs.into_iter().rev() {
                segs.push(Seg { src: l, width: h - l + 1, dst });
                dst += h - l + 1;
            }
            e.imm = Some((sign == "s", dst, segs));
            continue;
        }
        if n == "lost" {
            let (h, l) = range(v);
            e.lost = field_mask(h, l);
            continue;
        }
        let field = if let Some(c) = v.strip_prefix("const:") {
            Field::Const(num(c) as u8)
        } else {
            let (r, add) = v.strip_suffix('\'').map_or((v, 0), |r| (r, 8));
            let (h, l) = range(r);
            Field::Bits { lo: l, width: h - l + 1, add }
        };
        match n {
            "rd" => e.rd = field,
            "rs1" => e.rs1 = field,
            "rs2" => e.rs2 = field,
            _ => panic!("spec: operand {n}"),
        }
    }
    for t in secs.get(3).unwrap_or(&"").split_whitespace() {
        let (t, opt) = t.strip_suffix('?').map_or((t, false), |t| (t, true));
        let tok = match t {
            "rd" => Tok::Rd,
            "rs1" => Tok::Rs1,
            "rs2" => Tok::Rs2,
            "zero" => Tok::Reg(0),
            "ra" => Tok::Reg(1),
            "sp" => Tok::Reg(2),
            "#imm" => Tok::NumImm,
            "#rs2" => Tok::NumRs2,
            "#0" => Tok::Num(0),
            _ => panic!("spec: text token {t}"),
        };
        e.text.push((tok, opt));
    }
    if let Some(x) = secs.get(4) {
        let mut nonzero = None;
        let mut parts = x.split_whitespace().peekable();
        if let Some(r) = parts.peek().and_then(|p| p.strip_prefix('!')) {
            nonzero = Some(match r {
                "imm" => "imm",
                "rd" => "rd",
                "rs1" => "rs1",
                _ => panic!("spec: reserved {r}"),
            });
            parts.next();
        }
        let mut exp = Expansion { nonzero, name: parts.next().unwrap().into(), rd: None, rs1: None, rs2: None, imm: None };
        for p in parts {
            let (n, v) = p.split_once('=').unwrap();
            let src = if let Some(r) = v.strip_prefix('x') {
                Src::Reg(num(r) as u8)
            } else if v == "imm>>12" {
                Src::Shr12
            } else if v == n {
                Src::Same
            } else {
                Src::Const(num(v) as i32)
            };
            match n {
                "rd" => exp.rd = Some(src),
                "rs1" => exp.rs1 = Some(src),
                "rs2" => exp.rs2 = Some(src),
                "imm" => exp.imm = Some(src),
                _ => panic!("spec: expansion {n}"),
            }
        }
        e.exp = Some(exp);
    }
    e
}

pub struct Spec {
    pub w32: Vec<Entry>,
    pub w16: Vec<Entry>,
    index32: Vec<Vec<u16>>,
    index16: [Vec<Option<u16>>; 2],
    /// RV64-only instructions by word, as RV32 would see them (indices into w32 / w16).
    only32: Vec<Vec<u16>>,
    only16: Vec<bool>,
}

const TEXT: &str = include_str!("../spec/riscv.spec");

impl Spec {
    pub fn load() -> Spec {
        let (mut w32, mut w16) = (vec![], vec![]);
        for line in TEXT.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')) {
            let e = parse_entry(line);
            if e.value & 3 == 3 { w32.push(e) } else { w16.push(e) }
        }
        let key_matches = |e: &Entry, k: u32| {
            let w = (k & 0x7f) | ((k >> 7) << 12);
            (w ^ e.value) & e.mask & 0x707f == 0
        };
        let build = |f: &dyn Fn(&Entry) -> bool| {
            (0..1024u32)
                .map(|k| (0..w32.len() as u16).filter(|i| key_matches(&w32[*i as usize], k) && f(&w32[*i as usize])).collect())
                .collect::<Vec<Vec<u16>>>()
        };
        let index32 = build(&|_| true);
        let only32 = build(&|e| e.only64);
        let lookup16 = |isa: u8| {
            (0..=0xffffu32)
                .map(|h| {
                    w16.iter().position(|e: &Entry| e.isa & isa != 0 && e.matches(h)).filter(|i| !w16[*i].illegal).map(|i| i as u16)
                })
                .collect::<Vec<_>>()
        };
        let index16 = [lookup16(ISA32), lookup16(ISA64)];
        let only16 = (0..=0xffffu32).map(|h| index16[0][h as usize].is_none() && w16.iter().any(|e| e.only64 && e.matches(h))).collect();
        Spec { w32, w16, index32, index16, only32, only16 }
    }
    #[inline]
    fn key(w: u32) -> usize {
        ((w & 0x7f) | ((w >> 12) & 7) << 7) as usize
    }
    #[inline]
    pub fn find32(&self, w: u32, isa: usize) -> Option<&Entry> {
        let bit = 1u8 << isa;
        self.index32[Self::key(w)].iter().map(|i| &self.w32[*i as usize]).find(|e| e.isa & bit != 0 && e.matches(w))
    }
    #[inline]
    pub fn find16(&self, h: u16, isa: usize) -> Option<&Entry> {
        self.index16[isa][h as usize].map(|i| &self.w16[i as usize])
    }
    /// Is this word, on RV32, an instruction that only RV64 has?
    pub fn rv64_only32(&self, w: u32) -> bool {
        self.only32[Self::key(w)].iter().any(|i| self.w32[*i as usize].matches(w)) && self.find32(w, 0).is_none()
    }
    pub fn rv64_only16(&self, h: u16) -> bool {
        self.only16[h as usize]
    }
    pub fn by_name(&self, name: &str, isa: usize) -> Option<&Entry> {
        self.w32.iter().find(|e| e.name == name && e.isa & (1 << isa) != 0)
    }
    pub fn majors(&self) -> [bool; 128] {
        let mut m = [false; 128];
        for e in &self.w32 {
            m[(e.value & 0x7f) as usize] = true;
        }
        m
    }
}
