//! One call of the public API as plain data, for the explorers of histories (C16) and schedules (C17).
use crate::ops::*;
use crate::spec::Spec;
use crate::text;
use raki::{Decode, DecodingError, Instruction, OpcodeKind};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Kind {
    Decode32,
    Decode16,
    Convert,
    Opcode32,
    Opcode16,
    /// query 0..4 (rd, rs1, rs2, imm) with opcode `opc`
    Query32(u8),
    Query16(u8),
    Text32,
    Text16,
    OpcodeText,
    /// formatting into an output that fails after so many bytes
    Cut32(u8),
    Cut16(u8),
}
use Kind::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Op {
    pub kind: Kind,
    pub isa: u8,
    pub opc: u16,
    pub v: u64,
}
impl Op {
    pub fn new(kind: Kind, isa: usize, v: u64) -> Op {
        Op { kind, isa: isa as u8, opc: 0, v }
    }
    pub fn show(&self) -> String {
        let i = isa_name(self.isa as usize);
        let q = |n: u8| ["rd", "rs1", "rs2", "imm"][n as usize];
        let name = NAMES[self.opc as usize];
        match self.kind {
            Decode32 => format!("{:#010x}_u32.decode({i})", self.v),
            Decode16 => format!("{:#06x}_u16.decode({i})", self.v),
            Convert => format!("Instruction::try_from({:#x}_usize)", self.v),
            Opcode32 => format!("{:#010x}_u32.parse_opcode({i})", self.v),
            Opcode16 => format!("{:#06x}_u16.parse_opcode({i})", self.v),
            Query32(n) => format!("{:#010x}_u32.parse_{}({name}, {i})", self.v, q(n)),
            Query16(n) => format!("{:#06x}_u16.parse_{}({name}, {i})", self.v, q(n)),
            Text32 => format!("format({:#010x}_u32.decode({i}))", self.v),
            Text16 => format!("format({:#06x}_u16.decode({i}))", self.v),
            OpcodeText => format!("format({name})"),
            Cut32(n) => format!("format({:#010x}_u32.decode({i})) into an output with room for {n} bytes", self.v),
            Cut16(n) => format!("format({:#06x}_u16.decode({i})) into an output with room for {n} bytes", self.v),
        }
    }
}

/// What a call returned: the decoded fields and a digest of the text, if any.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Res {
    pub obs: Obs,
    pub text: u64,
}
impl Res {
    pub fn show(&self) -> String {
        let t = if self.text == 0 { String::new() } else { format!(" (text digest {:016x})", self.text) };
        match self.obs.err {
            QUERY_OK => match (self.obs.rd, self.obs.has_imm) {
                (_, true) => format!("Some({})", self.obs.imm),
                (NONE, _) => "None".into(),
                (v, _) => format!("Some({v})"),
            },
            OPC_OK => self.obs.name().to_string(),
            _ => format!("{}{t}", self.obs.show()),
        }
    }
}
const QUERY_OK: u8 = 0xfc;
const OPC_OK: u8 = 0xfb;
const BLANK: Obs = Obs { err: QUERY_OK, id: NO_OPC, rd: NONE, rs1: NONE, rs2: NONE, has_imm: false, imm: 0, fmt: 0, compressed: false };

fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x0100_0000_01b3);
    }
    h | 1
}
fn opcode(r: Result<OpcodeKind, DecodingError>) -> Obs {
    match r {
        Ok(k) => Obs { err: OPC_OK, id: opc_id(&k), ..BLANK },
        Err(e) => err_obs(&e),
    }
}
fn register(r: Result<Option<usize>, DecodingError>) -> Obs {
    match r {
        Ok(v) => Obs { rd: reg(v), ..BLANK },
        Err(e) => err_obs(&e),
    }
}
fn immediate(r: Result<Option<i32>, DecodingError>) -> Obs {
    match r {
        Ok(v) => Obs { has_imm: v.is_some(), imm: v.unwrap_or(0), ..BLANK },
        Err(e) => err_obs(&e),
    }
}
fn formatted(r: Result<Instruction, DecodingError>) -> Res {
    match r {
        Ok(i) => {
            let mut b = text::Buf::new();
            b.put(&i);
            Res { obs: inst_obs(&i), text: digest(b.bytes()) }
        }
        Err(e) => Res { obs: err_obs(&e), text: 0 },
    }
}

fn cut_short(r: Result<Instruction, DecodingError>, room: u8) -> Res {
    match r {
        Ok(i) => {
            let mut b = text::Faulty::new(room.into(), usize::MAX);
            let good = b.put(&i);
            Res { obs: inst_obs(&i), text: digest(b.bytes()) << 1 | u64::from(good) }
        }
        Err(e) => Res { obs: err_obs(&e), text: 0 },
    }
}

/// Make the call. Touches no memory but its arguments, the stack and whatever raki itself touches.
#[inline(never)]
pub fn exec(opcodes: &[OpcodeKind], op: &Op) -> Res {
    let isa = isa_of(op.isa as usize);
    let (w, h) = (op.v as u32, op.v as u16);
    let k = &opcodes[op.opc as usize];
    let obs = match op.kind {
        Decode32 => obs(&w.decode(isa)),
        Decode16 => obs(&h.decode(isa)),
        Convert => obs(&Instruction::try_from(op.v as usize)),
        Opcode32 => opcode(w.parse_opcode(isa)),
        Opcode16 => opcode(h.parse_opcode(isa)),
        Query32(0) => register(w.parse_rd(k)),
        Query32(1) => register(w.parse_rs1(k)),
        Query32(2) => register(w.parse_rs2(k)),
        Query32(_) => immediate(w.parse_imm(k, isa)),
        Query16(0) => register(h.parse_rd(k)),
        Query16(1) => register(h.parse_rs1(k)),
        Query16(2) => register(h.parse_rs2(k)),
        Query16(_) => immediate(h.parse_imm(k, isa)),
        Text32 => return formatted(w.decode(isa)),
        Text16 => return formatted(h.decode(isa)),
        Cut32(n) => return cut_short(w.decode(isa), n),
        Cut16(n) => return cut_short(h.decode(isa), n),
        OpcodeText => {
            let mut b = text::Buf::new();
            b.put(k);
            return Res { obs: BLANK, text: digest(b.bytes()) };
        }
    };
    Res { obs, text: 0 }
}

/// All calls one can make about one word, on both ISAs; the queries use opcode `opc`.
pub fn about(v: u32, wide: bool, opc: u16, out: &mut Vec<Op>) {
    let v = u64::from(v);
    for isa in 0..2 {
        if wide {
            out.push(Op::new(Decode32, isa, v));
            out.push(Op::new(Text32, isa, v));
            out.push(Op::new(Opcode32, isa, v));
        } else {
            out.push(Op::new(Decode16, isa, v));
            out.push(Op::new(Text16, isa, v));
            out.push(Op::new(Opcode16, isa, v));
        }
        for q in 0..4 {
            // only the immediate depends on the ISA
            if q == 3 || isa == 0 {
                out.push(Op { kind: if wide { Query32(q) } else { Query16(q) }, isa: isa as u8, opc, v });
            }
        }
    }
    out.push(Op::new(Convert, 0, v));
    // the output fails within the mnemonic, or within the operands
    for room in [1, 9] {
        out.push(Op::new(if wide { Cut32(room) } else { Cut16(room) }, 1, v));
    }
}

/// A word of every instruction with mixed operand bits, its width and its opcode.
pub fn bases(s: &Spec) -> Vec<(u32, bool, u16)> {
    let mut out: Vec<(u32, bool, u16)> = vec![];
    for (wide, e) in s.w32.iter().map(|e| (true, e)).chain(s.w16.iter().map(|e| (false, e))) {
        let opc = if (e.id as usize) < NAMES.len() { e.id } else { 0 };
        let full = if wide { u32::MAX } else { 0xffff };
        for fill in [0x5a96_a5a5u32, 0xa569_5a5a] {
            let w = e.value | (fill & !e.mask & full);
            if !out.iter().any(|o| o.0 == w && o.1 == wide) {
                out.push((w, wide, opc));
            }
        }
    }
    out
}
