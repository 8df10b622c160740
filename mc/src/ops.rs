//! Observation of the real API: every opcode as a small id, every decode result as plain data.
use raki::{
    AOpcode, BaseIOpcode, COpcode, Decode, DecodingError, InstFormat, Instruction, Isa, MOpcode,
    OpcodeKind, PrivOpcode, ZicbozOpcode, ZicfissOpcode, ZicntrOpcode, ZicsrOpcode, ZifenceiOpcode,
};

pub const UNKNOWN: u16 = 0xfffe;
pub const NO_OPC: u16 = 0xffff;
pub const NONE: u32 = u32::MAX;

macro_rules! table {
    ($($kind:ident $enum:ident { $($var:ident)+ })+) => {
        /// Names of all opcodes, "Extension.VARIANT"; the index is the id.
        pub const NAMES: &[&str] = &[$($(concat!(stringify!($kind), ".", stringify!($var))),+),+];
        /// A fresh value of every opcode, in id order.
        pub fn all_opcodes() -> Vec<OpcodeKind> {
            vec![$($(OpcodeKind::$kind($enum::$var)),+),+]
        }
        mod base {
            #[allow(non_camel_case_types, dead_code)]
            #[derive(Clone, Copy)]
            pub enum Kind { $($kind),+ }
            const COUNTS: &[u16] = &[$(0 $(+ { let _ = stringify!($var); 1 })+),+];
            pub const OFFS: [u16; COUNTS.len()] = {
                let mut o = [0u16; COUNTS.len()];
                let mut i = 1;
                while i < COUNTS.len() { o[i] = o[i - 1] + COUNTS[i - 1]; i += 1; }
                o
            };
        }
        /// Id of an opcode by matching, independent of raki's PartialEq.
        #[allow(unreachable_patterns)]
        pub fn opc_id(o: &OpcodeKind) -> u16 {
            match o {
                $(OpcodeKind::$kind(x) => {
                    #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
                    #[repr(u16)]
                    enum L { $($var),+ }
                    let local = match x { $($enum::$var => L::$var as u16,)+ _ => return UNKNOWN };
                    base::OFFS[base::Kind::$kind as usize] + local
                })+
                _ => UNKNOWN,
            }
        }
    };
}
table! {
    BaseI BaseIOpcode { LUI AUIPC JAL JALR BEQ BNE BLT BGE BLTU BGEU LB LH LW LBU LHU SB SH SW ADDI SLTI
        SLTIU XORI ORI ANDI SLLI SRLI SRAI ADD SUB SLL SLT SLTU XOR SRL SRA OR AND ECALL EBREAK LWU LD SD
        ADDIW SLLIW SRLIW SRAIW ADDW SUBW SLLW SRLW SRAW }
    M MOpcode { MUL MULH MULHSU MULHU DIV DIVU REM REMU MULW DIVW DIVUW REMW REMUW }
    A AOpcode { LR_W SC_W AMOSWAP_W AMOADD_W AMOXOR_W AMOAND_W AMOOR_W AMOMIN_W AMOMAX_W AMOMINU_W
        AMOMAXU_W LR_D SC_D AMOSWAP_D AMOADD_D AMOXOR_D AMOAND_D AMOOR_D AMOMIN_D AMOMAX_D AMOMINU_D
        AMOMAXU_D }
    C COpcode { ADDI4SPN LW SW NOP ADDI JAL LI ADDI16SP LUI SRLI SRAI ANDI SUB XOR OR AND J BEQZ BNEZ SLLI
        LWSP JR MV EBREAK JALR ADD SWSP LD SD ADDIW SUBW ADDW LDSP SDSP }
    Zifencei ZifenceiOpcode { FENCE }
    Zicboz ZicbozOpcode { CBO_ZERO }
    Zicsr ZicsrOpcode { CSRRW CSRRS CSRRC CSRRWI CSRRSI CSRRCI }
    Zicfiss ZicfissOpcode { SSPUSH C_SSPUSH SSPOPCHK C_SSPOPCHK SSRDP SSAMOSWAP_W SSAMOSWAP_D }
    Zicntr ZicntrOpcode { RDCYCLE_H RDTIME_H RDINSTRET_H RDCYCLE RDTIME RDINSTRET }
    Priv PrivOpcode { MRET SRET WFI SFENCE_VMA }
}

macro_rules! simple_enum {
    ($fn:ident, $names:ident, $enum:ident { $($var:ident)+ }) => {
        pub const $names: &[&str] = &[$(stringify!($var)),+];
        #[allow(unreachable_patterns)]
        pub fn $fn(x: &$enum) -> u8 {
            #[allow(non_camel_case_types, dead_code)]
            enum L { $($var),+ }
            match x { $($enum::$var => L::$var as u8,)+ _ => 254 }
        }
    };
}
simple_enum!(fmt_id, FMT_NAMES, InstFormat { RFormat RShamtFormat IFormat SFormat BFormat UFormat JFormat
    CrFormat CiFormat CssFormat CiwFormat ClFormat CsFormat CaFormat CbFormat CjFormat CsrFormat CsrUiFormat
    MFormat AFormat ALrFormat NoOperand OnlyRd OnlyRs1 OnlyRs2 });
simple_enum!(err_id, ERR_NAMES, DecodingError { Not16BitInst Not32BitInst InvalidFunct3 InvalidFunct5
    InvalidFunct6 InvalidFunct7 InvalidOpcode UnknownExtension IllegalInstruction OnlyRv64Inst });
pub const OK: u8 = 0xff;

pub fn err_code(name: &str) -> u8 {
    ERR_NAMES.iter().position(|n| *n == name).expect("error name") as u8
}

/// Everything observable about one decode result.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Obs {
    pub err: u8,
    pub id: u16,
    pub rd: u32,
    pub rs1: u32,
    pub rs2: u32,
    pub has_imm: bool,
    pub imm: i32,
    pub fmt: u8,
    pub compressed: bool,
}

pub fn reg(r: Option<usize>) -> u32 {
    match r {
        None => NONE,
        Some(v) => v.min((NONE - 1) as usize) as u32,
    }
}

pub fn err_obs(e: &DecodingError) -> Obs {
    Obs { err: err_id(e), id: NO_OPC, rd: NONE, rs1: NONE, rs2: NONE, has_imm: false, imm: 0, fmt: 0, compressed: false }
}

pub fn inst_obs(i: &Instruction) -> Obs {
    Obs {
        err: OK,
        id: opc_id(&i.opc),
        rd: reg(i.rd),
        rs1: reg(i.rs1),
        rs2: reg(i.rs2),
        has_imm: i.imm.is_some(),
        imm: i.imm.unwrap_or(0),
        fmt: fmt_id(&i.inst_format),
        compressed: i.is_compressed,
    }
}

pub fn obs(r: &Result<Instruction, DecodingError>) -> Obs {
    match r {
        Ok(i) => inst_obs(i),
        Err(e) => err_obs(e),
    }
}

impl Obs {
    pub fn ok(&self) -> bool {
        self.err == OK
    }
    pub fn name(&self) -> &'static str {
        NAMES.get(self.id as usize).copied().unwrap_or("<unknown opcode>")
    }
    pub fn show(&self) -> String {
        if !self.ok() {
            return format!("Err({})", ERR_NAMES.get(self.err as usize).unwrap_or(&"<unknown error>"));
        }
        let r = |v: u32| if v == NONE { "-".to_string() } else { v.to_string() };
        format!(
            "{} rd={} rs1={} rs2={} imm={} fmt={} compressed={}",
            self.name(),
            r(self.rd),
            r(self.rs1),
            r(self.rs2),
            if self.has_imm { self.imm.to_string() } else { "-".into() },
            FMT_NAMES.get(self.fmt as usize).unwrap_or(&"?"),
            self.compressed
        )
    }
}

pub fn isa_of(i: usize) -> Isa {
    if i == 0 { Isa::Rv32 } else { Isa::Rv64 }
}
pub fn isa_name(i: usize) -> &'static str {
    if i == 0 { "Rv32" } else { "Rv64" }
}
pub fn d32(w: u32, isa: usize) -> Result<Instruction, DecodingError> {
    w.decode(isa_of(isa))
}
pub fn d16(w: u16, isa: usize) -> Result<Instruction, DecodingError> {
    w.decode(isa_of(isa))
}
