From b4f5d526063407f3622b3a4ef67b219d102629da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:10 +0000
Subject: [PATCH 01/16] fix: check funct7 of register and word shift
 instructions

SLL, SLT, SLTU, XOR, OR, AND, SLLW and SLLIW were accepted with any funct7.
Words of other extensions (for example andn, 0x40b57533) were decoded as
base instructions. They are now rejected with InvalidFunct7.
---
 src/decode/base_i.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 6be5892..25045a7 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -74,6 +74,9 @@ pub mod bit_32 {
                 _ => Err(DecodingError::InvalidFunct3),
             },
             0b011_0011 => match funct3 {
+                0b001..=0b100 | 0b110 | 0b111 if funct7 != 0b000_0000 => {
+                    Err(DecodingError::InvalidFunct7)
+                }
                 0b000 => match funct7 {
                     0b000_0000 => Ok(BaseIOpcode::ADD),
                     0b010_0000 => Ok(BaseIOpcode::SUB),
@@ -104,6 +107,7 @@ pub mod bit_32 {
                 _ => Err(DecodingError::InvalidFunct3),
             },
             0b001_1011 => match funct3 {
+                0b001 if funct7 != 0b000_0000 => Err(DecodingError::InvalidFunct7),
                 0b000 => only_rv64(BaseIOpcode::ADDIW, isa),
                 0b001 => only_rv64(BaseIOpcode::SLLIW, isa),
                 0b101 => match funct7 {
@@ -114,6 +118,7 @@ pub mod bit_32 {
                 _ => Err(DecodingError::InvalidFunct3),
             },
             0b011_1011 => match funct3 {
+                0b001 if funct7 != 0b000_0000 => Err(DecodingError::InvalidFunct7),
                 0b000 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::ADDW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SUBW, isa),
-- 
2.43.0


From 4555e24145a7e8f1d57af91fa5e532a6202e46dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:11 +0000
Subject: [PATCH 02/16] fix: reject JALR with a nonzero funct3

The JALR major opcode was decoded as JALR for every funct3. Only zero is
assigned, so the others now give InvalidFunct3.
---
 src/decode/base_i.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 25045a7..d49e34d 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -15,6 +15,7 @@ pub mod bit_32 {
             0b011_0111 => Ok(BaseIOpcode::LUI),
             0b001_0111 => Ok(BaseIOpcode::AUIPC),
             0b110_1111 => Ok(BaseIOpcode::JAL),
+            0b110_0111 if funct3 != 0b000 => Err(DecodingError::InvalidFunct3),
             0b110_0111 => Ok(BaseIOpcode::JALR),
             0b110_0011 => match funct3 {
                 0b000 => Ok(BaseIOpcode::BEQ),
-- 
2.43.0


From 97668e3f75855b40f70c5d0fc7a6642ed594e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:11 +0000
Subject: [PATCH 03/16] fix: reject nonzero values in fields that must be zero

ECALL and EBREAK were accepted with any rd and rs1, SFENCE.VMA with any rd
and LR.W/LR.D with any rs2. The encodings fix these fields to zero, and the
value was dropped. Such words now give InvalidOpcode.
---
 src/decode/a_extension.rs    | 4 ++++
 src/decode/base_i.rs         | 3 +++
 src/decode/priv_extension.rs | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/decode/a_extension.rs b/src/decode/a_extension.rs
index 63468f1..7252146 100644
--- a/src/decode/a_extension.rs
+++ b/src/decode/a_extension.rs
@@ -10,6 +10,10 @@ pub mod bit_32 {
 
         match opmap {
             0b010_1111 => match funct3 {
+                // lr.(w|d) has no rs2
+                0b010 | 0b011 if funct7 == 0b00010 && inst.slice(24, 20) != 0 => {
+                    Err(DecodingError::InvalidOpcode)
+                }
                 0b010 => match funct7 {
                     0b00010 => Ok(AOpcode::LR_W),
                     0b00011 => Ok(AOpcode::SC_W),
diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index d49e34d..db79caa 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -99,6 +99,9 @@ pub mod bit_32 {
             0b111_0011 => match funct3 {
                 0b000 => match funct7 {
                     0b000_0000 => match funct5 {
+                        0b00000 | 0b00001 if inst.slice(19, 7) != 0 => {
+                            Err(DecodingError::InvalidOpcode)
+                        }
                         0b00000 => Ok(BaseIOpcode::ECALL),
                         0b00001 => Ok(BaseIOpcode::EBREAK),
                         _ => Err(DecodingError::InvalidFunct5),
diff --git a/src/decode/priv_extension.rs b/src/decode/priv_extension.rs
index 5d18af3..87cb740 100644
--- a/src/decode/priv_extension.rs
+++ b/src/decode/priv_extension.rs
@@ -12,6 +12,7 @@ pub mod bit_32 {
             0b0011_0000_0010_0000_0000_0000_0111_0011 => Ok(PrivOpcode::MRET),
             0b0001_0000_0101_0000_0000_0000_0111_0011 => Ok(PrivOpcode::WFI),
             _ => match funct7 {
+                0b000_1001 if inst.slice(11, 7) != 0 => Err(DecodingError::InvalidOpcode),
                 0b000_1001 => Ok(PrivOpcode::SFENCE_VMA),
                 _ => Err(DecodingError::InvalidFunct7),
             },
-- 
2.43.0


From ae26d471a5987366782a7832712f90453a9df27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:12 +0000
Subject: [PATCH 04/16] fix: report counter reads only for their own encodings

A csrrs of a counter CSR was reported as rdcycle, rdtime or rdinstret even
with rs1 other than zero, which lost rs1. The pseudo-instructions require
rs1 = zero, all others are CSRRS. The upper-half reads (rdcycleh, rdtimeh,
rdinstreth) exist only on RV32, so RV64 now reports CSRRS for them.
---
 src/decode/inst_32.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index c176267..51e8eff 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -45,6 +45,10 @@ impl Decode for u32 {
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
                 zicfiss_extension::bit_32::parse_opcode(self)?,
             )),
+            // the upper halves of the counters exist only on Rv32
+            Ok(Extensions::Zicntr) if matches!(isa, Isa::Rv64) && self.slice(27, 27) == 1 => Ok(
+                OpcodeKind::Zicsr(zicsr_extension::bit_32::parse_opcode(self)?),
+            ),
             Ok(Extensions::Zicntr) => Ok(OpcodeKind::Zicntr(
                 zicntr_extension::bit_32::parse_opcode(self)?,
             )),
@@ -161,7 +165,9 @@ impl DecodeUtil for u32 {
                 },
                 0b010 => match csr {
                     // csrrs rd, (cycle|time|instret), zero
-                    0xc00..=0xc02 | 0xc80..=0xc82 => Ok(Extensions::Zicntr),
+                    0xc00..=0xc02 | 0xc80..=0xc82 if self.slice(19, 15) == 0 => {
+                        Ok(Extensions::Zicntr)
+                    }
                     _ => Ok(Extensions::Zicsr),
                 },
                 0b100 => Ok(Extensions::Zicfiss),
-- 
2.43.0


From ae370bb3729f970ebcb9f1111f5435ab418b1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:13 +0000
Subject: [PATCH 05/16] fix: check all fixed fields of shadow-stack
 instructions

SSPUSH ignored rd and rs1, SSPOPCHK accepted any rs1 other than zero and any
rd, and SSRDP accepted rd = zero. The remaining words belong to other
may-be-operations and now give InvalidOpcode. SSAMOSWAP.D is a 64-bit
instruction and is now rejected on RV32 with OnlyRv64Inst.
---
 src/decode/inst_32.rs           |  2 +-
 src/decode/zicfiss_extension.rs | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 51e8eff..f3a93fe 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -43,7 +43,7 @@ impl Decode for u32 {
                 self,
             )?)),
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
-                zicfiss_extension::bit_32::parse_opcode(self)?,
+                zicfiss_extension::bit_32::parse_opcode(self, isa)?,
             )),
             // the upper halves of the counters exist only on Rv32
             Ok(Extensions::Zicntr) if matches!(isa, Isa::Rv64) && self.slice(27, 27) == 1 => Ok(
diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index fab2de4..d177b35 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -1,20 +1,26 @@
 pub mod bit_32 {
-    use super::super::{DecodeUtil, DecodingError};
+    use super::super::{only_rv64, DecodeUtil, DecodingError};
     use crate::instruction::zicfiss_extension::ZicfissOpcode;
+    use crate::Isa;
 
-    pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
+    pub fn parse_opcode(inst: u32, isa: Isa) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
         let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
         let funct7_rs2: u16 = u16::try_from(inst.slice(31, 20)).unwrap();
 
         match opmap {
             0b111_0011 => match funct3 {
                 0b100 => match funct7_rs2 {
+                    0b1100_1110_0001 | 0b1100_1110_0101 if rd != 0 || rs1 != 0 => {
+                        Err(DecodingError::InvalidOpcode)
+                    }
                     0b1100_1110_0001 | 0b1100_1110_0101 => Ok(ZicfissOpcode::SSPUSH),
                     0b1100_1101_1100 => match rs1 {
-                        0b0_0000 => Ok(ZicfissOpcode::SSRDP),
-                        _ => Ok(ZicfissOpcode::SSPOPCHK),
+                        0b0_0000 if rd != 0 => Ok(ZicfissOpcode::SSRDP),
+                        0b0_0001 | 0b0_0101 if rd == 0 => Ok(ZicfissOpcode::SSPOPCHK),
+                        _ => Err(DecodingError::InvalidOpcode),
                     },
                     _ => Err(DecodingError::InvalidOpcode),
                 },
@@ -22,7 +28,7 @@ pub mod bit_32 {
             },
             0b010_1111 => match funct3 {
                 0b010 => Ok(ZicfissOpcode::SSAMOSWAP_W),
-                0b011 => Ok(ZicfissOpcode::SSAMOSWAP_D),
+                0b011 => only_rv64(ZicfissOpcode::SSAMOSWAP_D, isa),
                 _ => Err(DecodingError::InvalidFunct3),
             },
             _ => Err(DecodingError::InvalidOpcode),
-- 
2.43.0


From bf7a07b8781dcdd1c37e006a9ac528f28475657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:13 +0000
Subject: [PATCH 06/16] fix: reject compressed shifts by 32 or more on RV32

C.SLLI, C.SRLI and C.SRAI with bit 5 of the shift amount set are not RV32
instructions. They now give InvalidOpcode there.
---
 src/decode/c_extension.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 5b59a6b..9b382ea 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -35,6 +35,9 @@ pub mod bit_16 {
                 _ => Ok(COpcode::LUI),
             },
             0b100 => match sr_flag {
+                0b00 | 0b01 if bit_12 == 1 && matches!(isa, Isa::Rv32) => {
+                    Err(DecodingError::InvalidOpcode)
+                }
                 0b00 => Ok(COpcode::SRLI),
                 0b01 => Ok(COpcode::SRAI),
                 0b10 => Ok(COpcode::ANDI),
@@ -68,6 +71,7 @@ pub mod bit_16 {
         let hi_flag: u8 = u8::try_from(inst.slice(12, 12)).unwrap();
 
         match opmap {
+            0b000 if hi_flag == 1 && matches!(isa, Isa::Rv32) => Err(DecodingError::InvalidOpcode),
             0b000 => Ok(COpcode::SLLI),
             0b010 => Ok(COpcode::LWSP),
             0b011 => only_rv64(COpcode::LDSP, isa),
-- 
2.43.0


From b5524c3e8960cbcce888ca90acdbfd698c93a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:14 +0000
Subject: [PATCH 07/16] fix: decode C.ADD hints as C.ADD

C.ADD with rd = zero (for example the c.ntl hints, 0x900a) was decoded as
C.EBREAK. Only 0x9002 is C.EBREAK.
---
 src/decode/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 9b382ea..25d2d04 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -81,7 +81,7 @@ pub mod bit_16 {
                     _ => Ok(COpcode::MV),
                 },
                 0b1 => match mi_flag {
-                    0b0 => Ok(COpcode::EBREAK),
+                    0b0 if lo_flag == 0 => Ok(COpcode::EBREAK),
                     _ => match lo_flag {
                         0b0 => Ok(COpcode::JALR),
                         _ => Ok(COpcode::ADD),
-- 
2.43.0


From da969b0ec84ca7440c7806039bd4218d96eb132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:15 +0000
Subject: [PATCH 08/16] fix: return an error for shadow-stack opcodes of the
 other width

Asking a 32-bit word for the operands of C_SSPUSH or C_SSPOPCHK panicked, and
so did asking a halfword for rd of a 32-bit shadow-stack opcode. Both now
return Not32BitInst or Not16BitInst like the opcodes of other extensions.
---
 src/decode/inst_16.rs | 18 +++++++++++++-----
 src/decode/inst_32.rs | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/decode/inst_16.rs b/src/decode/inst_16.rs
index e49bc0e..5efc7fd 100644
--- a/src/decode/inst_16.rs
+++ b/src/decode/inst_16.rs
@@ -1,7 +1,7 @@
 use super::{c_extension, zicfiss_extension};
 use super::{Decode, DecodeUtil, DecodingError};
 
-use crate::instruction::{InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
 impl Decode for u16 {
@@ -43,7 +43,9 @@ impl Decode for u16 {
     fn parse_rd(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rd(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rd(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -51,7 +53,9 @@ impl Decode for u16 {
     fn parse_rs1(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs1(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs1(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -59,7 +63,9 @@ impl Decode for u16 {
     fn parse_rs2(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs2(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs2(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -67,7 +73,9 @@ impl Decode for u16 {
     fn parse_imm(self, opkind: &OpcodeKind, _isa: Isa) -> Result<Option<i32>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_imm(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_imm(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index f3a93fe..175ae86 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -3,7 +3,7 @@ use super::{
     zicntr_extension, zicsr_extension, zifencei_extension,
 };
 use super::{Decode, DecodeUtil, DecodingError};
-use crate::instruction::{InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
 #[allow(non_snake_case)]
@@ -65,6 +65,9 @@ impl Decode for u32 {
 
     fn parse_rd(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::BaseI(opc) => Ok(base_i::bit_32::parse_rd(self, opc)),
             OpcodeKind::M(opc) => Ok(m_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rd(self, opc)),
@@ -80,6 +83,9 @@ impl Decode for u32 {
 
     fn parse_rs1(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::BaseI(opc) => Ok(base_i::bit_32::parse_rs1(self, opc)),
             OpcodeKind::M(opc) => Ok(m_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs1(self, opc)),
@@ -95,6 +101,9 @@ impl Decode for u32 {
 
     fn parse_rs2(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::BaseI(opc) => Ok(base_i::bit_32::parse_rs2(self, opc)),
             OpcodeKind::M(opc) => Ok(m_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs2(self, opc)),
@@ -110,6 +119,9 @@ impl Decode for u32 {
 
     fn parse_imm(self, opkind: &OpcodeKind, isa: Isa) -> Result<Option<i32>, DecodingError> {
         match opkind {
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::BaseI(opc) => Ok(base_i::bit_32::parse_imm(self, opc, isa)),
             OpcodeKind::M(opc) => Ok(m_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_imm(self, opc)),
-- 
2.43.0


From 0b0cf5b815be5a9d41022b3e2b6ffa93372c90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:15 +0000
Subject: [PATCH 09/16] fix: return an error when a usize is too large for an
 instruction

Instruction::try_from panicked on values that do not fit the instruction
width given by the low two bits. It now returns Not32BitInst or
Not16BitInst.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 931c6c4..72beafd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,11 +77,11 @@ impl TryFrom<usize> for Instruction {
     fn try_from(inst: usize) -> Result<Self, Self::Error> {
         if inst & 0b11 == 0b11 {
             u32::try_from(inst)
-                .expect("Truncation of usize to u32 failed.")
+                .map_err(|_| DecodingError::Not32BitInst)?
                 .decode(Isa::Rv64)
         } else {
             u16::try_from(inst)
-                .expect("Truncation of usize to u16 failed.")
+                .map_err(|_| DecodingError::Not16BitInst)?
                 .decode(Isa::Rv64)
         }
     }
-- 
2.43.0


From cf62b2d4731e0515411f6d459afb7b590f19160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:59 +0000
Subject: [PATCH 10/16] fix: format shadow-stack push and pop-check

Formatting sspopchk, c.sspush or c.sspopchk panicked, and sspush always
showed register zero. sspush carries its register in rs2 and sspopchk in
rs1, but their formats were the other way round. The compressed forms were
missing from the instructions without operands.
---
 src/instruction.rs                   | 5 +++--
 src/instruction/zicfiss_extension.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index e96591b..71bf679 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -215,6 +215,7 @@ impl Display for Instruction {
                 OpcodeKind::BaseI(BaseIOpcode::ECALL | BaseIOpcode::EBREAK)
                 | OpcodeKind::Zifencei(ZifenceiOpcode::FENCE)
                 | OpcodeKind::C(COpcode::NOP | COpcode::EBREAK)
+                | OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)
                 | OpcodeKind::Priv(
                     PrivOpcode::MRET | PrivOpcode::SRET | PrivOpcode::WFI | PrivOpcode::SFENCE_VMA,
                 ) => write!(f, "{}", self.opc),
@@ -417,13 +418,13 @@ pub enum InstFormat {
 
     /// Only rs1 name
     /// ```ignore
-    /// sspush ra
+    /// sspopchk t0
     /// ```
     OnlyRs1,
 
     /// Only rs2 name
     /// ```ignore
-    /// sspopchk t0
+    /// sspush ra
     /// ```
     OnlyRs2,
 }
diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index b3ccb51..c3ce341 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -40,8 +40,8 @@ impl Display for ZicfissOpcode {
 impl Opcode for ZicfissOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
             ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
             ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
-- 
2.43.0


From c68e218e7d62a8674ef3f000385d65e00576c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:59 +0000
Subject: [PATCH 11/16] fix: format sfence.vma

Formatting sfence.vma panicked because it has no rd. It is now shown as
"sfence.vma rs1, rs2".
---
 src/instruction.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/instruction.rs b/src/instruction.rs
index 71bf679..5793a42 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -47,6 +47,13 @@ impl Display for Instruction {
     #[allow(clippy::too_many_lines)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self.inst_format {
+            InstFormat::RFormat if self.opc == OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => write!(
+                f,
+                "{} {}, {}",
+                self.opc,
+                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap())
+            ),
             InstFormat::RFormat | InstFormat::MFormat => {
                 write!(
                     f,
-- 
2.43.0


From 059df6f98aee31b678089c690f10249d7a424085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:00 +0000
Subject: [PATCH 12/16] fix: show store and branch operands in documented order

Stores were shown as "sw rs1, imm(rs2)", which names the base register as the
stored value and the other way round. Branches were shown like stores. Both
now follow the form documented for their format: "sw rs2, imm(rs1)" and
"beq rs1, rs2, imm".
---
 src/instruction.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 5793a42..2232f2c 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -98,13 +98,21 @@ impl Display for Instruction {
                 reg2str(self.rs1.unwrap()),
                 self.imm.unwrap()
             ),
-            InstFormat::CsFormat | InstFormat::SFormat | InstFormat::BFormat => write!(
+            InstFormat::CsFormat | InstFormat::SFormat => write!(
                 f,
                 "{} {}, {}({})",
                 self.opc,
-                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap()),
                 self.imm.unwrap(),
+                reg2str(self.rs1.unwrap()),
+            ),
+            InstFormat::BFormat => write!(
+                f,
+                "{} {}, {}, {}",
+                self.opc,
+                reg2str(self.rs1.unwrap()),
                 reg2str(self.rs2.unwrap()),
+                self.imm.unwrap(),
             ),
             InstFormat::CiwFormat => {
                 write!(
-- 
2.43.0


From 1e4c036194476a50813739b5126be9635167bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:01 +0000
Subject: [PATCH 13/16] fix: format atomics as documented

Atomic operations were shown as "rd, rs1, rs2", with the address before the
value. lr.w showed its acquire/release bits as if they were an offset, and
lr.d did not have the load-reserved format. They are now shown as
"sc.w rd, rs2, (rs1)" and "lr.w rd, (rs1)".
---
 src/instruction.rs             | 34 ++++++++++++++++------------------
 src/instruction/a_extension.rs |  3 +--
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 2232f2c..1afb371 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -64,23 +64,21 @@ impl Display for Instruction {
                     reg2str(self.rs2.unwrap())
                 )
             }
-            InstFormat::AFormat => match self.opc {
-                OpcodeKind::A(AOpcode::LR_W | AOpcode::LR_D) => write!(
-                    f,
-                    "{} {}, {}",
-                    self.opc,
-                    reg2str(self.rd.unwrap()),
-                    reg2str(self.rs1.unwrap()),
-                ),
-                _ => write!(
-                    f,
-                    "{} {}, {}, {}",
-                    self.opc,
-                    reg2str(self.rd.unwrap()),
-                    reg2str(self.rs1.unwrap()),
-                    reg2str(self.rs2.unwrap())
-                ),
-            },
+            InstFormat::AFormat => write!(
+                f,
+                "{} {}, {}, ({})",
+                self.opc,
+                reg2str(self.rd.unwrap()),
+                reg2str(self.rs2.unwrap()),
+                reg2str(self.rs1.unwrap())
+            ),
+            InstFormat::ALrFormat => write!(
+                f,
+                "{} {}, ({})",
+                self.opc,
+                reg2str(self.rd.unwrap()),
+                reg2str(self.rs1.unwrap()),
+            ),
             InstFormat::RShamtFormat => {
                 write!(
                     f,
@@ -90,7 +88,7 @@ impl Display for Instruction {
                     reg2str(self.rs1.unwrap()),
                 )
             }
-            InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
+            InstFormat::ClFormat | InstFormat::IFormat => write!(
                 f,
                 "{} {}, {}, {}",
                 self.opc,
diff --git a/src/instruction/a_extension.rs b/src/instruction/a_extension.rs
index 0cb6e43..0ef3402 100644
--- a/src/instruction/a_extension.rs
+++ b/src/instruction/a_extension.rs
@@ -65,7 +65,7 @@ impl Display for AOpcode {
 impl Opcode for AOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            AOpcode::LR_W => InstFormat::ALrFormat,
+            AOpcode::LR_W | AOpcode::LR_D => InstFormat::ALrFormat,
             AOpcode::SC_W
             | AOpcode::AMOSWAP_W
             | AOpcode::AMOADD_W
@@ -76,7 +76,6 @@ impl Opcode for AOpcode {
             | AOpcode::AMOMAX_W
             | AOpcode::AMOMINU_W
             | AOpcode::AMOMAXU_W
-            | AOpcode::LR_D
             | AOpcode::SC_D
             | AOpcode::AMOSWAP_D
             | AOpcode::AMOADD_D
-- 
2.43.0


From 63cb2c031fa2eba09188237c510e342c8449003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:01 +0000
Subject: [PATCH 14/16] fix: show the shift amount of immediate shifts

slli, srli, srai and their word forms were shown without the amount to shift
by.
---
 src/instruction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 1afb371..cca855d 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -82,10 +82,11 @@ impl Display for Instruction {
             InstFormat::RShamtFormat => {
                 write!(
                     f,
-                    "{} {}, {}",
+                    "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
+                    self.imm.unwrap(),
                 )
             }
             InstFormat::ClFormat | InstFormat::IFormat => write!(
@@ -289,7 +290,7 @@ pub enum InstFormat {
 
     /// Regular format with shamt
     /// ```ignore
-    /// srai rd, rs1
+    /// srai rd, rs1, shamt
     /// ```
     RShamtFormat,
 
-- 
2.43.0


From 4c493623fae1cb1794c9e866f88a372e76e4cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:02 +0000
Subject: [PATCH 15/16] fix: show operands of compressed instructions correctly

Compressed branches, shifts and andi showed their register as a bare number.
c.li, c.lui, c.lwsp and c.ldsp showed rd a second time as if it were a source.
c.addi4spn showed its immediate in hexadecimal without a prefix.
---
 src/instruction.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index cca855d..8185368 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -116,7 +116,7 @@ impl Display for Instruction {
             InstFormat::CiwFormat => {
                 write!(
                     f,
-                    "{} {}, sp, {:x}",
+                    "{} {}, sp, {:#x}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
@@ -143,16 +143,30 @@ impl Display for Instruction {
             InstFormat::CjFormat => {
                 write!(f, "{} {}", self.opc, self.imm.unwrap())
             }
-            InstFormat::CiFormat => {
-                write!(
+            InstFormat::CiFormat => match self.opc {
+                OpcodeKind::C(COpcode::LI | COpcode::LUI) => write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap()
+                ),
+                OpcodeKind::C(COpcode::LWSP | COpcode::LDSP) => write!(
+                    f,
+                    "{} {}, {}(sp)",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap()
+                ),
+                _ => write!(
                     f,
                     "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
-                )
-            }
+                ),
+            },
             InstFormat::CrFormat => match self.opc {
                 OpcodeKind::C(COpcode::JR) => {
                     write!(f, "{} zero, 0({})", self.opc, reg2str(self.rs1.unwrap()),)
@@ -192,7 +206,7 @@ impl Display for Instruction {
                     f,
                     "{} {}, {}",
                     self.opc,
-                    self.rs1.unwrap(),
+                    reg2str(self.rs1.unwrap()),
                     self.imm.unwrap(),
                 )
             }
-- 
2.43.0


From eefa706b271e6b9f6923a60666b319cdca1406b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:03 +0000
Subject: [PATCH 16/16] fix: correct the mnemonics of mulhsu and fence

mulhsu was shown with a stray comma. The FENCE opcode, which is decoded for
fence and not for fence.i, was shown as "fence.i".
---
 src/instruction/m_extension.rs        | 2 +-
 src/instruction/zifencei_extension.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instruction/m_extension.rs b/src/instruction/m_extension.rs
index 97d6eb3..8589422 100644
--- a/src/instruction/m_extension.rs
+++ b/src/instruction/m_extension.rs
@@ -29,7 +29,7 @@ impl Display for MOpcode {
         match self {
             MOpcode::MUL => write!(f, "mul"),
             MOpcode::MULH => write!(f, "mulh"),
-            MOpcode::MULHSU => write!(f, "mulhsu,"),
+            MOpcode::MULHSU => write!(f, "mulhsu"),
             MOpcode::MULHU => write!(f, "mulhu"),
             MOpcode::DIV => write!(f, "div"),
             MOpcode::DIVU => write!(f, "divu"),
diff --git a/src/instruction/zifencei_extension.rs b/src/instruction/zifencei_extension.rs
index cba0e63..47f2e60 100644
--- a/src/instruction/zifencei_extension.rs
+++ b/src/instruction/zifencei_extension.rs
@@ -13,7 +13,7 @@ pub enum ZifenceiOpcode {
 impl Display for ZifenceiOpcode {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            ZifenceiOpcode::FENCE => write!(f, "fence.i"),
+            ZifenceiOpcode::FENCE => write!(f, "fence"),
         }
     }
 }
-- 
2.43.0

