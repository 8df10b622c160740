# Reference model of the instructions raki supports: one line per encoding,
#   name  opcode  isa  format ; fixed bits ; operand fields ; operands in the text form [; expansion]
# isa: both, 32 (RV32 only), 64 (RV64 only: RV32 reports it as such), 64s (RV64 shape of an encoding that
#      RV32 also has in another shape).
# fixed bits:  hi-lo=value, hi-lo!=value.
# operands:    rd/rs1/rs2=hi-lo (a trailing ' adds 8), =const:n; imm=s:.. / imm=u:.. lists the source
#      bits of the immediate from most to least significant (zN: N zero bits), s sign-extends;
#      lost=hi-lo: bits that are decoded into nothing.
# text: registers and #numbers in assembly order; '?' marks implied ones that may be left out.
# The file lists overlapping encodings most specific first; the first match wins.

# ---- RV32I / RV64I, unprivileged ISA manual, chapter 'RV32/64G Instruction Set Listings'
lui          BaseI.LUI              both  UFormat       ; 6-0=0x37 ; rd=11-7 imm=u:31-12 ; rd #imm
auipc        BaseI.AUIPC            both  UFormat       ; 6-0=0x17 ; rd=11-7 imm=u:31-12 ; rd #imm
jal          BaseI.JAL              both  JFormat       ; 6-0=0x6f ; rd=11-7 imm=s:31,19-12,20,30-21,z1 ; rd #imm
jalr         BaseI.JALR             both  IFormat       ; 14-12=0 6-0=0x67 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
beq          BaseI.BEQ              both  BFormat       ; 14-12=0 6-0=0x63 ; rs1=19-15 rs2=24-20 imm=s:31,7,30-25,11-8,z1 ; rs1 rs2 #imm
bne          BaseI.BNE              both  BFormat       ; 14-12=1 6-0=0x63 ; rs1=19-15 rs2=24-20 imm=s:31,7,30-25,11-8,z1 ; rs1 rs2 #imm
blt          BaseI.BLT              both  BFormat       ; 14-12=4 6-0=0x63 ; rs1=19-15 rs2=24-20 imm=s:31,7,30-25,11-8,z1 ; rs1 rs2 #imm
bge          BaseI.BGE              both  BFormat       ; 14-12=5 6-0=0x63 ; rs1=19-15 rs2=24-20 imm=s:31,7,30-25,11-8,z1 ; rs1 rs2 #imm
bltu         BaseI.BLTU             both  BFormat       ; 14-12=6 6-0=0x63 ; rs1=19-15 rs2=24-20 imm=s:31,7,30-25,11-8,z1 ; rs1 rs2 #imm
bgeu         BaseI.BGEU             both  BFormat       ; 14-12=7 6-0=0x63 ; rs1=19-15 rs2=24-20 imm=s:31,7,30-25,11-8,z1 ; rs1 rs2 #imm
lb           BaseI.LB               both  IFormat       ; 14-12=0 6-0=0x03 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
lh           BaseI.LH               both  IFormat       ; 14-12=1 6-0=0x03 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
lw           BaseI.LW               both  IFormat       ; 14-12=2 6-0=0x03 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
ld           BaseI.LD               64    IFormat       ; 14-12=3 6-0=0x03 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
lbu          BaseI.LBU              both  IFormat       ; 14-12=4 6-0=0x03 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
lhu          BaseI.LHU              both  IFormat       ; 14-12=5 6-0=0x03 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
lwu          BaseI.LWU              64    IFormat       ; 14-12=6 6-0=0x03 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
sb           BaseI.SB               both  SFormat       ; 14-12=0 6-0=0x23 ; rs1=19-15 rs2=24-20 imm=s:31-25,11-7 ; rs2 rs1 #imm
sh           BaseI.SH               both  SFormat       ; 14-12=1 6-0=0x23 ; rs1=19-15 rs2=24-20 imm=s:31-25,11-7 ; rs2 rs1 #imm
sw           BaseI.SW               both  SFormat       ; 14-12=2 6-0=0x23 ; rs1=19-15 rs2=24-20 imm=s:31-25,11-7 ; rs2 rs1 #imm
sd           BaseI.SD               64    SFormat       ; 14-12=3 6-0=0x23 ; rs1=19-15 rs2=24-20 imm=s:31-25,11-7 ; rs2 rs1 #imm
addi         BaseI.ADDI             both  IFormat       ; 14-12=0 6-0=0x13 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
slti         BaseI.SLTI             both  IFormat       ; 14-12=2 6-0=0x13 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
sltiu        BaseI.SLTIU            both  IFormat       ; 14-12=3 6-0=0x13 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
xori         BaseI.XORI             both  IFormat       ; 14-12=4 6-0=0x13 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
ori          BaseI.ORI              both  IFormat       ; 14-12=6 6-0=0x13 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
andi         BaseI.ANDI             both  IFormat       ; 14-12=7 6-0=0x13 ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
slli         BaseI.SLLI             32    RShamtFormat  ; 31-25=0x0 14-12=1 6-0=0x13 ; rd=11-7 rs1=19-15 imm=u:24-20 ; rd rs1 #imm
slli         BaseI.SLLI             64s   RShamtFormat  ; 31-26=0x0 14-12=1 6-0=0x13 ; rd=11-7 rs1=19-15 imm=u:25-20 ; rd rs1 #imm
srli         BaseI.SRLI             32    RShamtFormat  ; 31-25=0x0 14-12=5 6-0=0x13 ; rd=11-7 rs1=19-15 imm=u:24-20 ; rd rs1 #imm
srli         BaseI.SRLI             64s   RShamtFormat  ; 31-26=0x0 14-12=5 6-0=0x13 ; rd=11-7 rs1=19-15 imm=u:25-20 ; rd rs1 #imm
srai         BaseI.SRAI             32    RShamtFormat  ; 31-25=0x20 14-12=5 6-0=0x13 ; rd=11-7 rs1=19-15 imm=u:24-20 ; rd rs1 #imm
srai         BaseI.SRAI             64s   RShamtFormat  ; 31-26=0x10 14-12=5 6-0=0x13 ; rd=11-7 rs1=19-15 imm=u:25-20 ; rd rs1 #imm
add          BaseI.ADD              both  RFormat       ; 31-25=0x0 14-12=0 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
sub          BaseI.SUB              both  RFormat       ; 31-25=0x20 14-12=0 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
sll          BaseI.SLL              both  RFormat       ; 31-25=0x0 14-12=1 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
slt          BaseI.SLT              both  RFormat       ; 31-25=0x0 14-12=2 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
sltu         BaseI.SLTU             both  RFormat       ; 31-25=0x0 14-12=3 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
xor          BaseI.XOR              both  RFormat       ; 31-25=0x0 14-12=4 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
srl          BaseI.SRL              both  RFormat       ; 31-25=0x0 14-12=5 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
sra          BaseI.SRA              both  RFormat       ; 31-25=0x20 14-12=5 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
or           BaseI.OR               both  RFormat       ; 31-25=0x0 14-12=6 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
and          BaseI.AND              both  RFormat       ; 31-25=0x0 14-12=7 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
ecall        BaseI.ECALL            both  NoOperand     ; 31-7=0 6-0=0x73 ;  ; 
ebreak       BaseI.EBREAK           both  NoOperand     ; 31-20=1 19-7=0 6-0=0x73 ;  ; 
addiw        BaseI.ADDIW            64    IFormat       ; 14-12=0 6-0=0x1b ; rd=11-7 rs1=19-15 imm=s:31-20 ; rd rs1 #imm
slliw        BaseI.SLLIW            64    RShamtFormat  ; 31-25=0x0 14-12=1 6-0=0x1b ; rd=11-7 rs1=19-15 imm=u:24-20 ; rd rs1 #imm
srliw        BaseI.SRLIW            64    RShamtFormat  ; 31-25=0x0 14-12=5 6-0=0x1b ; rd=11-7 rs1=19-15 imm=u:24-20 ; rd rs1 #imm
sraiw        BaseI.SRAIW            64    RShamtFormat  ; 31-25=0x20 14-12=5 6-0=0x1b ; rd=11-7 rs1=19-15 imm=u:24-20 ; rd rs1 #imm
addw         BaseI.ADDW             64    RFormat       ; 31-25=0x0 14-12=0 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
subw         BaseI.SUBW             64    RFormat       ; 31-25=0x20 14-12=0 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
sllw         BaseI.SLLW             64    RFormat       ; 31-25=0x0 14-12=1 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
srlw         BaseI.SRLW             64    RFormat       ; 31-25=0x0 14-12=5 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
sraw         BaseI.SRAW             64    RFormat       ; 31-25=0x20 14-12=5 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2

# ---- M
mul          M.MUL                  both  MFormat       ; 31-25=1 14-12=0 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
mulh         M.MULH                 both  MFormat       ; 31-25=1 14-12=1 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
mulhsu       M.MULHSU               both  MFormat       ; 31-25=1 14-12=2 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
mulhu        M.MULHU                both  MFormat       ; 31-25=1 14-12=3 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
div          M.DIV                  both  MFormat       ; 31-25=1 14-12=4 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
divu         M.DIVU                 both  MFormat       ; 31-25=1 14-12=5 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
rem          M.REM                  both  MFormat       ; 31-25=1 14-12=6 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
remu         M.REMU                 both  MFormat       ; 31-25=1 14-12=7 6-0=0x33 ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
mulw         M.MULW                 64    MFormat       ; 31-25=1 14-12=0 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
divw         M.DIVW                 64    MFormat       ; 31-25=1 14-12=4 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
divuw        M.DIVUW                64    MFormat       ; 31-25=1 14-12=5 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
remw         M.REMW                 64    MFormat       ; 31-25=1 14-12=6 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2
remuw        M.REMUW                64    MFormat       ; 31-25=1 14-12=7 6-0=0x3b ; rd=11-7 rs1=19-15 rs2=24-20 ; rd rs1 rs2

# ---- A (imm carries aq:rl)
lr.w         A.LR_W                 both  ALrFormat     ; 31-27=2 24-20=0 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 imm=u:26-25 ; rd rs1
sc.w         A.SC_W                 both  AFormat       ; 31-27=0x3 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoswap.w    A.AMOSWAP_W            both  AFormat       ; 31-27=0x1 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoadd.w     A.AMOADD_W             both  AFormat       ; 31-27=0x0 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoxor.w     A.AMOXOR_W             both  AFormat       ; 31-27=0x4 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoand.w     A.AMOAND_W             both  AFormat       ; 31-27=0xc 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoor.w      A.AMOOR_W              both  AFormat       ; 31-27=0x8 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amomin.w     A.AMOMIN_W             both  AFormat       ; 31-27=0x10 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amomax.w     A.AMOMAX_W             both  AFormat       ; 31-27=0x14 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amominu.w    A.AMOMINU_W            both  AFormat       ; 31-27=0x18 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amomaxu.w    A.AMOMAXU_W            both  AFormat       ; 31-27=0x1c 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
lr.d         A.LR_D                 64    ALrFormat     ; 31-27=2 24-20=0 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 imm=u:26-25 ; rd rs1
sc.d         A.SC_D                 64    AFormat       ; 31-27=0x3 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoswap.d    A.AMOSWAP_D            64    AFormat       ; 31-27=0x1 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoadd.d     A.AMOADD_D             64    AFormat       ; 31-27=0x0 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoxor.d     A.AMOXOR_D             64    AFormat       ; 31-27=0x4 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoand.d     A.AMOAND_D             64    AFormat       ; 31-27=0xc 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amoor.d      A.AMOOR_D              64    AFormat       ; 31-27=0x8 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amomin.d     A.AMOMIN_D             64    AFormat       ; 31-27=0x10 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amomax.d     A.AMOMAX_D             64    AFormat       ; 31-27=0x14 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amominu.d    A.AMOMINU_D            64    AFormat       ; 31-27=0x18 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1
amomaxu.d    A.AMOMAXU_D            64    AFormat       ; 31-27=0x1c 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 imm=u:26-25 ; rd rs2 rs1

# ---- Zifencei (raki files the base fence under it); fence.i is a known finding: raki cannot represent it
fence        Zifencei.FENCE         both  NoOperand     ; 14-12=0 6-0=0x0f ; rd=11-7 rs1=19-15 imm=u:31-20 ; 
fence.i      Zifencei.FENCE_I       both  NoOperand     ; 14-12=1 6-0=0x0f ;  ; 

# ---- Zicboz
cbo.zero     Zicboz.CBO_ZERO        both  OnlyRs1       ; 31-20=4 14-12=2 11-7=0 6-0=0x0f ; rs1=19-15 ; rs1

# ---- Zicntr (special forms of csrrs, so they come first); upper halves exist on RV32 only
rdcycle      Zicntr.RDCYCLE         both  OnlyRd        ; 31-20=0xc00 19-15=0 14-12=2 6-0=0x73 ; rd=11-7 ; rd
rdtime       Zicntr.RDTIME          both  OnlyRd        ; 31-20=0xc01 19-15=0 14-12=2 6-0=0x73 ; rd=11-7 ; rd
rdinstret    Zicntr.RDINSTRET       both  OnlyRd        ; 31-20=0xc02 19-15=0 14-12=2 6-0=0x73 ; rd=11-7 ; rd
rdcycleh     Zicntr.RDCYCLE_H       32    OnlyRd        ; 31-20=0xc80 19-15=0 14-12=2 6-0=0x73 ; rd=11-7 ; rd
rdtimeh      Zicntr.RDTIME_H        32    OnlyRd        ; 31-20=0xc81 19-15=0 14-12=2 6-0=0x73 ; rd=11-7 ; rd
rdinstreth   Zicntr.RDINSTRET_H     32    OnlyRd        ; 31-20=0xc82 19-15=0 14-12=2 6-0=0x73 ; rd=11-7 ; rd

# ---- Zicsr (rs2 carries the CSR number)
csrrw        Zicsr.CSRRW            both  CsrFormat     ; 14-12=1 6-0=0x73 ; rd=11-7 rs1=19-15 rs2=31-20 ; rd rs1 #rs2
csrrs        Zicsr.CSRRS            both  CsrFormat     ; 14-12=2 6-0=0x73 ; rd=11-7 rs1=19-15 rs2=31-20 ; rd rs1 #rs2
csrrc        Zicsr.CSRRC            both  CsrFormat     ; 14-12=3 6-0=0x73 ; rd=11-7 rs1=19-15 rs2=31-20 ; rd rs1 #rs2
csrrwi       Zicsr.CSRRWI           both  CsrUiFormat   ; 14-12=5 6-0=0x73 ; rd=11-7 rs2=31-20 imm=u:19-15 ; rd #rs2 #imm
csrrsi       Zicsr.CSRRSI           both  CsrUiFormat   ; 14-12=6 6-0=0x73 ; rd=11-7 rs2=31-20 imm=u:19-15 ; rd #rs2 #imm
csrrci       Zicsr.CSRRCI           both  CsrUiFormat   ; 14-12=7 6-0=0x73 ; rd=11-7 rs2=31-20 imm=u:19-15 ; rd #rs2 #imm

# ---- Zicfiss
sspush       Zicfiss.SSPUSH         both  OnlyRs2       ; 31-20=0xce1 19-15=0 14-12=4 11-7=0 6-0=0x73 ; rd=const:0 rs1=const:0 rs2=24-20 ; rs2
sspush       Zicfiss.SSPUSH         both  OnlyRs2       ; 31-20=0xce5 19-15=0 14-12=4 11-7=0 6-0=0x73 ; rd=const:0 rs1=const:0 rs2=24-20 ; rs2
sspopchk     Zicfiss.SSPOPCHK       both  OnlyRs1       ; 31-20=0xcdc 19-15=1 14-12=4 11-7=0 6-0=0x73 ; rd=const:0 rs1=19-15 ; rs1
sspopchk     Zicfiss.SSPOPCHK       both  OnlyRs1       ; 31-20=0xcdc 19-15=5 14-12=4 11-7=0 6-0=0x73 ; rd=const:0 rs1=19-15 ; rs1
ssrdp        Zicfiss.SSRDP          both  OnlyRd        ; 31-20=0xcdc 19-15=0 14-12=4 11-7!=0 6-0=0x73 ; rd=11-7 ; rd
ssamoswap.w  Zicfiss.SSAMOSWAP_W    both  AFormat       ; 31-27=9 14-12=2 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 lost=26-25 ; rd rs2 rs1
ssamoswap.d  Zicfiss.SSAMOSWAP_D    64    AFormat       ; 31-27=9 14-12=3 6-0=0x2f ; rd=11-7 rs1=19-15 rs2=24-20 lost=26-25 ; rd rs2 rs1

# ---- privileged
sret         Priv.SRET              both  NoOperand     ; 31-0=0x10200073 ;  ; 
mret         Priv.MRET              both  NoOperand     ; 31-0=0x30200073 ;  ; 
wfi          Priv.WFI               both  NoOperand     ; 31-0=0x10500073 ;  ; 
sfence.vma   Priv.SFENCE_VMA        both  RFormat       ; 31-25=9 14-12=0 11-7=0 6-0=0x73 ; rs1=19-15 rs2=24-20 ; rs1 rs2

# ======== 16-bit. Register fields written 4-2' are three bits naming x8-x15. First match wins.
# Fifth column: the 32-bit instruction this one abbreviates; '!f' = reserved when field f is zero.
illegal      -                      both  -             ; 15-0=0 ; ;
c.addi4spn   C.ADDI4SPN             both  CiwFormat     ; 15-13=0 1-0=0 ; rd=4-2' imm=u:10-7,12-11,5,6,z2 ; rd sp #imm ; !imm addi rd=rd rs1=x2 imm=imm
c.lw         C.LW                   both  ClFormat      ; 15-13=2 1-0=0 ; rd=4-2' rs1=9-7' imm=u:5,12-10,6,z2 ; rd rs1 #imm ; lw rd=rd rs1=rs1 imm=imm
c.ld         C.LD                   64    ClFormat      ; 15-13=3 1-0=0 ; rd=4-2' rs1=9-7' imm=u:6-5,12-10,z3 ; rd rs1 #imm ; ld rd=rd rs1=rs1 imm=imm
c.sw         C.SW                   both  CsFormat      ; 15-13=6 1-0=0 ; rs1=9-7' rs2=4-2' imm=u:5,12-10,6,z2 ; rs2 rs1 #imm ; sw rs1=rs1 rs2=rs2 imm=imm
c.sd         C.SD                   64    CsFormat      ; 15-13=7 1-0=0 ; rs1=9-7' rs2=4-2' imm=u:6-5,12-10,z3 ; rs2 rs1 #imm ; sd rs1=rs1 rs2=rs2 imm=imm
c.nop        C.NOP                  both  NoOperand     ; 15-13=0 11-7=0 1-0=1 ; imm=s:12,6-2 ;  ; addi rd=x0 rs1=x0 imm=imm
c.addi       C.ADDI                 both  CiFormat      ; 15-13=0 1-0=1 ; rd=11-7 rs1=11-7 imm=s:12,6-2 ; rd rd? #imm ; addi rd=rd rs1=rs1 imm=imm
c.jal        C.JAL                  32    CjFormat      ; 15-13=1 1-0=1 ; imm=s:12,8,10-9,6,7,2,11,5-3,z1 ; #imm ; jal rd=x1 imm=imm
c.addiw      C.ADDIW                64s   CiFormat      ; 15-13=1 1-0=1 ; rd=11-7 rs1=11-7 imm=s:12,6-2 ; rd rd? #imm ; !rd addiw rd=rd rs1=rs1 imm=imm
c.li         C.LI                   both  CiFormat      ; 15-13=2 1-0=1 ; rd=11-7 imm=s:12,6-2 ; rd #imm ; addi rd=rd rs1=x0 imm=imm
c.sspush     Zicfiss.C_SSPUSH       both  NoOperand     ; 15-0=0x6081 ; rd=const:1 ; rd? ; sspush rs2=x1
c.sspopchk   Zicfiss.C_SSPOPCHK     both  NoOperand     ; 15-0=0x6281 ; rd=const:5 ; rd? ; sspopchk rs1=x5
c.addi16sp   C.ADDI16SP             both  CiFormat      ; 15-13=3 11-7=2 1-0=1 ; rd=11-7 rs1=11-7 imm=s:12,4-3,5,2,6,z4 ; rd rd? #imm ; !imm addi rd=rd rs1=rs1 imm=imm
c.lui        C.LUI                  both  CiFormat      ; 15-13=3 1-0=1 ; rd=11-7 imm=s:12,6-2,z12 ; rd #imm ; !imm lui rd=rd imm=imm>>12
c.srli       C.SRLI                 32    CbFormat      ; 15-13=4 12=0 11-10=0 1-0=1 ; rd=9-7' rs1=9-7' imm=u:12,6-2 ; rd rd? #imm ; srli rd=rd rs1=rs1 imm=imm
c.srli       C.SRLI                 64s   CbFormat      ; 15-13=4 11-10=0 1-0=1 ; rd=9-7' rs1=9-7' imm=u:12,6-2 ; rd rd? #imm ; srli rd=rd rs1=rs1 imm=imm
c.srai       C.SRAI                 32    CbFormat      ; 15-13=4 12=0 11-10=1 1-0=1 ; rd=9-7' rs1=9-7' imm=u:12,6-2 ; rd rd? #imm ; srai rd=rd rs1=rs1 imm=imm
c.srai       C.SRAI                 64s   CbFormat      ; 15-13=4 11-10=1 1-0=1 ; rd=9-7' rs1=9-7' imm=u:12,6-2 ; rd rd? #imm ; srai rd=rd rs1=rs1 imm=imm
c.andi       C.ANDI                 both  CbFormat      ; 15-13=4 11-10=2 1-0=1 ; rd=9-7' rs1=9-7' imm=s:12,6-2 ; rd rd? #imm ; andi rd=rd rs1=rs1 imm=imm
c.sub        C.SUB                  both  CaFormat      ; 15-10=0x23 6-5=0 1-0=1 ; rd=9-7' rs1=9-7' rs2=4-2' ; rd rd? rs2 ; sub rd=rd rs1=rs1 rs2=rs2
c.xor        C.XOR                  both  CaFormat      ; 15-10=0x23 6-5=1 1-0=1 ; rd=9-7' rs1=9-7' rs2=4-2' ; rd rd? rs2 ; xor rd=rd rs1=rs1 rs2=rs2
c.or         C.OR                   both  CaFormat      ; 15-10=0x23 6-5=2 1-0=1 ; rd=9-7' rs1=9-7' rs2=4-2' ; rd rd? rs2 ; or rd=rd rs1=rs1 rs2=rs2
c.and        C.AND                  both  CaFormat      ; 15-10=0x23 6-5=3 1-0=1 ; rd=9-7' rs1=9-7' rs2=4-2' ; rd rd? rs2 ; and rd=rd rs1=rs1 rs2=rs2
c.subw       C.SUBW                 64    CaFormat      ; 15-10=0x27 6-5=0 1-0=1 ; rd=9-7' rs1=9-7' rs2=4-2' ; rd rd? rs2 ; subw rd=rd rs1=rs1 rs2=rs2
c.addw       C.ADDW                 64    CaFormat      ; 15-10=0x27 6-5=1 1-0=1 ; rd=9-7' rs1=9-7' rs2=4-2' ; rd rd? rs2 ; addw rd=rd rs1=rs1 rs2=rs2
c.j          C.J                    both  CjFormat      ; 15-13=5 1-0=1 ; imm=s:12,8,10-9,6,7,2,11,5-3,z1 ; #imm ; jal rd=x0 imm=imm
c.beqz       C.BEQZ                 both  CbFormat      ; 15-13=6 1-0=1 ; rs1=9-7' imm=s:12,6-5,2,11-10,4-3,z1 ; rs1 #imm ; beq rs1=rs1 rs2=x0 imm=imm
c.bnez       C.BNEZ                 both  CbFormat      ; 15-13=7 1-0=1 ; rs1=9-7' imm=s:12,6-5,2,11-10,4-3,z1 ; rs1 #imm ; bne rs1=rs1 rs2=x0 imm=imm
c.slli       C.SLLI                 32    CiFormat      ; 15-13=0 12=0 1-0=2 ; rd=11-7 rs1=11-7 imm=u:12,6-2 ; rd rd? #imm ; slli rd=rd rs1=rs1 imm=imm
c.slli       C.SLLI                 64s   CiFormat      ; 15-13=0 1-0=2 ; rd=11-7 rs1=11-7 imm=u:12,6-2 ; rd rd? #imm ; slli rd=rd rs1=rs1 imm=imm
c.lwsp       C.LWSP                 both  CiFormat      ; 15-13=2 1-0=2 ; rd=11-7 imm=u:3-2,12,6-4,z2 ; rd sp #imm ; !rd lw rd=rd rs1=x2 imm=imm
c.ldsp       C.LDSP                 64    CiFormat      ; 15-13=3 1-0=2 ; rd=11-7 imm=u:4-2,12,6-5,z3 ; rd sp #imm ; !rd ld rd=rd rs1=x2 imm=imm
c.jr         C.JR                   both  CrFormat      ; 15-12=8 6-2=0 1-0=2 ; rs1=11-7 rs2=6-2 ; zero? rs1 #0? ; !rs1 jalr rd=x0 rs1=rs1 imm=0
c.mv         C.MV                   both  CrFormat      ; 15-12=8 1-0=2 ; rd=11-7 rs2=6-2 ; rd rs2 ; add rd=rd rs1=x0 rs2=rs2
c.ebreak     C.EBREAK               both  NoOperand     ; 15-0=0x9002 ;  ;  ; ebreak
c.jalr       C.JALR                 both  CrFormat      ; 15-12=9 6-2=0 1-0=2 ; rs1=11-7 rs2=6-2 ; ra? rs1 #0? ; jalr rd=x1 rs1=rs1 imm=0
c.add        C.ADD                  both  CrFormat      ; 15-12=9 1-0=2 ; rd=11-7 rs1=11-7 rs2=6-2 ; rd rd? rs2 ; add rd=rd rs1=rs1 rs2=rs2
c.swsp       C.SWSP                 both  CssFormat     ; 15-13=6 1-0=2 ; rs2=6-2 imm=u:8-7,12-9,z2 ; rs2 sp #imm ; sw rs1=x2 rs2=rs2 imm=imm
c.sdsp       C.SDSP                 64    CssFormat     ; 15-13=7 1-0=2 ; rs2=6-2 imm=u:9-7,12-10,z3 ; rs2 sp #imm ; sd rs1=x2 rs2=rs2 imm=imm
