#!/usr/bin/env python3
"""Writes properties.jsonl (run once by hand whenever a property changes)."""
import json, os
D = "src/decode.rs"; I16 = "src/decode/inst_16.rs"; I32 = "src/decode/inst_32.rs"
EXT32 = ["src/decode/base_i.rs", "src/decode/m_extension.rs", "src/decode/a_extension.rs",
         "src/decode/zicsr_extension.rs", "src/decode/zicntr_extension.rs", "src/decode/zifencei_extension.rs",
         "src/decode/zicboz_extension.rs", "src/decode/zicfiss_extension.rs", "src/decode/priv_extension.rs"]
EXT16 = ["src/decode/c_extension.rs", "src/decode/zicfiss_extension.rs"]
INST = ["src/instruction.rs", "src/instruction/base_i.rs", "src/instruction/m_extension.rs",
        "src/instruction/a_extension.rs", "src/instruction/c_extension.rs", "src/instruction/zicsr_extension.rs",
        "src/instruction/zicntr_extension.rs", "src/instruction/zifencei_extension.rs",
        "src/instruction/zicboz_extension.rs", "src/instruction/zicfiss_extension.rs",
        "src/instruction/priv_extension.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Every supported 32-bit encoding decodes to its own instruction",
  "For every 32-bit word and either ISA, if the word matches the fixed opcode and function bits of a supported RV32/64 I, M, A, Zicsr, Zicntr, Zifencei, Zicboz, Zicfiss or privileged (mret, sret, wfi, sfence.vma) instruction that the ISA has, decoding succeeds and reports exactly that instruction under its own extension. Where a counter-read, shadow-stack or similar special form overlaps a general encoding (for example csrrs of a counter CSR with rs1=zero), the special form is reported for exactly the words that meet all of its conditions and the general instruction for all others.",
  ["inputs", "configurations"], "all 2^32 words, RV32 and RV64",
  "The unit tests decode about 40 hand-picked words, nearly all on RV64; opcode selection is a tree over opcode, funct3, funct5/6/7, csr and operand bits, and a wrong or missing arm shows only on words of that arm.",
  [I32] + EXT32, [("extension selection", I32 + " parse_extension"), ("per-extension opcode tables", "src/decode/*.rs bit_32::parse_opcode")],
  ["u32::decode(isa).opc"])
p("C02", "Every supported 16-bit encoding decodes to its own instruction",
  "For every 16-bit word and either ISA, if the word matches the fixed bits of a supported compressed (RV32C/RV64C integer or compressed shadow-stack) instruction that the ISA has, decoding succeeds and reports exactly that instruction. Where encodings overlap the more specific one wins: nop over addi, addi16sp and the two shadow-stack forms over lui, jr over mv, ebreak over jalr over add; encodings that the specification reserves only because an operand is zero (such as lui with a zero immediate) still decode as that instruction.",
  ["inputs", "configurations"], "all 2^16 halfwords, RV32 and RV64",
  "The tests decode 14 halfwords, all on RV64; the RV32 column of the compressed map (jal instead of addiw, no 64-bit loads and stores) is not tested at all.",
  [I16] + EXT16, [("quadrant tables", "src/decode/c_extension.rs quadrant0/1/2"), ("shadow-stack selection", I16 + " parse_extension")],
  ["u16::decode(isa).opc"])
p("C03", "Words that encode no supported instruction are rejected",
  "For every 16-bit or 32-bit word and either ISA, if the word does not match the fixed bits of any supported instruction of that width and ISA, decoding returns an error and never an instruction. In particular a word that belongs to another or unsupported extension, has an unassigned function code, has a nonzero value in a field the encoding fixes to zero, has the length marker of the other width, or (on RV32) a shift amount of 32 or more, is never passed off as a supported instruction.",
  ["inputs", "configurations"], "all 2^32 words and 2^16 halfwords, RV32 and RV64",
  "No test checks any rejection except one all-zero word in a doc example; more than 90% of the word space must be rejected and one missing check lets through millions of words.",
  [I32, I16] + EXT32 + ["src/decode/c_extension.rs"], [("default arms returning errors", "src/decode/*.rs parse_opcode"), ("extension selection", I32 + " parse_extension")],
  ["u32::decode(isa)", "u16::decode(isa)"])
p("C04", "RV32 and RV64 decoding differ exactly where the ISAs differ",
  "For every word of either width, an instruction accepted on RV32 is accepted on RV64 with identical opcode, operands, immediate and format, except that the halfword encoding of the compressed jal is compressed addiw on RV64 and the upper-half counter reads of RV32 are plain CSR reads on RV64. A word accepted only on RV64 is either one of the 64-bit-only instructions, which RV32 rejects as RV64-only, or an immediate shift by 32 or more; RV64 never reports that a word is RV64-only and RV32 never yields a 64-bit-only instruction.",
  ["inputs", "configurations"], "all 2^32 words and 2^16 halfwords, both ISAs compared",
  "The test helpers for RV32 are never called (marked dead code); only one doc example touches the RV32 restriction.",
  [D, I32, I16] + EXT32 + ["src/decode/c_extension.rs"], [("RV64 gate", D + " only_rv64"), ("per-ISA shift rules", "src/decode/base_i.rs parse_opcode/parse_imm")],
  ["decode(Isa::Rv32) vs decode(Isa::Rv64)"])
p("C05", "Register operands of 32-bit instructions are exact",
  "For every 32-bit word that decodes, rd, rs1 and rs2 are each reported if and only if the instruction has that operand, and each reported value equals the corresponding 5-bit field of the word (so is at most 31). CSR instructions report the 12-bit CSR number as rs2, and a shadow-stack push or pop-check reports its fixed rd (and, for push, rs1) as register 0.",
  ["inputs", "configurations"], "all accepted words among 2^32, RV32 and RV64",
  "Tests check operands of about 40 words covering a third of the opcodes, one register assignment each.",
  [I32] + EXT32, [("operand parsers", "src/decode/*.rs bit_32::parse_rd/parse_rs1/parse_rs2")],
  ["u32::decode(isa).rd", ".rs1", ".rs2"])
p("C06", "Immediates of 32-bit instructions are exact",
  "For every 32-bit word that decodes, an immediate is reported if and only if the instruction has one, and its value is the specified one: sign-extended I-, S-, B- and J-type offsets with every bit in its place, the raw 20-bit upper immediate of lui/auipc, 5- or 6-bit unsigned shift amounts according to ISA and instruction, the 5-bit unsigned CSR immediate, the acquire/release bits of atomics (acquire as bit 1) and the 12-bit field of fence.",
  ["inputs", "configurations"], "all accepted words among 2^32, RV32 and RV64",
  "Tests check about 25 immediates; scrambled B/J-type layouts and sign extension have per-bit failure modes that a few samples cannot exclude.",
  [I32, D] + EXT32, [("bit scatter", I32 + " set/slice"), ("sign extension", D + " to_signed_nbit"), ("immediate layouts", "src/decode/base_i.rs parse_imm")],
  ["u32::decode(isa).imm"])
p("C07", "Register operands of compressed instructions are exact",
  "For every halfword that decodes, rd, rs1 and rs2 are each reported if and only if the instruction's encoding carries that operand (a combined rd/rs1 field is reported as both), with the 3-bit register fields mapped to registers 8-15 and the 5-bit fields taken as is. Implied operands (sp of stack-relative forms, zero, ra) are not reported, except that jr and jalr report their zero rs2 field and the compressed shadow-stack push and pop-check report register 1 and 5 as rd.",
  ["inputs", "configurations"], "all accepted halfwords among 2^16, RV32 and RV64",
  "Tests check 14 halfwords on RV64 only; 20 of the 36 compressed opcodes have no operand test.",
  [I16] + EXT16, [("operand parsers", "src/decode/c_extension.rs parse_rd/parse_rs1/parse_rs2")],
  ["u16::decode(isa).rd", ".rs1", ".rs2"])
p("C08", "Immediates of compressed instructions are exact",
  "For every halfword that decodes, an immediate is reported if and only if the instruction has one, and its value is the one the specification assembles from the scrambled fields: zero-extended and scaled for loads, stores and addi4spn, sign-extended for addi, addiw, li, andi, addi16sp, branches and jumps, the sign-extended byte value (multiple of 4096) for lui, and an unsigned 6-bit shift amount.",
  ["inputs", "configurations"], "all accepted halfwords among 2^16, RV32 and RV64",
  "Tests check 9 immediates; each of the 14 distinct scrambled layouts has its own bit permutation.",
  [I16, D, "src/decode/c_extension.rs"], [("immediate layouts", "src/decode/c_extension.rs parse_imm"), ("sign extension", D + " to_signed_nbit")],
  ["u16::decode(isa).imm"])
p("C09", "No public operation panics or hangs",
  "Decoding any 16-bit, 32-bit or pointer-sized value for either ISA, querying the opcode or any operand of any such value with any opcode whatsoever, and formatting any successfully decoded instruction, always returns normally: it never panics, overflows, aborts or loops forever.",
  ["inputs", "configurations", "programs"], "all words of both widths, both ISAs; all decoded instructions as formatting argument; all opcodes as query argument over all halfwords and a bounded set of 1.8 million words",
  "Tests only call operations with matching, valid arguments and never format an instruction.",
  [D, I16, I32, "src/lib.rs", "src/instruction.rs"] + EXT32 + ["src/decode/c_extension.rs"],
  [("field slicing with checked conversions", I32 + " slice + try_from().unwrap()"), ("formatting unwraps operands by format", "src/instruction.rs Display")],
  ["Decode methods", "TryFrom<usize>", "Display"])
p("C10", "The step-by-step queries agree with whole-instruction decoding",
  "For every word of either width and either ISA, decoding succeeds exactly when querying the opcode succeeds, with the same error otherwise (except that whole decoding calls the all-zero halfword illegal), and the operands and immediate it reports are exactly those the individual queries return for that opcode. Querying an operand of a word with an opcode of the other instruction width is always an error, never an operand.",
  ["inputs", "configurations", "programs"], "all words, both ISAs; all opcodes as query argument over all halfwords and a bounded set of 1.8 million words",
  "Tests use only the step-by-step queries; whole decoding is exercised on three words.",
  [D, I16, I32] + ["src/decode/zicfiss_extension.rs"], [("decode composes the parse_* queries", I32 + " decode, " + I16 + " decode")],
  ["Decode::decode vs Decode::parse_*"])
p("C11", "Pointer-sized conversion picks the right width and never loses bits",
  "Converting a pointer-sized integer to an instruction yields exactly the RV64 decoding of its low 32 bits when the two low bits are 11 and the value fits 32 bits, exactly the RV64 decoding of its low 16 bits when they are not 11 and the value fits 16 bits, and an error in every other case, never the decoding of a truncated value. Every instruction obtained from a halfword is marked compressed and every instruction obtained from a 32-bit word is not.",
  ["inputs"], "all values below 2^32, and all values with at most two bits set above bit 31 (or 15) combined with every low-part class",
  "The test converts four values that fit.",
  ["src/lib.rs", I16, I32], [("width dispatch", "src/lib.rs TryFrom<usize>"), ("compressed flag", I16 + "/" + I32 + " decode")],
  ["Instruction::try_from(usize)", "Instruction.is_compressed"])
p("C12", "The reported format matches the instruction and its operands",
  "Every decoded instruction carries the format class documented for its opcode (R, shift-immediate, I, S, B, U, J, the compressed classes, CSR register/immediate, M, atomic, load-reserved, single-register or no-operand), the same class the opcode itself reports. The format, opcode and compressed flag are the same for every operand value of that instruction, and every operand needed to write the instruction in that format is present.",
  ["inputs", "configurations"], "all accepted words of both widths, both ISAs",
  "Tests check the format of three words (jal, c.mv).",
  INST, [("format tables", "src/instruction/*.rs get_format")],
  ["Instruction.inst_format", "OpcodeKind::get_format"])
p("C13", "Text form starts with the instruction's standard mnemonic",
  "For every decoded instruction the formatted text is the standard assembly mnemonic of that instruction (case-insensitive, with the c. prefix for compressed forms), followed by its operands if any, and formatting the opcode alone gives exactly that mnemonic. Different instructions never share a mnemonic.",
  ["inputs", "configurations"], "all accepted words of both widths, both ISAs",
  "No test formats anything; the doc example prints one addi without checking it.",
  INST, [("mnemonic tables", "src/instruction/*.rs Display")],
  ["Display for Instruction", "Display for OpcodeKind"])
p("C14", "Text form shows every operand faithfully",
  "For every decoded instruction the formatted text names the instruction's register operands by ABI name in standard assembly order (destination first; stored or swapped value before the base address; for branches rs1 then rs2) and shows its immediate, shift amount, offset and CSR number, in that notation's order, as decimal or 0x-prefixed numbers equal to the decoded values (modulo 2^32). Nothing else is shown apart from operands the instruction implies (sp, the repeated destination of two-operand compressed arithmetic, and zero/ra with offset 0 for compressed register jumps); acquire/release bits and the fence field are not shown.",
  ["inputs", "configurations"], "all accepted words of both widths, both ISAs",
  "No test formats anything.",
  ["src/instruction.rs"], [("per-format templates and register names", "src/instruction.rs Display, reg2str")],
  ["Display for Instruction"])
p("C15", "Rejections report their cause",
  "A rejected word reports RV64-only exactly when it encodes a 64-bit-only instruction on RV32, and illegal instruction exactly for decoding the all-zero halfword; unassigned major opcodes, the other width's length marker and unassigned compressed encodings report an invalid opcode. For a supported major opcode, an invalid funct3, funct5, funct6 or funct7 error is reported only when that field really holds a value not assigned in combination with the word's other function fields, a word whose only fault is one such field reports that field, and an unknown extension is reported only for function codes of unsupported fences, atomics and 32-bit-operand arithmetic.",
  ["inputs", "configurations"], "all rejected words of both widths, both ISAs",
  "Two doc examples check one error each, and only inside an if-let that passes vacuously on success.",
  [D, I16, I32] + EXT32 + ["src/decode/c_extension.rs"], [("error arms", "src/decode/*.rs parse_opcode, parse_extension"), ("RV64 gate", D + " only_rv64")],
  ["DecodingError of decode/parse_opcode"])
p("C16", "Results do not depend on earlier calls",
  "The result of every decode, query, conversion and formatting call depends only on its arguments: after any sequence of earlier calls with any arguments and ISAs, in any order and number, a call returns the same result as when it is made first.",
  ["histories"], "all call sequences up to a depth over an alphabet of words built to collide (equal up to one or two bits, other ISA, other width, rejected words, formatting into outputs that fail), complete tours of the word space, and, where calls write memory that outlives them, all states reachable with the alphabet, each followed by every call",
  "Each test makes a fixed short sequence of calls once.",
  [D, I16, I32, "src/lib.rs", "src/instruction.rs"], [("pure functions without shared state", "whole crate: no statics, no interior mutability")],
  ["all public operations"])
p("C17", "Concurrent and re-entrant calls do not affect each other",
  "When calls run concurrently on several threads, or a call is interrupted at any machine instruction and another call runs to completion or part-way before it resumes, each call returns the same result as when it runs alone.",
  ["schedules"], "all interleavings of two calls with one preemption at any machine instruction over a colliding alphabet, with two for the shortest calls; where calls write memory that outlives them, all orders of accesses to it by two or three calls with 2 to 4 preemptions (thorough: 6), and up to 300 calls in progress at once",
  "Tests run each call alone; nothing exercises overlap.",
  [D, I16, I32, "src/lib.rs", "src/instruction.rs"], [("pure functions without shared state", "whole crate: no statics, no interior mutability")],
  ["all public operations from several threads"])
p("C18", "Decoding loses no information: the word can be rebuilt",
  "For every accepted word of either width and either ISA, re-encoding the decoded opcode, operands and immediate according to the specification gives back exactly the original word, apart from the acquire/release bits of the shadow-stack atomic swap, which are not reported. Consequently no two distinct accepted words decode to equal instructions.",
  ["inputs", "configurations"], "all accepted words of both widths, both ISAs",
  "No test re-encodes; a dropped or duplicated bit that keeps the sampled values right goes unseen.",
  [I16, I32, D] + EXT32 + ["src/decode/c_extension.rs"], [("operand and immediate extraction", "src/decode/*.rs parse_*")],
  ["decode output vs input word"])
p("C19", "Compressed instructions mean what their 32-bit expansion means",
  "For every accepted halfword (other than those the specification reserves), decoding it and decoding the 32-bit instruction that the specification says it abbreviates give the same register operands and immediate for every operand the halfword reports, once the implied registers (sp, zero, ra) are supplied and lui's immediate is scaled. The expansion itself is always accepted by the 32-bit decoder on the same ISA.",
  ["inputs", "configurations"], "all accepted halfwords, both ISAs, each paired with its 32-bit expansion",
  "Tests never relate the two decoders to each other.",
  [I16, I32, "src/decode/c_extension.rs", "src/decode/base_i.rs"], [("two independent operand parsers", "c_extension.rs vs base_i.rs")],
  ["u16::decode vs u32::decode"])
p("C20", "Equality of decoded instructions is exact",
  "Two decoded instructions compare equal if and only if they have the same opcode and extension, the same rd, rs1, rs2 and immediate, the same format and the same compressed flag; the same holds for opcodes, formats and errors on their own. In particular decoding the same word twice gives equal results and decoding two different words that are both accepted never does, apart from shadow-stack swaps differing only in acquire/release bits.",
  ["inputs", "histories"], "all pairs of halfwords, all pairs over two-field planes of every 32-bit encoding and over operand variations of all encodings on both ISAs, every word against itself and against its re-encoding; all pairs of opcodes, formats and errors",
  "Tests compare three pairs.",
  ["src/instruction.rs", D] + INST[1:], [("derived PartialEq", "src/instruction.rs, src/instruction/*.rs, src/decode.rs")],
  ["PartialEq of Instruction, OpcodeKind, InstFormat, DecodingError"])
p("C21", "Formatting reports the failure of its output",
  "When the output that a decoded instruction or an opcode is formatted into fails, after any number of bytes or at any piece written, formatting stops and reports the failure; it neither claims success nor panics. What was written until then is exactly a beginning of the full text, and nothing more is written after the failure. An output with just enough room for the full text receives exactly that, and formatting succeeds.",
  ["inputs", "fault_sequences"], "every decodable halfword, the two-field planes of every 32-bit encoding and every opcode, each with every number of bytes and every piece at which the output can fail",
  "No test formats into anything that can fail; the standard string output never does.",
  INST, [("formatting templates", "src/instruction.rs Display"), ("mnemonic tables", "src/instruction/*.rs Display")],
  ["Display for Instruction and OpcodeKind into a failing core::fmt::Write"])
p("C22", "Results are the same in every build",
  "The result of every decode, query, conversion and formatting call is the same whether the library is compiled with or without optimisation, and with or without overflow checks and debug assertions.",
  ["inputs", "configurations"], "all words of both widths on both ISAs in the optimised builds with and without checks; words near every encoding, all halfwords, and queries with every opcode in all four combinations",
  "The tests run in one build profile, the unoptimised one with checks; users ship the optimised one without.",
  [D, I16, I32, "src/lib.rs", "src/instruction.rs"] + EXT32 + ["src/decode/c_extension.rs"],
  [("arithmetic that may wrap, debug assertions, conditional compilation", "whole crate")],
  ["all public operations, in several builds"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
