#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table of techniques below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "complete enumeration of all 2^32 words on both ISAs on the real code"
H = "complete enumeration of all 2^16 halfwords on both ISAs on the real code"
FULL = "complete enumeration of all 2^32 words and 2^16 halfwords on both ISAs on the real code"
T = {
 "C01": ("exhaustive enumeration of all 32-bit words x ISA against an encoding model", W),
 "C02": ("exhaustive enumeration of all halfwords x ISA against an encoding model", H),
 "C03": ("exhaustive enumeration of all words x ISA against an encoding model", FULL),
 "C04": ("exhaustive enumeration of all words, RV32 and RV64 results compared", FULL),
 "C05": ("exhaustive enumeration of all 32-bit words x ISA against an operand model", W),
 "C06": ("exhaustive enumeration of all 32-bit words x ISA against an immediate model", W),
 "C07": ("exhaustive enumeration of all halfwords x ISA against an operand model", H),
 "C08": ("exhaustive enumeration of all halfwords x ISA against an immediate model", H),
 "C09": ("exhaustive enumeration of calls (decode, queries with every opcode, conversion, formatting) watched for panics, crashes and hangs",
   FULL + "; queries with foreign opcodes are complete for halfwords and over a bounded word set for 32-bit words; values above 2^32 over bounded high parts"),
 "C10": ("exhaustive enumeration of all words x ISA, whole decode compared with the step-by-step queries",
   FULL + "; queries with opcodes of the other width are complete for halfwords and over a bounded word set for 32-bit words"),
 "C11": ("exhaustive enumeration of all values below 2^32 plus bounded high parts", FULL + "; values above 2^32 have one or two bits set or cleared above bit 31 over a bounded set of low parts"),
 "C12": ("exhaustive enumeration of all words x ISA against a format model", FULL),
 "C13": ("exhaustive enumeration of all words x ISA, text compared with a mnemonic model", FULL),
 "C14": ("exhaustive enumeration of all words x ISA, text parsed back and compared with the operands", FULL),
 "C15": ("exhaustive enumeration of all rejected words x ISA against a model of admissible errors", FULL),
 "C16": ("complete tour of the word space with write-protected statics, exhaustive call sequences to a depth over a colliding alphabet, and (where calls write statics) explicit-state exploration of the states they can take",
   "complete tour with every call about every word; all pairs over an alphabet of every kind of call on every instruction and on rejected words, all sequences of length 3 over words differing in one or two bits, all triples over 240 calls, all sequences of length 4 to 8 over families of 12 to 4 confusable calls of every instruction, 70000 repetitions; where statics are written also up to 20000 states (thorough 200000), each followed by every call of the alphabet, 300 of them by every word of two-field planes, and three more tours"),
 "C17": ("exhaustive preemption-bounded interleavings of two calls at machine-instruction granularity; where calls write statics, of two and three calls and piles of up to 300 at every access",
   "every machine instruction of unoptimised code as preemption point: a complete call at each, all schedules with one preemption over families of confusable calls of every instruction, with two over the shortest calls (thorough: more); where calls write statics, all orders of accesses to them with 2 and 4 (thorough: 6) preemptions, with 3 for three calls, and with 2 where up to three stores of the interrupted call are delayed as by an x86 store buffer; no weaker memory order; stages are also bounded by time, the evidence says if one was cut"),
 "C18": ("exhaustive enumeration of all words x ISA, decoded and re-encoded by the model", FULL),
 "C19": ("exhaustive enumeration of all halfwords x ISA, each compared with the decoding of its 32-bit expansion", H),
 "C20": ("exhaustive pairs over an alphabet of instruction values, and every word against itself and its re-encoding", FULL + "; pairs: all halfwords with each other, two-field planes of every 32-bit encoding, operand variations of all encodings on both ISAs, all opcodes, formats and errors"),
 "C21": ("exhaustive enumeration of the moments at which the output of formatting fails", "every number of bytes and every piece, for all decodable halfwords, the two-field planes of every 32-bit encoding on both ISAs, and all opcodes"),
 "C22": ("exhaustive comparison of the results of four builds of the same code", FULL + " for the optimised builds with and without checks (thorough: also the unoptimised one without); 3.2 million chosen words and calls for all four builds"),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
READY = os.environ.get("READY", " ".join(T)).split()
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": [], "not_applicable": [],
     "notes": "One Rust explorer (mc/) with a path dependency on /repo and no other dependency; no hooks in /repo. "
              "The reference model is mc/spec/riscv.spec. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i not in READY:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i}",
        "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "model_checking",
        "level_note": f"Bounds: {T[i][1]}. Trusts {'the reference model in mc/spec/riscv.spec, ' if i not in ('C21', 'C22') else ''}rustc, and that results do not depend on call history (C16)."
        if i not in ("C16", "C17") else f"Bounds: {T[i][1]}; beyond them the check relies on no call writing shared memory, which it observes (C16: on every word). Trusts rustc and the x86 single-step mechanism."})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
