#!/usr/bin/env python3
"""Compare mc/spec/riscv.spec with LLVM's RISC-V disassembler. Not part of any check: it validates the model.

Compared, on both ISAs: all halfwords; of the 32-bit words all values of bits 31-20, 14-12 and 6-2 with several
values of rd and rs1; and for each encoding all values of each operand field and all pairs of immediate bits.
Acceptance, mnemonic, registers and numbers have to agree except for the differences listed in known().
"""
import collections, os, re, subprocess, sys
from concurrent.futures import ProcessPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABI = ("zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6").split()
REG = {n: i for i, n in enumerate(ABI)}
MATTR = "+m,+a,+c,+zicsr,+zifencei,+zicboz,+zicntr,+experimental-zicfiss"

def rng(s):
    hi, _, lo = s.partition("-")
    return int(hi), int(lo or hi)

class Enc:
    def __init__(self, line):
        f = [x.strip() for x in line.split(";")]
        self.name, self.opc, self.isa, self.fmt = f[0].split()
        self.mask = self.match = 0
        self.ne = []
        for c in f[1].split():
            m = re.fullmatch(r"([\d-]+)(!?=)(\w+)", c)
            hi, lo = rng(m[1]); v = int(m[3], 0)
            if m[2] == "=":
                self.mask |= ((1 << hi - lo + 1) - 1) << lo; self.match |= v << lo
            else:
                self.ne.append((hi, lo, v))
        self.ops = dict(o.split("=", 1) for o in f[2].split())
        self.text = f[3].split()
        self.wide = not (self.name.startswith("c.") or self.name == "illegal")
    def matches(self, w, isa):
        return ((w & self.mask) == self.match and all((w >> lo) & ((1 << hi - lo + 1) - 1) != v for hi, lo, v in self.ne)
                and (self.isa == "both" or self.isa[:2] == isa))
    def op(self, w, k):
        v = self.ops[k]
        if v.startswith("const:"): return int(v[6:])
        if k == "imm":
            kind, bits = v.split(":"); r = n = 0
            for p in bits.split(","):
                if p[0] == "z":
                    r <<= int(p[1:]); n += int(p[1:]); continue
                hi, lo = rng(p)
                r = r << hi - lo + 1 | (w >> lo) & ((1 << hi - lo + 1) - 1); n += hi - lo + 1
            return r - (1 << n) if kind == "s" and r >> n - 1 else r
        hi, lo = rng(v.rstrip("'"))
        return ((w >> lo) & ((1 << hi - lo + 1) - 1)) + (8 if v.endswith("'") else 0)
    def show(self, w):
        """mnemonic, registers, numbers in LLVM's notation"""
        name, regs, nums = self.name, [], []
        for t in self.text:
            opt = t.endswith("?"); t = t.rstrip("?")
            if opt: continue
            if t in REG: regs.append(REG[t])
            elif t[0] == "#": nums.append(self.op(w, t[1:]) if t[1:] in self.ops else int(t[1:]))
            else: regs.append(self.op(w, t))
        if self.opc.startswith("A.") or "AMOSWAP" in self.opc:
            aq = (w >> 25) & 3
            name += ["", ".rl", ".aq", ".aqrl"][aq]
        if name.startswith("rd") and self.opc.startswith("Zicntr"):
            name, nums, regs = "csrrs", [w >> 20], regs + [0]
        if name == "c.nop": nums = [n for n in [self.op(w, "imm")] if n]
        if name == "c.lui": nums = [nums[0] >> 12 & 0xfffff]
        return name, tuple(regs), tuple(nums)

SPEC = [Enc(l) for l in open(os.path.join(here, "mc/spec/riscv.spec")) if l.strip() and l[0] != "#"]

def model(w, width, isa):
    for e in SPEC:
        if e.wide == (width == 32) and e.matches(w, isa):
            return None if e.opc == "-" else e.show(w), e
    return None, None

CSRS = {}
def llvm(words, width, isa):
    n = width // 8
    inp = "\n".join(" ".join("0x%02x" % b for b in w.to_bytes(n, "little")) for w in words) + "\n"
    p = subprocess.run(["llvm-mc-18", "-disassemble", f"-triple=riscv{isa}", "-M", "no-aliases", "-mattr=" + MATTR],
                       input=inp, capture_output=True, text=True)
    bad = {int(m[1]) for m in re.finditer(r"^<stdin>:(\d+):\d+: warning: invalid", p.stderr, re.M)}
    lines = [l.strip() for l in p.stdout.split("\n") if l.startswith("\t") and not l.startswith("\t.")]
    good = [i for i in range(1, len(words) + 1) if i not in bad]
    assert len(lines) == len(good), (len(lines), len(good))
    res = [None] * len(words)
    for i, l in zip(good, lines):
        name, _, ops = l.partition("\t")
        regs, nums = [], []
        for t in re.findall(r"-?0x[0-9a-f]+|-?\d+\b|[a-z][\w.]*", ops):
            if t in REG: regs.append(REG[t])
            elif re.fullmatch(r"-?0x[0-9a-f]+|-?\d+", t): nums.append(int(t, 0))
            else: nums.append(t)
        res[i - 1] = (name, tuple(regs), tuple(nums))
    return res

def known(w, width, isa, m, e, l):
    """differences that are understood; returns the reason"""
    if e is not None and e.name == "fence":
        return "fence: operands not compared, LLVM rejects reserved mode/rd/rs1 values, which the manual says to treat as fences" if l is None or l[0].startswith("fence") else None
    if e is not None and e.name == "fence.i" and l is None:
        return "fence.i with nonzero reserved fields, to be ignored according to the manual"
    if l is not None and m is not None and l[0] == m[0] and l[1] == m[1] and any(isinstance(x, str) for x in l[2]):
        k = [i for i, x in enumerate(l[2]) if isinstance(x, str)][0]
        return "CSR shown by name" if CSRS.setdefault((isa, l[2][k]), w >> 20) == w >> 20 else None
    if e is not None and width == 16 and l is None:
        if e.name in ("c.addi4spn", "c.addi16sp", "c.lui") and e.op(w, "imm") == 0: return "reserved (immediate zero)"
        if e.name in ("c.addiw", "c.lwsp", "c.ldsp") and e.op(w, "rd") == 0: return "reserved (rd zero)"
        if e.name == "c.jr" and e.op(w, "rs1") == 0: return "reserved (rs1 zero)"
    if width == 16 and e is not None and e.name in ("c.sspush", "c.sspopchk") and l is not None and l[0] == "c.lui":
        return "LLVM 18 does not disassemble the compressed shadow-stack forms without Zcmop"
    if width == 16 and w == 0: return "all-zero halfword (LLVM: c.unimp)"
    if w == 0xc0001073 and l == ("unimp", (), ()): return "csrrw zero, cycle, zero (LLVM: unimp)"
    if m is None and l == ("dret", (), ()): return "debug return, not supported by raki"
    if m is None and l is not None and l[0].startswith("mop."): return "may-be-operation (Zimop, which LLVM enables with Zicfiss)"
    if width == 16 and l is not None and m is not None:
        if l[0] == m[0] + "64" and l[1] == m[1] and m[2] == (0,): return "shift by zero (LLVM: c.slli64 and the like)"
        if l[0] == m[0] == "c.lui" and m[1] == l[1] == (0,) and l[2][0] & 0xfffff == m[2][0]: return "c.lui hint shown with a negative number"
    if isa == "32" and m is None and l is not None and l[0].removeprefix("c.") in ("slli", "srli", "srai") and l[2][0] >= 32:
        return "shift by 32 or more on RV32: reserved according to the manual, LLVM disassembles it"
    return None

def job(a):
    width, isa, words = a
    out, c = [], collections.Counter()
    for w, l in zip(words, llvm(words, width, isa)):
        m, e = model(w, width, isa)
        if m == l: c["agree: " + ("rejected" if m is None else "accepted")] += 1; continue
        k = known(w, width, isa, m, e, l)
        if k: c["known: " + k] += 1
        else: c["DIFFERENT"] += 1; out.append((width, isa, w, m, l))
    return c, out

def words32():
    s = set()
    for hi in range(4096):
        for f3 in range(8):
            for op in range(32):
                for rd, rs1 in ((0, 0), (1, 0), (0, 1), (0, 5), (21, 10), (31, 31)):
                    s.add(hi << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op << 2 | 3)
    for e in SPEC:
        if not e.wide: continue
        free = [b for b in range(32) if not e.mask >> b & 1]
        for i in free:
            for j in free:
                s.add(e.match | 1 << i | 1 << j); s.add((e.match | ~e.mask & 0xffffffff) & ~(1 << i) & ~(1 << j))
        for lo in (7, 15, 20):
            for v in range(32):
                if (e.mask >> lo & 31) == 0:
                    s.add(e.match | v << lo); s.add(e.match | (~e.mask & ~(31 << lo) & 0xffffffff) | v << lo)
    return sorted(s)

def main():
    jobs = [(16, isa, list(range(a, a + 8192))) for isa in ("32", "64") for a in range(0, 65536, 8192)]
    jobs = [(w, i, [x for x in ws if x & 3 != 3]) for w, i, ws in jobs]
    ws = words32()
    jobs += [(32, isa, ws[k:k + 50000]) for isa in ("32", "64") for k in range(0, len(ws), 50000)]
    total, diffs = collections.Counter(), []
    with ProcessPoolExecutor(int(os.environ.get("JOBS", 8))) as ex:
        for c, out in ex.map(job, jobs):
            total += c; diffs += out
    for k, v in sorted(total.items()): print(v, k)
    kinds = collections.defaultdict(list)
    for d in diffs: kinds[(d[0], d[1], d[3] and d[3][0], d[4] and d[4][0])].append(d)
    for k, v in sorted(kinds.items(), key=str): print("DIFFERENT", k, len(v), hex(v[0][2]), v[0][3:], hex(v[-1][2]), v[-1][3:])
    return 1 if diffs else 0

if __name__ == "__main__":
    sys.exit(main())
