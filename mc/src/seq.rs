//! C16: results do not depend on earlier calls.
use crate::calls::{about, bases, exec, Kind, Op, Res};
use crate::checks::{Errors, Report, ALL, W32};
use crate::engine::{self, guarded, panic_message, Counts, Swept, Violation};
use crate::memory::{thread_locals, Pristine, Tripwire};
use crate::ops::*;
use crate::pool::{self, Worker};
use crate::spec::Spec;
use crate::states::{meet_all, reach};
use crate::{sys, text};
use raki::{Decode, Instruction, OpcodeKind};
use std::sync::atomic::Ordering::*;
use std::time::Duration;

pub const PANICKED: Res = Res {
    obs: Obs { err: 253, id: NO_OPC, rd: NONE, rs1: NONE, rs2: NONE, has_imm: false, imm: 0, fmt: 0, compressed: false },
    text: 0,
};
#[inline]
pub fn call(k: &[OpcodeKind], op: &Op) -> Res {
    guarded(|| exec(k, op)).unwrap_or(PANICKED)
}
pub fn show(r: &Res) -> String {
    if r.obs.err == 253 { panic_message() } else { r.show() }
}

// ---- complete tours of the word space ----

pub const BLOCK: u64 = 1 << 14;
pub const BLOCKS: u64 = ALL / BLOCK;

#[inline(always)]
pub fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29)
}
#[inline(always)]
pub fn mix_obs(h: u64, o: &Obs) -> u64 {
    let a = u64::from(o.err) | u64::from(o.id) << 8 | u64::from(o.fmt) << 24 | u64::from(o.has_imm) << 32 | u64::from(o.compressed) << 33;
    let h = mix(h, a);
    let h = mix(h, u64::from(o.rd) | u64::from(o.rs1) << 32);
    mix(h, u64::from(o.rs2) | u64::from(o.imm as u32) << 32)
}

/// How a tour visits the space.
#[derive(Clone, Copy, PartialEq)]
enum Order {
    Up,
    Down,
    /// within a block, neighbours are far apart
    Stride,
}

/// Every public call about one word; returns a digest of the results. The number of calls goes to `calls`.
#[inline(always)]
pub fn visit(item: u64, down: bool, calls: &mut u64) -> u64 {
    let (w, h, wide) = (item as u32, item as u16, item < W32);
    let mut sum = 0u64;
    let mut texts = (NO_OPC, 0u64);
    for n in 0..2 {
        let i = if down { 1 - n } else { n };
        let isa = isa_of(i);
        let mut d = mix(item, i as u64);
        let r = if wide { w.decode(isa) } else { h.decode(isa) };
        let k = if wide { w.parse_opcode(isa) } else { h.parse_opcode(isa) };
        *calls += 2;
        d = mix_obs(d, &obs(&r));
        match k {
            Err(e) => d = mix(d, u64::from(err_id(&e))),
            Ok(k) => {
                let reg = |r: Result<Option<usize>, _>| r.map_or_else(|e| 0x100 | u64::from(err_id(&e)), |v| u64::from(reg(v)) << 16);
                let imm = |r: Result<Option<i32>, _>| r.map_or_else(|e| 0x100 | u64::from(err_id(&e)), |v| v.map_or(1, |v| u64::from(v as u32) << 16));
                d = mix(d, u64::from(opc_id(&k)));
                let q = if wide {
                    [reg(w.parse_rd(&k)), reg(w.parse_rs1(&k)), reg(w.parse_rs2(&k)), imm(w.parse_imm(&k, isa))]
                } else {
                    [reg(h.parse_rd(&k)), reg(h.parse_rs1(&k)), reg(h.parse_rs2(&k)), imm(h.parse_imm(&k, isa))]
                };
                *calls += 4;
                for v in q {
                    d = mix(d, v);
                }
            }
        }
        if let Ok(inst) = &r {
            // the text is made once per word, by the first ISA visited that accepts it
            if texts.0 != opc_id(&inst.opc) {
                let mut b = text::Buf::new();
                b.put(inst);
                *calls += 1;
                let mut t = 0;
                for c in b.bytes().chunks(8) {
                    let mut x = [0; 8];
                    x[..c.len()].copy_from_slice(c);
                    t = mix(t, u64::from_le_bytes(x));
                }
                texts = (opc_id(&inst.opc), t);
            }
            d = mix(d, texts.1);
        }
        sum = sum.wrapping_add(d);
    }
    if wide {
        sum = sum.wrapping_add(mix_obs(item, &obs(&Instruction::try_from(w as usize))));
        *calls += 1;
    }
    sum
}
fn position(order: Order, n: u64) -> u64 {
    match order {
        Order::Up => n,
        Order::Down => BLOCK - 1 - n,
        Order::Stride => (n * 5_461 + 77) % BLOCK,
    }
}

/// What a tour under write protection saw.
pub struct Shared {
    /// calls that wrote to a static (at most a few per writing instruction)
    pub writers: Vec<Op>,
    pub sites: usize,
    /// bytes of the thread-local block changed
    pub tls: bool,
    pub n: Counts,
    pub failed: Option<Violation>,
    pub cut: bool,
    digests: Vec<u64>,
}
impl Shared {
    pub fn stateless(&self) -> bool {
        self.writers.is_empty() && !self.tls
    }
}

/// Digests of an ascending tour of all words.
pub fn whole_tour(time: Duration) -> (pool::Outcome, Vec<u64>) {
    tour(Order::Up, None, None, time)
}

/// (The digest of a block that could not be visited in time is 0.)
fn tour(order: Order, wire: Option<&'static Tripwire>, watch: Option<u64>, time: Duration) -> (pool::Outcome, Vec<u64>) {
    let digests = sys::shared_mem(BLOCKS as usize * 8) as *mut u64;
    let per = BLOCKS.div_ceil(engine::threads() as u64);
    let out = pool::run(BLOCKS, per, time, &|b| format!("the tour of words from {:#x}", b * BLOCK), |w, item| {
        if w.expired() {
            return;
        }
        let block = if order == Order::Down { BLOCKS - 1 - item } else { item };
        let (mut sum, mut calls, mut found) = (0u64, 0u64, 0u64);
        if let Some(wire) = wire {
            wire.arm();
        }
        let tls = Tls::now();
        let mut n = 0;
        while n < BLOCK {
            let word = block * BLOCK + position(order, n);
            let r = guarded(|| {
                let mut sum = 0u64;
                while n < BLOCK {
                    let word = block * BLOCK + position(order, n);
                    n += 1;
                    let d = visit(word, order == Order::Down, &mut calls);
                    sum = sum.wrapping_add(d);
                    if watch == Some(block) {
                        w.slot.data[(word % BLOCK) as usize].store(d, Relaxed);
                    }
                    if let Some(wire) = wire {
                        if wire.hit() != 0 {
                            break;
                        }
                    }
                }
                sum
            });
            sum = sum.wrapping_add(r.unwrap_or_else(|| mix(word, 0xdead)));
            if let Some(wire) = wire {
                let rip = wire.hit();
                if rip != 0 {
                    // remember a few words per writing instruction and block; then look no further in this block
                    let word = block * BLOCK + position(order, n - 1);
                    w.note(word, rip as u64);
                    found += 1;
                    wire.clear();
                    if found < 64 {
                        wire.rearm();
                    }
                }
            }
        }
        if let Some(wire) = wire {
            wire.disarm();
        }
        w.slot.n[4].fetch_max(tls.changed().into(), Relaxed);
        unsafe { *digests.add(block as usize) = sum };
        w.add(0, 2 * BLOCK);
        w.add(1, calls);
    });
    let v = unsafe { std::slice::from_raw_parts(digests, BLOCKS as usize).to_vec() };
    (out, v)
}

/// Words near every instruction, all halfwords, and all words with one simple half.
pub fn lite_words(s: &Spec) -> Vec<u64> {
    let mut words: Vec<u64> = vec![];
    for (w, wide, _) in bases(s) {
        let (bits, tag) = if wide { (32, 0) } else { (16, W32) };
        for a in 0..bits {
            for b in a..bits {
                for c in b..bits {
                    words.push(tag + u64::from(w ^ ((1u32 << a) | (1 << b) | (1 << c))));
                }
            }
        }
        if wide {
            words.extend((0..1u64 << 13).map(|h| h << 19 | u64::from(w & 0x7ffff)));
            words.extend((0..1u64 << 13).map(|h| h << 7 | u64::from(w & !(0x1fff << 7))));
        }
    }
    words.extend(W32..ALL);
    for half in 0..1u64 << 16 {
        for other in [0, 0xffff, 0x5a96, 0xa569] {
            words.push(half << 16 | other);
            words.push(other << 16 | half);
        }
    }
    words.sort_unstable();
    words.dedup();
    words
}
/// As `shared_state`, but over words near every instruction and all words with one simple half.
pub fn shared_state_lite(k: &[OpcodeKind], s: &Spec) -> Shared {
    let wire: &'static Tripwire = Box::leak(Box::new(Tripwire::new()));
    let words = lite_words(s);
    let chunks = words.len().div_ceil(4096) as u64;
    let out = pool::run(chunks, 4, Duration::from_secs(600), &|c| format!("words from {:#x}", words[c as usize * 4096]), |w, c| {
        wire.arm();
        let tls = Tls::now();
        let mut calls = 0;
        for word in words.iter().skip(c as usize * 4096).take(4096) {
            std::hint::black_box(guarded(|| visit(*word, false, &mut calls)));
            let rip = wire.hit();
            if rip != 0 {
                w.note(*word, rip as u64);
                wire.rearm();
            }
        }
        wire.disarm();
        w.slot.n[4].fetch_max(tls.changed().into(), Relaxed);
        w.add(0, words.len().min(4096) as u64);
        w.add(1, calls);
    });
    rest_of_shared_state(k, s, wire, out, vec![])
}

/// The executable's thread-local block at some moment.
struct Tls(Option<crate::memory::Region>, Vec<u8>);
impl Tls {
    fn now() -> Tls {
        let r = thread_locals();
        Tls(r, r.map_or(vec![], |r| r.bytes().to_vec()))
    }
    fn changed(&self) -> bool {
        self.0.is_some_and(|r| r.bytes() != &self.1[..])
    }
}
impl Worker {
    /// Remember a few words per writing instruction.
    fn note(&self, word: u64, rip: u64) {
        let seen = self.slot.n[5].load(Relaxed) as usize;
        let same = (0..seen).filter(|i| self.slot.data[2 * i + 1].load(Relaxed) == rip).count();
        if same < 6 && seen < 4000 {
            self.slot.data[2 * seen].store(word, Relaxed);
            self.slot.data[2 * seen + 1].store(rip, Relaxed);
            self.add(5, 1);
        }
    }
}

/// Tour the whole space with all statics write-protected.
pub fn shared_state(k: &[OpcodeKind], s: &Spec) -> Shared {
    let wire: &'static Tripwire = Box::leak(Box::new(Tripwire::new()));
    let (out, digests) = tour(Order::Up, Some(wire), None, Duration::from_secs(450));
    rest_of_shared_state(k, s, wire, out, digests)
}
/// Queries with every opcode, all texts of opcodes, conversions of large values, and outputs that fail.
pub fn odd_calls(k: &[OpcodeKind], s: &Spec) -> Vec<Op> {
    let mut more = vec![];
    for id in 0..k.len() as u16 {
        more.push(Op { kind: Kind::OpcodeText, isa: 0, opc: id, v: 0 });
        for (w, wide, _) in bases(s) {
            for isa in 0..2 {
                for q in 0..4 {
                    more.push(Op { kind: if wide { Kind::Query32(q) } else { Kind::Query16(q) }, isa, opc: id, v: w.into() });
                }
            }
        }
    }
    for (w, wide, _) in bases(s) {
        for b in 16..64 {
            more.push(Op::new(Kind::Convert, 0, u64::from(w) | 1 << b));
        }
        for room in 0..24 {
            more.push(Op::new(if wide { Kind::Cut32(room) } else { Kind::Cut16(room) }, 1, w.into()));
        }
    }
    more
}
fn rest_of_shared_state(k: &[OpcodeKind], s: &Spec, wire: &'static Tripwire, out: pool::Outcome, digests: Vec<u64>) -> Shared {
    let mut n = Counts { states: out.n[0], calls: out.n[1], ..Counts::default() };
    let mut tls = out.n[4] != 0;
    let mut hits: Vec<(u64, u64)> = vec![];
    for sl in &out.slots {
        for i in 0..sl.n[5].load(Relaxed) as usize {
            hits.push((sl.data[2 * i + 1].load(Relaxed), sl.data[2 * i].load(Relaxed)));
        }
    }
    let cut = out.cut;
    let mut failed = out.violation.map(|v| Violation { item: v.0, msg: v.1 });
    hits.sort_unstable();
    let more = odd_calls(k, s);
    let out = pool::run(1, 1, Duration::from_secs(3600), &|_| "queries with every opcode".into(), |w, _| {
        wire.arm();
        let tls = Tls::now();
        for (i, op) in more.iter().enumerate() {
            call(k, op);
            if wire.hit() != 0 {
                let seen = w.slot.n[5].load(Relaxed) as usize;
                if seen < 512 {
                    w.slot.data[seen].store(i as u64, Relaxed);
                    w.add(5, 1);
                }
                wire.rearm();
            }
        }
        wire.disarm();
        w.slot.n[4].fetch_max(tls.changed().into(), Relaxed);
        w.add(1, more.len() as u64);
    });
    n.calls += out.n[1];
    n.states += out.n[1];
    tls |= out.n[4] != 0;
    failed = failed.or(out.violation.map(|v| Violation { item: v.0, msg: v.1 }));
    let mut writers = vec![];
    let mut sites: Vec<u64> = hits.iter().map(|h| h.0).collect();
    sites.dedup();
    for site in &sites {
        for h in hits.iter().filter(|h| h.0 == *site).take(4) {
            let wide = h.1 < W32;
            about(h.1 as u32 & if wide { !0 } else { 0xffff }, wide, some_opcode(wide), &mut writers);
        }
    }
    for i in 0..(out.n[5] as usize).min(48) {
        writers.push(more[out.slots[0].data[i * (out.n[5] as usize / 48).max(1)].load(Relaxed) as usize]);
    }
    // keep it bounded: spread over the sites
    if writers.len() > 600 {
        let step = writers.len().div_ceil(600);
        writers = writers.into_iter().step_by(step).collect();
    }
    Shared { writers, sites: sites.len(), tls, n, failed, cut, digests }
}
/// An opcode of the given width to query with.
fn some_opcode(wide: bool) -> u16 {
    let name = if wide { "BaseI.ADDI" } else { "C.ADDI" };
    NAMES.iter().position(|n| *n == name).unwrap_or(0) as u16
}

// ---- call sequences ----

/// Results of the calls when each is made first in a process.
struct First {
    ops: Vec<Op>,
    res: Vec<Res>,
}
fn first(k: &[OpcodeKind], mem: &Pristine, ops: Vec<Op>) -> Result<First, Violation> {
    let n = ops.len();
    let table = sys::shared_mem(n * std::mem::size_of::<Res>()) as *mut Res;
    let out = pool::run(n as u64, 64, Duration::from_secs(600), &|i| ops[i as usize].show(), |w, i| {
        // a process of its own for every sixteenth call; the statics are put back for all
        mem.restore();
        if i % 16 == 0 {
            let pid = sys::spawn(|| {
                unsafe { *table.add(i as usize) = call(k, &ops[i as usize]) };
                0
            });
            let code = sys::wait(pid);
            if code != 0 {
                w.violation(&format!("{}: as first call of a process it ends with code {code}", ops[i as usize].show()));
            }
        } else {
            unsafe { *table.add(i as usize) = call(k, &ops[i as usize]) };
        }
    });
    if let Some(v) = out.violation {
        return Err(Violation { item: v.0, msg: v.1 });
    }
    let res = unsafe { std::slice::from_raw_parts(table, n).to_vec() };
    Ok(First { ops, res })
}

fn blame(w: &Worker, f: &First, history: &[usize], at: usize, got: &Res) {
    let mut m = format!("{} returned {} instead of {}, which it returns when called first; calls before it:", f.ops[at].show(), show(got), show(&f.res[at]));
    for h in history.iter().rev().take(12).rev() {
        m += &format!("\n    {}", f.ops[*h].show());
    }
    if history.is_empty() {
        m += " none";
    }
    w.violation(&m);
}

struct Explorer<'a> {
    k: &'a [OpcodeKind],
    mem: &'a Pristine,
    /// the statics are put back before every sequence
    reset: bool,
    n: Counts,
    sequences: u64,
    longest: u64,
    violation: Option<Violation>,
    cut: bool,
}
impl Explorer<'_> {
    fn done(&self) -> bool {
        self.violation.is_some()
    }
    fn take(&mut self, out: pool::Outcome) {
        self.sequences += out.n[0];
        self.n.states += out.n[0];
        self.n.calls += out.n[1];
        self.n.validated += out.n[1];
        self.cut |= out.cut;
        if let Some(v) = out.violation {
            self.violation = Some(Violation { item: v.0, msg: v.1 });
        }
    }
    /// All ordered pairs over the alphabet.
    fn pairs(&mut self, f: &First) {
        if self.done() {
            return;
        }
        let n = f.ops.len();
        let out = pool::run(n as u64, 8, Duration::from_secs(200), &|i| format!("pairs starting with {}", f.ops[i as usize].show()), |w, a| {
            let a = a as usize;
            for b in 0..n {
                if self.reset {
                    self.mem.restore();
                }
                let ra = call(self.k, &f.ops[a]);
                if ra != f.res[a] {
                    let before: Vec<usize> = if self.reset { vec![] } else { vec![a, b.saturating_sub(1)] };
                    return blame(w, f, &before, a, &ra);
                }
                let rb = call(self.k, &f.ops[b]);
                if rb != f.res[b] {
                    return blame(w, f, &[a], b, &rb);
                }
            }
            w.add(0, n as u64);
            w.add(1, 2 * n as u64);
        });
        self.longest = self.longest.max(2);
        self.take(out);
    }
    /// All sequences of the given length over each of the given small alphabets (indices into f).
    fn depth(&mut self, f: &First, families: &[Vec<usize>], depth: u32) {
        if self.done() {
            return;
        }
        let out = pool::run(families.len() as u64, 1, Duration::from_secs(200), &|i| format!("sequences around {}", f.ops[families[i as usize][0]].show()), |w, i| {
            let fam = &families[i as usize];
            let n = fam.len() as u64;
            let total = n.pow(depth);
            let mut seq = vec![0usize; depth as usize];
            for mut c in 0..total {
                for s in seq.iter_mut() {
                    *s = fam[(c % n) as usize];
                    c /= n;
                }
                if self.reset {
                    self.mem.restore();
                }
                for (p, &at) in seq.iter().enumerate() {
                    let r = call(self.k, &f.ops[at]);
                    if r != f.res[at] {
                        return blame(w, f, &seq[..p], at, &r);
                    }
                }
                w.slot.n[pool::EXTRA - 1].fetch_add(1, Relaxed);
            }
            w.add(0, total);
            w.add(1, total * u64::from(depth));
        });
        self.longest = self.longest.max(depth.into());
        self.take(out);
    }
    /// Each call over and over again, and then a few others.
    fn repeats(&mut self, f: &First, times: u64, step: usize) {
        if self.done() {
            return;
        }
        let n = f.ops.len();
        let out = pool::run((n / step) as u64, 4, Duration::from_secs(300), &|i| format!("repeating {}", f.ops[i as usize * step].show()), |w, i| {
            let i = i as usize * step;
            if self.reset {
                self.mem.restore();
            }
            for t in 0..times {
                let r = call(self.k, &f.ops[i]);
                if r != f.res[i] {
                    w.violation(&format!("{} returned {} instead of {} after being called {t} times", f.ops[i].show(), show(&r), show(&f.res[i])));
                    return;
                }
                if t % 65536 == 0 {
                    w.add(pool::EXTRA - 1, 1);
                }
            }
            for d in 0..16 {
                let j = (i + d + n - 8) % n;
                let r = call(self.k, &f.ops[j]);
                if r != f.res[j] {
                    return blame(w, f, &[i], j, &r);
                }
            }
            w.add(0, 1);
            w.add(1, times + 16);
        });
        self.longest = self.longest.max(times);
        self.take(out);
    }
}

/// Calls about one word and its closest relatives, most confusable first.
pub fn family(w: u32, wide: bool, n: usize) -> Vec<Op> {
    let v = u64::from(w);
    let (d, t, o) = if wide { (Kind::Decode32, Kind::Text32, Kind::Opcode32) } else { (Kind::Decode16, Kind::Text16, Kind::Opcode16) };
    let flip = |b: u32| u64::from(w ^ (1 << if wide { b } else { b / 2 }));
    let mut f = vec![
        Op::new(d, 0, v),
        Op::new(d, 1, v),
        Op::new(d, 0, flip(7)),
        Op::new(d, 1, flip(24)),
        Op::new(t, 1, v),
        Op::new(d, 0, flip(12)),
        Op::new(Kind::Convert, 0, v),
        Op::new(o, 0, flip(30)),
        Op::new(if wide { Kind::Decode16 } else { Kind::Decode32 }, 0, v & 0xffff),
        Op::new(d, 1, flip(15)),
        Op::new(t, 0, flip(20)),
        Op::new(d, 0, flip(5)),
    ];
    f.truncate(n);
    f
}

/// Rejected words: two of every admissible error and major opcode, and of compressed quadrants.
fn rejects(s: &Spec) -> Vec<(u32, bool, u16)> {
    let errors = Errors::new(s);
    let mut seen: std::collections::HashMap<(u32, u16, usize), u32> = Default::default();
    let mut out = vec![];
    let mut put = |w: u32, wide: bool| {
        let class = |isa| if wide { errors.admissible32(s, w, isa) } else { errors.admissible16(s, w as u16, isa) };
        for isa in 0..2 {
            if if wide { s.find32(w, isa).is_some() } else { s.find16(w as u16, isa).is_some() } {
                continue;
            }
            let n = seen.entry((if wide { w & 127 } else { 128 + (w & 3) }, class(isa), isa)).or_default();
            *n += 1;
            if *n <= 2 {
                out.push((w, wide, some_opcode(wide)));
                return;
            }
        }
    };
    for top in 0..1u32 << 7 {
        for low in 0..1u32 << 10 {
            put(top << 25 | 0x0145_0500 & 0x01ff_8f80 | (low >> 7) << 12 | low & 127, true);
        }
    }
    for h in 0..1u32 << 16 {
        put(h, false);
    }
    out
}

/// Decodings and texts of every instruction with other operands: few and many bits set, every register.
fn fillings(s: &Spec) -> Vec<Op> {
    let mut out = vec![];
    let mut formats = vec![];
    for (wide, e) in s.w32.iter().map(|e| (true, e)).chain(s.w16.iter().map(|e| (false, e))) {
        let free = !e.mask & if wide { u32::MAX } else { 0xffff };
        let mut fills = vec![0, u32::MAX, 0x0f0f_f0f0, 0xf0f0_0f0f];
        if !formats.contains(&(wide, e.fmt)) {
            formats.push((wide, e.fmt));
            fills.extend((0..32).map(|r| if wide { r << 7 | r << 15 | r << 20 } else { r << 2 | r << 7 }));
        }
        for fill in fills {
            let v = u64::from(e.value | (fill & free));
            let (d, t) = if wide { (Kind::Decode32, Kind::Text32) } else { (Kind::Decode16, Kind::Text16) };
            out.extend([Op::new(d, 0, v), Op::new(d, 1, v), Op::new(t, 0, v), Op::new(t, 1, v)]);
        }
    }
    out
}

fn indices(f: &mut Vec<Op>, ops: &[Op]) -> Vec<usize> {
    ops.iter()
        .map(|o| {
            f.push(*o);
            f.len() - 1
        })
        .collect()
}

pub fn histories(s: &Spec, thorough: bool) -> Report {
    let k = all_opcodes();
    let mem = Pristine::take();
    let seen = shared_state(&k, s);
    let mut x = Explorer {
        k: &k,
        mem: &mem,
        reset: !seen.stateless(),
        n: seen.n,
        sequences: 0,
        longest: 0,
        violation: None,
        cut: seen.cut,
    };
    x.violation = seen.failed;
    println!("statics: {} bytes, written at {} places; thread-locals {}", mem.regions.iter().map(|r| r.len()).sum::<usize>(), seen.sites, if seen.tls { "written" } else { "not written" });

    // the alphabet: every kind of call about a word of every instruction, and about what writes state
    let mut base = bases(s);
    base.extend(rejects(s));
    for w in &seen.writers {
        let wide = !matches!(w.kind, Kind::Decode16 | Kind::Text16 | Kind::Opcode16 | Kind::Query16(_) | Kind::Cut16(_));
        if !base.iter().any(|b| u64::from(b.0) == w.v && b.1 == wide) && base.len() < 1000 {
            base.push((w.v as u32, wide, w.opc));
        }
    }
    let mut all = seen.writers.clone();
    for (w, wide, opc) in &base {
        about(*w, *wide, *opc, &mut all);
    }
    for opc in 0..k.len() as u16 {
        all.push(Op { kind: Kind::OpcodeText, isa: 0, opc, v: 0 });
    }
    all.sort_unstable();
    all.dedup();
    let run = || -> Result<(), Violation> {
        let f = first(&k, &mem, all)?;
        if x.reset {
            // the states calls can bring the statics into, each followed by every call, and some by many more
            let (limit, most, time) = if thorough { (200_000, 1000, 200) } else { (20_000, 300, 60) };
            let mut more = f.ops.clone();
            more.extend(fillings(s));
            more.sort_unstable();
            more.dedup();
            let f = first(&k, &mem, more)?;
            let g = reach(&k, &mem, &f.ops, &f.res, limit, Duration::from_secs(time / 2));
            println!("states of the statics: {}{}, {} transitions", g.len(), if g.closed { ", all there are with these calls" } else { "" }, g.transitions);
            x.n.states += g.len() as u64;
            x.n.calls += g.transitions;
            x.n.validated += g.transitions;
            if let Some(v) = g.violation {
                return Err(v);
            }
            let (done, calls, bad, cut) = meet_all(&k, s, &g, &f.ops, &f.res, most, Duration::from_secs(time));
            println!("{done} of these states followed by every one of many words, {calls} calls");
            x.n.calls += calls;
            x.n.validated += calls;
            x.cut |= cut;
            if let Some(v) = bad {
                return Err(v);
            }
        }
        x.pairs(&f);
        x.repeats(&f, if thorough { 1 << 20 } else { 70_000 }, 1);
        if x.reset {
            // the same pairs on top of one another: much longer histories
            x.reset = false;
            x.pairs(&f);
            x.reset = true;
        }
        // a word, its one- and two-bit relatives, on both ISAs
        let mut ops = vec![];
        let mut fams = vec![];
        for (w, wide, _) in &base {
            let d = if *wide { Kind::Decode32 } else { Kind::Decode16 };
            let bits = if *wide { 32 } else { 16 };
            let own = indices(&mut ops, &[Op::new(d, 0, (*w).into()), Op::new(d, 1, (*w).into())]);
            for a in 0..bits {
                for b in a..bits {
                    let other = u64::from(w ^ ((1u32 << a) | (1 << b)));
                    let mut fam = own.clone();
                    fam.extend(indices(&mut ops, &[Op::new(d, 0, other), Op::new(d, 1, other)]));
                    fams.push(fam);
                }
            }
        }
        let f = first(&k, &mem, ops)?;
        x.depth(&f, &fams, if thorough { 5 } else { 3 });
        // longer sequences over the families of every instruction
        for (size, depth) in if thorough { [(12, 5), (8, 7), (4, 11)] } else { [(12, 4), (8, 5), (4, 8)] } {
            let mut ops = vec![];
            let fams: Vec<Vec<usize>> = base.iter().map(|(w, wide, _)| indices(&mut ops, &family(*w, *wide, size))).collect();
            let f = first(&k, &mem, ops)?;
            x.depth(&f, &fams, depth);
        }
        // triples across instructions
        let mut ops = vec![];
        let step = base.len().div_ceil(if thorough { 250 } else { 120 }).max(1);
        for (w, wide, _) in base.iter().step_by(step) {
            ops.extend(family(*w, *wide, if thorough { 3 } else { 2 }));
        }
        let f = first(&k, &mem, ops)?;
        let n = f.ops.len();
        let fams: Vec<usize> = (0..n).collect();
        x.triples(&f, &fams);
        Ok(())
    };
    if let Err(v) = run() {
        x.violation = x.violation.or(Some(v));
    }
    // complete tours in other orders
    let mut tours = u64::from(!seen.cut);
    if (thorough || x.reset) && !x.done() {
        for order in [Order::Down, Order::Stride, Order::Up] {
            if engine::elapsed() > pool::ENOUGH {
                x.cut = true;
                break;
            }
            let (out, d) = tour(order, None, None, Duration::from_secs(300));
            x.n.states += out.n[0];
            x.n.calls += out.n[1];
            tours += u64::from(!out.cut);
            x.cut |= out.cut;
            if let Some(v) = out.violation {
                x.violation = Some(Violation { item: v.0, msg: v.1 });
                break;
            }
            x.n.validated += d.len() as u64;
            if let Some(b) = (0..d.len()).find(|b| d[*b] != seen.digests[*b] && d[*b] != 0 && seen.digests[*b] != 0) {
                x.violation = Some(locate(order, b as u64));
                break;
            }
        }
    }
    let samples = vec![
        format!("{} sequences up to length {}", x.sequences, x.longest),
        format!("{tours} complete tours; statics written at {} places", seen.sites),
        "after decode(0x00208023, Rv32): the same call, and every call differing in one or two bits or the ISA".into(),
    ];
    let mut n = x.n;
    n.extra[0] = x.sequences;
    n.extra[1] = x.longest;
    n.extra[2] = seen.sites as u64;
    n.extra[3] = tours;
    let swept = Swept { n, samples, violation: x.violation, unrepeated: None, cut: x.cut };
    Report { swept, extra: vec!["call_sequences", "longest_sequence", "places_writing_statics", "complete_tours"], known: None }
}

impl Explorer<'_> {
    fn triples(&mut self, f: &First, all: &[usize]) {
        if self.done() {
            return;
        }
        let n = all.len() as u64;
        let out = pool::run(n * n, 32, Duration::from_secs(200), &|i| format!("triples starting with {}", f.ops[all[(i / n) as usize]].show()), |w, i| {
            let (a, b) = (all[(i / n) as usize], all[(i % n) as usize]);
            for &c in all {
                if self.reset {
                    self.mem.restore();
                }
                let seq = [a, b, c];
                for (p, &at) in seq.iter().enumerate() {
                    let r = call(self.k, &f.ops[at]);
                    if r != f.res[at] {
                        return blame(w, f, &seq[..p], at, &r);
                    }
                }
            }
            w.add(0, n);
            w.add(1, 3 * n);
        });
        self.longest = self.longest.max(3);
        self.take(out);
    }
}

/// Two tours disagree on a block: find the word.
fn locate(order: Order, block: u64) -> Violation {
    let data = |order| {
        let (out, _) = tour(order, None, Some(block), engine::left() / 2);
        let mut v = vec![0u64; BLOCK as usize];
        for s in out.slots {
            for (v, d) in v.iter_mut().zip(&s.data) {
                *v |= d.load(Relaxed);
            }
        }
        v
    };
    let (a, b) = (data(Order::Up), data(order));
    let how = match order {
        Order::Up => "a second ascending",
        Order::Down => "a descending",
        Order::Stride => "a striding",
    };
    let at = (0..BLOCK).find(|i| a[*i as usize] != b[*i as usize]);
    let word = block * BLOCK + at.unwrap_or(0);
    let msg = match at {
        Some(_) => format!("calls about {word:#x} return something else in {how} tour of all words than in the ascending one"),
        None => format!("calls about words {:#x}..{:#x} return something else in {how} tour of all words than in the ascending one", word, word + BLOCK),
    };
    Violation { item: word, msg }
}
