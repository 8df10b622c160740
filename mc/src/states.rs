//! C16, for code that writes statics at all: the states those statics can be brought into, each followed by every
//! call. A state is the contents of the cells that some call changes; putting a state back and making a call is one
//! transition of the real code.
use crate::calls::{exec, Kind, Op, Res};
use crate::checks::{ALL, W32};
use crate::engine::{guarded, Violation};
use crate::memory::Pristine;
use crate::ops::*;
use crate::pool;
use crate::seq::{call, mix, mix_obs, show};
use crate::spec::Spec;
use crate::{sys, text};
use raki::{Decode, Instruction, OpcodeKind};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

/// The bytes of the statics that calls change, in words of eight.
pub struct Cells {
    at: Vec<(usize, usize)>,
    pub size: usize,
}
impl Cells {
    /// Make all the calls, one after another and each on its own, and see which bytes differ afterwards.
    pub fn find(k: &[OpcodeKind], mem: &Pristine, ops: &[Op]) -> Cells {
        let total: usize = mem.regions.iter().map(|r| r.len() / 8).sum();
        let dirty = sys::shared_mem(total) as *mut u8;
        let pid = sys::spawn(|| {
            for alone in [false, true] {
                for op in ops {
                    if alone {
                        mem.restore();
                    }
                    call(k, op);
                    mem.changed(|n| unsafe { *dirty.add(n) = 1 });
                }
            }
            0
        });
        sys::wait(pid);
        let flags = unsafe { std::slice::from_raw_parts(dirty, total) };
        let (mut at, mut size, mut n): (Vec<(usize, usize)>, usize, usize) = (vec![], 0, 0);
        for r in &mem.regions {
            for i in 0..r.len() / 8 {
                if flags[n] != 0 {
                    let a = r.lo + 8 * i;
                    match at.last_mut() {
                        Some(l) if l.0 + l.1 == a => l.1 += 8,
                        _ => at.push((a, 8)),
                    }
                    size += 8;
                }
                n += 1;
            }
        }
        Cells { at, size }
    }
    fn read(&self, to: &mut [u8]) {
        let mut n = 0;
        for (a, len) in &self.at {
            unsafe { std::ptr::copy_nonoverlapping(*a as *const u8, to.as_mut_ptr().add(n), *len) };
            n += len;
        }
    }
    #[inline]
    fn write(&self, from: &[u8]) {
        let mut n = 0;
        for (a, len) in &self.at {
            unsafe { std::ptr::copy_nonoverlapping(from.as_ptr().add(n), *a as *mut u8, *len) };
            n += len;
        }
    }
}
fn hash(b: &[u8]) -> u64 {
    b.chunks(8).fold(0x51ed, |h, c| mix(h, c.iter().fold(0, |v, x| v << 8 | u64::from(*x))))
}

struct State {
    bytes: Vec<u8>,
    parent: usize,
    op: usize,
    /// if some byte has a value here that it had in no earlier state: how many values such a byte takes
    news: usize,
}
pub struct Graph {
    states: Vec<State>,
    cells: Cells,
    /// no state was left unexpanded
    pub closed: bool,
    pub transitions: u64,
    pub violation: Option<Violation>,
}
impl Graph {
    pub fn len(&self) -> usize {
        self.states.len()
    }
    /// The calls that lead to a state.
    fn path(&self, mut s: usize) -> Vec<usize> {
        let mut p = vec![];
        while s != 0 {
            p.push(self.states[s].op);
            s = self.states[s].parent;
        }
        p.reverse();
        p
    }
    fn blame(&self, ops: &[Op], s: usize, what: &str, got: &str, want: &str) -> String {
        let p = self.path(s);
        let mut m = format!("{what} returned {got} instead of {want}, which it returns when called first; calls before it:");
        if p.len() > 12 {
            m += &format!("\n    ({} calls)", p.len() - 12);
        }
        for i in p.iter().rev().take(12).rev() {
            m += &format!("\n    {}", ops[*i].show());
        }
        m
    }
}

/// The states reachable with the calls given; every call is made in every state and its result compared with the one
/// it gives when made first. States in which a byte that takes few values has a new one come first (the position in
/// some protocol, rather than one more remembered word), and then the order is breadth first. Ends when there is no
/// further state, or when `limit` states have been dealt with.
pub fn reach(k: &[OpcodeKind], mem: &Pristine, ops: &[Op], first: &[Res], limit: usize, time: Duration) -> Graph {
    let cells = Cells::find(k, mem, ops);
    let mut start = vec![0; cells.size];
    cells.read(&mut start); // this process makes no calls: its statics are as they were
    let record = 24 + cells.size;
    let room = ((256 << 20) / record).clamp(64, 1 << 20);
    let batch = (room / ops.len()).max(1);
    let most = (4 * limit).min((512 << 20) / (cells.size + 64)).max(2);
    let mut seen: HashSet<u64> = HashSet::from([hash(&start)]);
    let mut values: Vec<[bool; 256]> = start.iter().map(|b| std::array::from_fn(|v| v == usize::from(*b))).collect();
    let mut counts: Vec<usize> = vec![1; start.len()];
    let mut g = Graph { states: vec![State { bytes: start, parent: 0, op: 0, news: 0 }], cells, closed: true, transitions: 0, violation: None };
    let began = Instant::now();
    let mut todo = BinaryHeap::from([Reverse((0, 0))]);
    let mut done = 0;
    while !todo.is_empty() {
        if done >= limit || began.elapsed() > time {
            g.closed = false;
            break;
        }
        let now: Vec<usize> = (0..batch.min(limit - done)).map_while(|_| todo.pop()).map(|t| t.0 .1).collect();
        let area = sys::shared_mem(4096 + room * record);
        let used: &AtomicU64 = unsafe { &*(area as *const AtomicU64) };
        let out = pool::run(now.len() as u64, (now.len() as u64 / 64).clamp(1, 16), time, &|i| format!("calls in state {}", now[i as usize]), |w, i| {
            let s = now[i as usize];
            let mut now = vec![0; g.cells.size];
            let mut mine: HashSet<u64> = HashSet::new();
            for (n, op) in ops.iter().enumerate() {
                g.cells.write(&g.states[s].bytes);
                let r = call(k, op);
                if r != first[n] {
                    return w.violation(&g.blame(ops, s, &op.show(), &show(&r), &show(&first[n])));
                }
                g.cells.read(&mut now);
                let h = hash(&now);
                if !seen.contains(&h) && mine.insert(h) {
                    let at = used.fetch_add(1, Relaxed) as usize;
                    if at < room {
                        unsafe {
                            let p = area.add(4096 + at * record);
                            (p as *mut [u64; 3]).write_unaligned([h, s as u64, n as u64]);
                            std::ptr::copy_nonoverlapping(now.as_ptr(), p.add(24), now.len());
                        }
                    }
                }
                if n % 256 == 0 {
                    w.add(pool::EXTRA - 1, 1);
                }
            }
            w.add(0, ops.len() as u64);
        });
        g.transitions += out.n[0];
        done += now.len();
        if let Some(v) = out.violation {
            g.violation = Some(Violation { item: v.0, msg: v.1 });
            g.closed = false;
        }
        g.closed &= !out.cut && used.load(Relaxed) as usize <= room;
        // order of discovery by several processes is arbitrary: sort
        let mut found: Vec<(u64, u64, u64, usize)> = (0..(used.load(Relaxed) as usize).min(room))
            .map(|at| {
                let h = unsafe { (area.add(4096 + at * record) as *const [u64; 3]).read_unaligned() };
                (h[1], h[2], h[0], at)
            })
            .collect();
        found.sort_unstable();
        let bytes = |at: usize| unsafe { std::slice::from_raw_parts(area.add(4096 + at * record + 24), g.cells.size) };
        let mut fresh = vec![];
        for (parent, op, h, at) in found {
            if !seen.insert(h) {
                continue;
            }
            let mut new = vec![];
            for (i, b) in bytes(at).iter().enumerate() {
                if !std::mem::replace(&mut values[i][usize::from(*b)], true) {
                    counts[i] += 1;
                    new.push(i);
                }
            }
            fresh.push((parent, op, at, new));
        }
        for (parent, op, at, new) in fresh {
            let news = new.iter().map(|i| counts[*i]).min().unwrap_or(usize::MAX);
            if g.states.len() >= most && news > 64 {
                g.closed = false;
                continue;
            }
            todo.push(Reverse((news, g.states.len())));
            g.states.push(State { bytes: bytes(at).to_vec(), parent: parent as usize, op: op as usize, news });
        }
        sys::unmap(area, 4096 + room * record);
        if g.violation.is_some() {
            break;
        }
    }
    g
}

/// Words that meet any remembered one in some field: all register pairs, all upper fields, all function codes.
fn second_words(s: &Spec) -> Vec<u64> {
    let mut v: Vec<u64> = (W32..ALL).collect();
    for e in &s.w32 {
        let mut put = |x: u32| v.push(u64::from(e.value | (x & !e.mask)));
        for fill in [0u32, 0x5a96_a5a5 & !0x01ff_8f80] {
            for a in 0..32 {
                for b in 0..32 {
                    for c in [0, 1, 10, 31] {
                        put(fill | a << 7 | b << 15 | c << 20);
                        put(fill | c << 7 | a << 15 | b << 20);
                    }
                }
            }
        }
        for top in 0..1 << 12 {
            for (rd, rs1) in [(0, 0), (1, 0), (0, 1), (10, 10)] {
                put(top << 20 | rd << 7 | rs1 << 15);
            }
        }
        for fill in [0x5a96_a5a5u32, 0xa569_5a5a] {
            for a in 0..32 {
                for b in a..32 {
                    put(fill ^ ((1u32 << a) | (1 << b)));
                }
            }
        }
    }
    for top in 0..1u64 << 12 {
        for low in 0..1u64 << 8 {
            v.push(top << 20 | (low >> 5) << 12 | (low & 31) << 2 | 3);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// The calls about one word, each made in the given state; a digest of the results.
#[inline(always)]
fn meet(cells: &Cells, state: &[u8], item: u64) -> u64 {
    let (w, h, wide) = (item as u32, item as u16, item < W32);
    let decode = |i: usize| if wide { w.decode(isa_of(i)) } else { h.decode(isa_of(i)) };
    let mut sum = 0u64;
    for i in 0..2 {
        cells.write(state);
        let r = decode(i);
        sum = mix_obs(sum, &obs(&r));
        cells.write(state);
        let k = if wide { w.parse_opcode(isa_of(i)) } else { h.parse_opcode(isa_of(i)) };
        let Ok(k) = k else {
            sum = mix(sum, k.map_or_else(|e| u64::from(err_id(&e)), |_| 0));
            continue;
        };
        sum = mix(sum, u64::from(opc_id(&k)));
        cells.write(state);
        let imm = if wide { w.parse_imm(&k, isa_of(i)) } else { h.parse_imm(&k, isa_of(i)) };
        sum = mix(sum, imm.map_or_else(|e| 0x100 | u64::from(err_id(&e)), |v| v.map_or(1, |v| u64::from(v as u32) << 16)));
        if let (1, Ok(inst)) = (i, &r) {
            let mut b = text::Buf::new();
            cells.write(state);
            b.put(inst);
            for c in b.bytes().chunks(8) {
                let mut x = [0; 8];
                x[..c.len()].copy_from_slice(c);
                sum = mix(sum, u64::from_le_bytes(x));
            }
        }
    }
    cells.write(state);
    mix_obs(sum, &obs(&Instruction::try_from(item as usize & 0xffff_ffff)))
}
const MEET_CALLS: u64 = 7;

/// From as many of the states as time allows, the most different first: every word of `second_words`.
/// Returns (states done, calls, violation, cut).
pub fn meet_all(k: &[OpcodeKind], s: &Spec, g: &Graph, ops: &[Op], first: &[Res], most: usize, time: Duration) -> (u64, u64, Option<Violation>, bool) {
    let words = second_words(s);
    let n = words.len();
    let table = sys::shared_mem(n * 8) as *mut u64;
    const PART: usize = 1 << 14;
    let parts = n.div_ceil(PART) as u64;
    let digest = |state: &[u8], item: u64| guarded(|| meet(&g.cells, state, item)).unwrap_or(0xdead);
    let part = |p: u64| p as usize * PART..((p as usize + 1) * PART).min(n);
    let pristine = &g.states[0].bytes;
    let out = pool::run(parts, 1, time, &|p| format!("calls about {:#x} and following", words[p as usize * PART]), |w, p| {
        for i in part(p) {
            unsafe { *table.add(i) = digest(pristine, words[i]) };
        }
        w.add(0, PART as u64);
    });
    if out.violation.is_some() || out.cut {
        return (0, 0, out.violation.map(|v| Violation { item: v.0, msg: v.1 }), true);
    }
    // one state of every kind of call and result before a second of any kind
    let mut groups: HashMap<(Kind, u8, u16), usize> = HashMap::new();
    let mut order: Vec<(usize, usize)> = vec![];
    for i in 1..g.len() {
        let (op, r) = (&ops[g.states[i].op], &first[g.states[i].op]);
        let of = groups.entry((op.kind, r.obs.err, r.obs.id)).or_default();
        order.push((*of, i));
        *of += 1;
    }
    order.sort_unstable();
    // and every second one a state in which some byte has a new value
    let mut news: Vec<(usize, usize)> = (1..g.len()).map(|i| (g.states[i].news, i)).filter(|n| n.0 <= 64).collect();
    news.sort_unstable();
    let mut taken = HashSet::new();
    let mut both = vec![];
    for i in 0..order.len() {
        for (_, s) in news.get(i).into_iter().chain([&order[i]]) {
            if taken.insert(*s) {
                both.push((0, *s));
            }
        }
    }
    let mut order = both;
    order.truncate(most);
    let total = order.len() as u64 * parts;
    let out = pool::run(total, 4, time, &|i| format!("calls about {:#x} and following", words[(i % parts) as usize * PART]), |w, i| {
        let state = order[(i / parts) as usize].1;
        let bytes = &g.states[state].bytes;
        for j in part(i % parts) {
            let d = digest(bytes, words[j]);
            if d != unsafe { *table.add(j) } {
                let word = words[j];
                let what = if word < W32 { format!("some call about {:#010x}_u32", word) } else { format!("some call about {:#06x}_u16", word - W32) };
                let m = explain(k, g, state, word).unwrap_or_else(|| (what, "another result".into(), "the one".into()));
                return w.violation(&g.blame(ops, state, &m.0, &m.1, &m.2));
            }
        }
        w.add(0, 1);
        w.add(1, PART as u64 * MEET_CALLS);
    });
    (out.n[0] / parts.max(1), out.n[1], out.violation.map(|v| Violation { item: v.0, msg: v.1 }), out.cut)
}

/// Which call about the word differs between the first state and this one?
fn explain(k: &[OpcodeKind], g: &Graph, state: usize, word: u64) -> Option<(String, String, String)> {
    let mut about = vec![];
    let wide = word < W32;
    crate::calls::about(word as u32 & if wide { !0 } else { 0xffff }, wide, 0, &mut about);
    for op in about {
        let in_state = |s: usize| {
            g.cells.write(&g.states[s].bytes);
            guarded(|| exec(k, &op))
        };
        let (a, b) = (in_state(0), in_state(state));
        if a != b {
            let t = |r: Option<Res>| r.map_or("a panic".to_string(), |r| show(&r));
            return Some((op.show(), t(b), t(a)));
        }
    }
    None
}
