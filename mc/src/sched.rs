//! C17: interleaved and re-entrant calls. Two calls run as coroutines of one worker process, each on a stack of
//! its own, and a signal handler moves control between them:
//!  - at every machine instruction (the processor's trap flag), or
//!  - at every access to a static (the statics are made inaccessible), when some call writes statics at all.
use crate::calls::{about, bases, exec, Kind, Op, Res};
use crate::checks::Report;
use crate::engine::{self, Counts, Swept, Violation};
use crate::heap::Heap;
use crate::memory::Pristine;
use crate::ops::*;
use crate::pool::{self, Worker};
use crate::seq::{call, family, shared_state, shared_state_lite, show, PANICKED};
use crate::spec::Spec;
use crate::sys;
use raki::OpcodeKind;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::Ordering::*;
use std::time::Duration;

std::arch::global_asm!(
    ".globl mc_switch",
    "mc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    /// Save the current stack pointer in *from and continue where `to` was saved.
    fn mc_switch(from: *mut usize, to: usize);
}
const TF: i64 = 0x100;
const STACK: usize = 256 << 10;
const MAXPOINTS: usize = 4096;
/// calls in progress at once
const MOST: usize = 300;
const NEVER: u64 = u64::MAX;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// switch after given numbers of instructions
    Step,
    /// run the other call to completion after every instruction
    Nest,
    /// return to the explorer after every instruction of a traced call
    Branch,
    /// decide at every access to a static (two or more calls)
    Access,
}

/// A pile of calls: each is left in the middle and the next begun.
#[derive(Clone, Copy)]
struct Pile {
    /// the access to a static before which a call is left
    at: usize,
    /// the call begun first is also resumed first
    fifo: bool,
}

/// A store to statics.
#[derive(Clone, Copy)]
struct Store {
    at: usize,
    len: usize,
    old: [u8; 16],
    new: [u8; 16],
}
const NO_STORE: Store = Store { at: 0, len: 0, old: [0; 16], new: [0; 16] };
impl Store {
    fn begin(at: usize, len: usize) -> Store {
        let mut store = Store { at, len, ..NO_STORE };
        unsafe { std::ptr::copy_nonoverlapping(at as *const u8, store.old.as_mut_ptr(), len) };
        store
    }
    fn end(&mut self) {
        unsafe { std::ptr::copy_nonoverlapping(self.at as *const u8, self.new.as_mut_ptr(), self.len) };
    }
    /// Make the store, or take it back.
    fn apply(&self, forth: bool) {
        let from = if forth { &self.new } else { &self.old };
        unsafe { std::ptr::copy_nonoverlapping(from.as_ptr(), self.at as *mut u8, self.len) };
    }
}
/// How many stores a processor is taken to delay, and of how many calls.
const DELAYED: usize = 3;
const DELAYING: usize = 2;

/// What an instruction means to the stores before it.
#[derive(Clone, Copy, PartialEq)]
enum Effect {
    /// it may overtake them
    None,
    /// if it writes to memory, then so many bytes that need not be visible at once
    Stores(usize),
    /// it waits until they are visible (also said of some that need not)
    Waits,
}
/// Simple stores are known by their encoding; any other instruction that writes statics is taken to wait.
unsafe fn effect(rip: *const u8) -> Effect {
    let (mut p, mut short, mut rep, mut wide) = (rip, false, 0, false);
    loop {
        match *p {
            0x66 => short = true,
            0xf2 | 0xf3 => rep = *p,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 => {}
            _ => break,
        }
        p = p.add(1);
    }
    if *p & 0xf0 == 0x40 {
        wide = *p & 8 != 0;
        p = p.add(1);
    }
    let word = if wide { 8 } else if short { 2 } else { 4 };
    match *p {
        0xf0 | 0xcc | 0xcd => Effect::Waits,
        0x86 | 0x87 if *p.add(1) & 0xc0 != 0xc0 => Effect::Waits,
        0x88 | 0xc6 => Effect::Stores(1),
        0x89 | 0xc7 => Effect::Stores(word),
        0x0f => match *p.add(1) {
            0x05 | 0xa2 => Effect::Waits,
            0xae if *p.add(2) == 0xf0 => Effect::Waits,
            0x90..=0x9f => Effect::Stores(1),
            0x11 => Effect::Stores(match rep {
                0xf2 => 8,
                0xf3 => 4,
                _ => 16,
            }),
            0x29 => Effect::Stores(16),
            0x7f if short || rep == 0xf3 => Effect::Stores(16),
            0x7e if short => Effect::Stores(if wide { 8 } else { 4 }),
            0xd6 if short => Effect::Stores(8),
            _ => Effect::None,
        },
        _ => Effect::None,
    }
}

/// The controlled execution of two calls (in mode Access: or more).
struct Sched {
    mode: Mode,
    k: &'static [OpcodeKind],
    mem: &'static Pristine,
    n: usize,
    ops: [Op; MOST],
    res: [Res; MOST],
    done: [bool; MOST],
    started: [bool; MOST],
    rsp: [usize; MOST],
    main: usize,
    cur: usize,
    /// the top of the stack of each, and how many there are so far
    stack: [usize; MOST],
    stacks: usize,
    /// Step: instructions executed, and where each call is preempted next
    steps: [u64; MOST],
    stops: [[u64; 2]; 2],
    next_stop: [usize; 2],
    /// Branch: which calls are traced, and the interrupted context
    trace: [bool; 2],
    uc: [*mut u8; 2],
    /// Nest: the first wrong result of the inner call
    inner: Option<Res>,
    want_inner: Res,
    /// Access: decisions
    points: usize,
    prefix: usize,
    choice: [u8; MAXPOINTS],
    options: [u8; MAXPOINTS],
    pile: Option<Pile>,
    seen: [usize; MOST],
    preempts: u32,
    bound: u32,
    stuck: bool,
    /// Access: may stores be delayed, and the latest of each call, since it was last resumed and since it last
    /// waited for them
    delays: bool,
    log: [[Store; DELAYED]; DELAYING],
    logged: [usize; DELAYING],
    store: Option<Store>,
    waits: [bool; DELAYING],
    /// the statics are accessible, for one instruction
    open: bool,
    /// Access: digest of where statics are accessed, and whether any is written
    trail: u64,
    wrote: bool,
    heap: Heap,
}
thread_local! {
    static SCHED: Cell<*mut Sched> = const { Cell::new(std::ptr::null_mut()) };
    static WORKER: Cell<*const Worker> = const { Cell::new(std::ptr::null()) };
}
fn current() -> *mut Sched {
    SCHED.with(|s| s.get())
}

fn trap_flag(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

/// Body of a coroutine.
extern "C" fn body() -> ! {
    unsafe {
        let s = current();
        let me = (*s).cur;
        let op = (*s).ops[me];
        let r = match (*s).mode {
            Mode::Access => {
                (*s).mem.protect(sys::PROT_NONE);
                let r = exec((*s).k, &op);
                if (*s).delays {
                    trap_flag(false);
                }
                (*s).mem.protect(sys::PROT_READ | sys::PROT_WRITE);
                r
            }
            _ => {
                let traced = match (*s).mode {
                    Mode::Branch => (*s).trace[me],
                    Mode::Nest => true,
                    _ => (*s).stops[me][0] != NEVER,
                };
                if traced {
                    trap_flag(true);
                }
                let r = exec((*s).k, &op);
                trap_flag(false);
                r
            }
        };
        (*s).res[me] = r;
        (*s).done[me] = true;
        let mut scratch = 0;
        if !matches!((*s).mode, Mode::Nest | Mode::Branch) {
            if let Some(other) = (*s).after(me) {
                (*s).cur = other;
                enter(s, other, &mut scratch);
            }
        }
        mc_switch(&mut scratch, (*s).main);
    }
    unreachable!()
}

/// Continue (or start) a coroutine.
unsafe fn enter(s: *mut Sched, which: usize, save: *mut usize) {
    if !(*s).started[which] {
        (*s).started[which] = true;
        let top = (*s).stack[which];
        let frame = (top - 8 * 8) as *mut usize;
        for i in 0..6 {
            *frame.add(i) = 0;
        }
        *frame.add(6) = body as *const () as usize;
        *frame.add(7) = 0;
        (*s).rsp[which] = frame as usize;
    }
    mc_switch(save, (*s).rsp[which]);
}

/// After every instruction of a traced call.
extern "C" fn stepped(_sig: i32, _info: *mut u8, uc: *mut u8) {
    unsafe {
        let s = current();
        if s.is_null() {
            *sys::ctx_eflags(uc) &= !TF;
            return;
        }
        let me = (*s).cur;
        (*s).steps[me] += 1;
        match (*s).mode {
            Mode::Access => {
                if (*s).delays {
                    (*s).watch_stores(me, *sys::ctx_rip(uc) as *const u8);
                }
                if (*s).open {
                    (*s).open = false;
                    (*s).mem.protect(sys::PROT_NONE);
                }
                if !(*s).delays || (*s).logged[me] == 0 {
                    *sys::ctx_eflags(uc) &= !TF;
                }
            }
            Mode::Branch => {
                (*s).uc[me] = uc;
                mc_switch(&mut (*s).rsp[me], (*s).main);
            }
            Mode::Nest => {
                let op = (*s).ops[1];
                let r = exec((*s).k, &op);
                if r != (*s).want_inner && (*s).inner.is_none() {
                    (*s).inner = Some(r);
                }
            }
            Mode::Step => {
                let n = (*s).next_stop[me];
                if n < 2 && (*s).steps[me] == (*s).stops[me][n] {
                    (*s).next_stop[me] += 1;
                    if n == 1 || (*s).stops[me][1] == NEVER {
                        *sys::ctx_eflags(uc) &= !TF;
                    }
                    let other = 1 - me;
                    if !(*s).done[other] {
                        (*s).cur = other;
                        enter(s, other, &mut (*s).rsp[me]);
                    }
                }
            }
        }
    }
}

/// Before every access to a static.
extern "C" fn touched(sig: i32, info: *mut u8, uc: *mut u8) {
    unsafe {
        let s = current();
        if s.is_null() || (*s).mode != Mode::Access || !(*s).mem.holds(sys::fault_addr(info)) {
            sys::default_signal(sig);
            return;
        }
        (*s).mem.protect(sys::PROT_READ | sys::PROT_WRITE);
        let me = (*s).cur;
        (*s).trail = ((*s).trail ^ *sys::ctx_rip(uc) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        (*s).wrote |= sys::ctx_wrote(uc);
        let p = (*s).points;
        let mut to = None;
        let mut hidden = 0;
        if let Some(pile) = (*s).pile {
            (*s).seen[me] += 1;
            if (*s).seen[me] == pile.at && me + 1 < (*s).n && !(*s).started[me + 1] {
                to = Some(me + 1);
            } else if (*s).seen[me] % 1000 == 999 {
                to = (*s).other(me, 0);
                (*s).stuck |= to.is_none() && (*s).seen[me] > 100_000;
            }
        } else if p < MAXPOINTS {
            let others = if (*s).preempts < (*s).bound { (*s).others(me) } else { 0 };
            let ways = if (*s).delays { 1 + (*s).logged[me] as u8 } else { 1 };
            let c = (*s).decide(1 + others * ways);
            if c > 0 {
                to = (*s).other(me, (c - 1) / ways);
                hidden = usize::from((c - 1) % ways);
                (*s).preempts += 1;
            }
        } else if (p - MAXPOINTS) % 1000 == 999 {
            // waiting for another call: let it run
            to = (*s).other(me, 0);
            (*s).stuck |= to.is_none() && p > 100_000;
        }
        (*s).points += 1;
        if (*s).stuck {
            let mut scratch = 0;
            mc_switch(&mut scratch, (*s).main);
        }
        if let Some(other) = to {
            if (*s).delays {
                (*s).take_back(me, hidden);
            }
            (*s).cur = other;
            if (*s).started[other] {
                (*s).mem.protect(sys::PROT_READ | sys::PROT_WRITE);
            }
            enter(s, other, &mut (*s).rsp[me]);
            (*s).mem.protect(sys::PROT_READ | sys::PROT_WRITE);
            if (*s).delays {
                (*s).catch_up(me, hidden);
            }
        }
        if (*s).delays {
            let effect = effect(*sys::ctx_rip(uc) as *const u8);
            (*s).store = None;
            (*s).waits[me] = effect == Effect::Waits;
            if sys::ctx_wrote(uc) {
                match effect {
                    Effect::Stores(len) => (*s).store = Some(Store::begin(sys::fault_addr(info), len)),
                    _ => (*s).waits[me] = true,
                }
            }
        }
        (*s).open = true;
        *sys::ctx_eflags(uc) |= TF;
    }
}

/// A panic inside a controlled call cannot unwind across the switches: report it and end the worker.
fn panicked(msg: &str) {
    let (s, w) = (current(), WORKER.with(|w| w.get()));
    if s.is_null() || w.is_null() {
        return;
    }
    trap_flag(false);
    Heap::switch(false);
    unsafe {
        SCHED.with(|c| c.set(std::ptr::null_mut()));
        if msg.starts_with("panicked at src/") {
            sys::_exit(pool::OWN_FAULT);
        }
        (*s).mem.protect(sys::PROT_READ | sys::PROT_WRITE);
        let (me, n) = ((*s).cur, (*s).n);
        let m = format!("{} interleaved with {}: {msg}", (*s).ops[me].show(), (*s).ops[(me + 1) % n].show());
        (*w).violation(&m);
        sys::_exit(0);
    }
}

impl Sched {
    fn new(k: &'static [OpcodeKind], mem: &'static Pristine) -> Box<Sched> {
        let op = Op::new(Kind::Decode32, 0, 0);
        Box::new(Sched {
            mode: Mode::Step,
            k,
            mem,
            n: 2,
            ops: [op; MOST],
            res: [PANICKED; MOST],
            done: [false; MOST],
            started: [false; MOST],
            rsp: [0; MOST],
            main: 0,
            cur: 0,
            stack: [0; MOST],
            stacks: 0,
            steps: [0; MOST],
            stops: [[NEVER; 2]; 2],
            next_stop: [0; 2],
            trace: [false; 2],
            uc: [std::ptr::null_mut(); 2],
            inner: None,
            want_inner: PANICKED,
            points: 0,
            prefix: 0,
            choice: [0; MAXPOINTS],
            options: [0; MAXPOINTS],
            pile: None,
            seen: [0; MOST],
            preempts: 0,
            bound: 0,
            stuck: false,
            delays: false,
            log: [[NO_STORE; DELAYED]; DELAYING],
            logged: [0; DELAYING],
            store: None,
            waits: [false; DELAYING],
            open: false,
            trail: 0,
            wrote: false,
            heap: Heap::get(),
        })
    }
    /// Branch: run one call until its next instruction, if traced, or its end.
    fn resume(&mut self, which: usize) {
        self.cur = which;
        let s: *mut Sched = self;
        Heap::switch(true);
        unsafe { enter(s, which, &mut (*s).main) };
        Heap::switch(false);
    }
    fn save(&self, which: usize, into: &mut Vec<u8>) {
        let (lo, top) = (self.rsp[which], self.stack[which]);
        into.clear();
        into.extend_from_slice(unsafe { std::slice::from_raw_parts(lo as *const u8, top - lo) });
    }
    fn load(&mut self, which: usize, rsp: usize, from: &[u8]) {
        unsafe { std::ptr::copy_nonoverlapping(from.as_ptr(), rsp as *mut u8, from.len()) };
        self.rsp[which] = rsp;
        self.done[which] = false;
    }
    fn untrace(&mut self, which: usize) {
        unsafe { *sys::ctx_eflags(self.uc[which]) &= !TF };
    }
    /// After an instruction: has it stored to statics, or waited for stores?
    fn watch_stores(&mut self, me: usize, next: *const u8) {
        if let Some(mut store) = self.store.take() {
            store.end();
            if self.logged[me] == DELAYED {
                self.log[me].rotate_left(1);
                self.logged[me] -= 1;
            }
            self.log[me][self.logged[me]] = store;
            self.logged[me] += 1;
        }
        if self.waits[me] {
            self.logged[me] = 0;
        }
        self.waits[me] = unsafe { effect(next) } == Effect::Waits;
    }
    /// The latest stores of a call are not visible yet.
    fn take_back(&mut self, me: usize, hidden: usize) {
        let n = self.logged[me];
        self.log[me][n - hidden..n].iter().rev().for_each(|store| store.apply(false));
    }
    /// Now they are.
    fn catch_up(&mut self, me: usize, hidden: usize) {
        let n = self.logged[me];
        self.log[me][n - hidden..n].iter().for_each(|store| store.apply(true));
        self.logged[me] = 0;
    }
    /// How many other calls could run.
    fn others(&self, me: usize) -> u8 {
        (0..self.n).filter(|i| *i != me && !self.done[*i]).count() as u8
    }
    fn other(&self, me: usize, nth: u8) -> Option<usize> {
        (1..self.n).map(|d| (me + d) % self.n).filter(|i| !self.done[*i]).nth(nth.into())
    }
    /// The choice among so many options at this point of the schedule.
    fn decide(&mut self, options: u8) -> u8 {
        let p = self.points;
        if p >= MAXPOINTS {
            return 0;
        }
        if p >= self.prefix {
            self.choice[p] = 0;
        }
        self.options[p] = options;
        self.choice[p].min(options - 1)
    }
    /// Who runs when a call has ended.
    fn after(&mut self, me: usize) -> Option<usize> {
        let left = self.others(me);
        if left > 1 {
            if let Some(pile) = self.pile {
                let undone = |i: &usize| !self.done[*i];
                return if pile.fifo { (0..self.n).find(undone) } else { (0..self.n).rev().find(undone) };
            }
            let c = self.decide(left);
            self.points += 1;
            return self.other(me, c);
        }
        self.other(me, 0)
    }
    /// Run the two calls under the current plan, the first starting.
    fn go(&mut self, w: &Worker, mode: Mode, a: &Op, b: &Op) {
        self.go_all(w, mode, &[*a, *b]);
    }
    fn go_all(&mut self, w: &Worker, mode: Mode, ops: &[Op]) {
        self.mode = mode;
        self.n = ops.len();
        for (i, op) in ops.iter().enumerate() {
            self.ops[i] = *op;
            self.res[i] = PANICKED;
            self.done[i] = false;
            self.started[i] = false;
            self.seen[i] = 0;
            self.steps[i] = 0;
        }
        while self.stacks < self.n {
            let memory: &'static mut [u8] = Vec::leak(vec![0; STACK]);
            self.stack[self.stacks] = (memory.as_ptr() as usize + STACK) & !15;
            self.stacks += 1;
        }
        self.next_stop = [0; 2];
        self.inner = None;
        self.points = 0;
        self.preempts = 0;
        self.stuck = false;
        self.trail = 0;
        self.wrote = false;
        self.open = false;
        self.store = None;
        self.logged = [0; DELAYING];
        self.waits = [false; DELAYING];
        self.cur = 0;
        let s: *mut Sched = self;
        SCHED.with(|c| c.set(s));
        WORKER.with(|c| c.set(w));
        self.heap.clear();
        Heap::switch(true);
        unsafe { enter(s, 0, &mut (*s).main) };
        Heap::switch(false);
        SCHED.with(|c| c.set(std::ptr::null_mut()));
    }
}

/// The alphabet: calls with the result each has alone.
struct Alone {
    ops: Vec<Op>,
    res: Vec<Res>,
}

struct Env<'a> {
    k: &'static [OpcodeKind],
    mem: &'static Pristine,
    f: &'a Alone,
    reset: bool,
}
impl Env<'_> {
    fn install() {
        sys::on_signal_here(sys::SIGTRAP, stepped);
        sys::on_signal_here(sys::SIGSEGV, touched);
        engine::on_panic(panicked);
    }
    /// Compare the results, and then those of the same calls made afterwards.
    fn judge(&self, w: &Worker, s: &Sched, who: &[usize], how: &dyn Fn() -> String) -> bool {
        let f = self.f;
        for (me, &at) in who.iter().enumerate() {
            if (s.mode != Mode::Nest || me == 0) && s.res[me] != f.res[at] {
                w.violation(&format!("{} returned {} instead of {}, which it returns alone; {}", f.ops[at].show(), show(&s.res[me]), show(&f.res[at]), how()));
                return false;
            }
        }
        if let Some(r) = s.inner {
            let b = who[1];
            w.violation(&format!("{} returned {} instead of {}, which it returns alone; {}", f.ops[b].show(), show(&r), show(&f.res[b]), how()));
            return false;
        }
        if self.reset {
            for (i, &at) in who.iter().enumerate() {
                if who[..i].contains(&at) {
                    continue;
                }
                let r = call(self.k, &f.ops[at]);
                if r != f.res[at] {
                    w.violation(&format!("{}, called afterwards, returned {} instead of {}; {}", f.ops[at].show(), show(&r), show(&f.res[at]), how()));
                    return false;
                }
            }
        }
        true
    }
    fn prepare(&self, before: Option<usize>) {
        if self.reset {
            self.mem.restore();
        }
        if let Some(p) = before {
            call(self.k, &self.f.ops[p]);
        }
    }
    fn length(&self, s: &mut Sched, w: &Worker, op: &Op) -> u64 {
        // count instructions: stop beyond the end
        s.stops = [[NEVER - 1, NEVER], [NEVER; 2]];
        s.done[1] = true;
        s.go(w, Mode::Step, op, op);
        s.steps[0]
    }
    /// The other call runs completely after every instruction of the first.
    fn nested(&self, w: &Worker, s: &mut Sched, a: usize, b: usize) -> bool {
        let f = self.f;
        self.prepare(None);
        s.want_inner = f.res[b];
        s.go(w, Mode::Nest, &f.ops[a], &f.ops[b]);
        w.add(0, 1);
        w.add(1, s.steps[0] + 1);
        w.add(2, s.steps[0]);
        self.judge(w, s, &[a, b], &|| format!("it ran after every instruction of {}", f.ops[a].show()))
    }
    /// All schedules with exactly one preemption of the first call.
    fn one(&self, w: &Worker, s: &mut Sched, a: usize, b: usize, before: Option<usize>) -> bool {
        let f = self.f;
        let n = self.length(s, w, &f.ops[a]);
        for i in 1..n {
            self.prepare(before);
            s.stops = [[i, NEVER], [NEVER; 2]];
            s.go(w, Mode::Step, &f.ops[a], &f.ops[b]);
            w.add(0, 1);
            w.add(1, 2);
            w.add(2, s.steps[0] + s.steps[1]);
            w.add(pool::EXTRA - 1, 1);
            if w.expired() {
                return true;
            }
            if !self.judge(w, s, &[a, b], &|| format!("{} was preempted after {i} instructions by {}", f.ops[a].show(), f.ops[b].show())) {
                return false;
            }
        }
        true
    }
    /// Does the call allocate memory?
    fn allocates(&self, s: &mut Sched, w: &Worker, op: &Op) -> bool {
        self.length(s, w, op);
        s.heap.touched()
    }
    /// As `one`, but going back to the saved stack of the first call instead of running it anew. Only for code
    /// that keeps no state.
    fn one_fast(&self, w: &Worker, s: &mut Sched, a: usize, b: usize) -> bool {
        let f = self.f;
        if self.allocates(s, w, &f.ops[a]) {
            return self.one(w, s, a, b, None);
        }
        let mut saved = vec![];
        s.trace = [true, false];
        s.go(w, Mode::Branch, &f.ops[a], &f.ops[b]);
        self.active(s);
        while !s.done[0] {
            let (i, rsp) = (s.steps[0], s.rsp[0]);
            s.save(0, &mut saved);
            s.untrace(0);
            (s.done[1], s.started[1]) = (false, false);
            s.resume(1);
            s.resume(0);
            w.add(0, 1);
            w.add(1, 2);
            if !self.judge(w, s, &[a, b], &|| format!("{} was preempted after {i} instructions by {}", f.ops[a].show(), f.ops[b].show())) {
                return false;
            }
            s.load(0, rsp, &saved);
            s.resume(0);
            w.add(pool::EXTRA - 1, 1);
        }
        w.add(2, s.steps[0]);
        self.inactive();
        true
    }
    /// All schedules with one preemption of each call, likewise.
    fn two_fast(&self, w: &Worker, s: &mut Sched, a: usize, b: usize) -> bool {
        let f = self.f;
        if self.allocates(s, w, &f.ops[a]) || self.allocates(s, w, &f.ops[b]) {
            return self.one(w, s, a, b, None);
        }
        let (mut sa, mut sb) = (vec![], vec![]);
        s.trace = [true, true];
        s.go(w, Mode::Branch, &f.ops[a], &f.ops[b]);
        self.active(s);
        while !s.done[0] {
            let (i, ra) = (s.steps[0], s.rsp[0]);
            s.save(0, &mut sa);
            (s.done[1], s.started[1], s.steps[1]) = (false, false, 0);
            s.resume(1);
            while !s.done[1] {
                let (j, rb) = (s.steps[1], s.rsp[1]);
                s.save(1, &mut sb);
                s.untrace(0);
                s.resume(0);
                s.untrace(1);
                s.resume(1);
                w.add(0, 1);
                w.add(1, 2);
                if !self.judge(w, s, &[a, b], &|| {
                    format!("{} was preempted after {i} instructions by {}, itself preempted after {j}", f.ops[a].show(), f.ops[b].show())
                }) {
                    return false;
                }
                s.load(0, ra, &sa);
                s.load(1, rb, &sb);
                s.resume(1);
            }
            w.add(2, s.steps[1]);
            w.add(pool::EXTRA - 1, 1);
            if w.expired() {
                break;
            }
            s.load(0, ra, &sa);
            s.resume(0);
        }
        self.inactive();
        true
    }
    fn active(&self, s: &mut Sched) {
        SCHED.with(|c| c.set(s));
    }
    fn inactive(&self) {
        SCHED.with(|c| c.set(std::ptr::null_mut()));
    }
    /// All schedules with at most `bound` preemptions, switching at accesses to statics.
    fn accesses(&self, w: &Worker, s: &mut Sched, who: &[usize], before: Option<usize>, bound: u32) -> bool {
        let f = self.f;
        let ops: Vec<Op> = who.iter().map(|i| f.ops[*i]).collect();
        s.bound = bound;
        s.prefix = 0;
        s.pile = None;
        loop {
            self.prepare(before);
            s.go_all(w, Mode::Access, &ops);
            self.mem.protect(sys::PROT_READ | sys::PROT_WRITE);
            w.add(0, 1);
            w.add(1, ops.len() as u64);
            w.add(2, s.points as u64);
            let pts = s.points.min(MAXPOINTS);
            let how = || {
                let at: Vec<String> = (0..pts).filter(|p| s.choice[*p] > 0).map(|p| p.to_string()).collect();
                let pre = before.map_or(String::new(), |p| format!(", after {}", f.ops[p].show()));
                let all: Vec<String> = ops.iter().map(Op::show).collect();
                format!("{} interleaved{pre}, switching at accesses {} to statics{}", all.join(" and "), at.join(" and "), if s.delays { ", some stores delayed" } else { "" })
            };
            if s.stuck {
                w.violation(&format!("a call does not return; {}", how()));
                return false;
            }
            if !self.judge(w, s, who, &how) {
                return false;
            }
            let Some(p) = (0..pts).rev().find(|p| s.choice[*p] + 1 < s.options[*p]) else { return true };
            s.choice[p] += 1;
            s.prefix = p + 1;
            w.add(pool::EXTRA - 1, 1);
            if w.stopped() || w.expired() {
                return true;
            }
        }
    }
    /// As `accesses`, but a call that is left may not have made its latest stores yet, as on a processor with a
    /// store buffer: they become visible when it is resumed.
    fn delayed(&self, w: &Worker, s: &mut Sched, a: usize, b: usize, before: Option<usize>) -> bool {
        s.delays = true;
        let good = self.accesses(w, s, &[a, b], before, 2);
        s.delays = false;
        good
    }
    /// Many calls in progress at once: each is left before the same of its accesses to statics and the next begun,
    /// for every access; they are resumed in the same or in the opposite order.
    fn piles(&self, w: &Worker, s: &mut Sched, two: [usize; 2], before: Option<usize>, high: usize) -> bool {
        let f = self.f;
        let who: Vec<usize> = (0..high).map(|i| two[i % 2]).collect();
        let ops: Vec<Op> = who.iter().map(|i| f.ops[*i]).collect();
        let mut good = true;
        for at in 1..=64 {
            let mut left = 0;
            for fifo in [false, true] {
                self.prepare(before);
                s.pile = Some(Pile { at, fifo });
                s.go_all(w, Mode::Access, &ops);
                self.mem.protect(sys::PROT_READ | sys::PROT_WRITE);
                w.add(0, 1);
                w.add(1, ops.len() as u64);
                w.add(2, s.points as u64);
                w.add(pool::EXTRA - 1, 1);
                let how = || format!("{high} calls {} and {} in progress, each left before its access {at} to statics, and resumed {}", ops[0].show(), ops[1].show(), if fifo { "in this order" } else { "in the opposite order" });
                if s.stuck {
                    w.violation(&format!("a call does not return; {}", how()));
                    good = false;
                }
                good = good && self.judge(w, s, &who, &how);
                left = left.max(s.seen[..high].iter().filter(|seen| **seen >= at).count());
                if !good || w.stopped() || w.expired() {
                    s.pile = None;
                    return good;
                }
            }
            if left == 0 {
                break;
            }
        }
        s.pile = None;
        good
    }
}

pub fn schedules(spec: &Spec, thorough: bool) -> Report {
    let k: &'static [OpcodeKind] = Box::leak(all_opcodes().into_boxed_slice());
    let mem: &'static Pristine = Box::leak(Box::new(Pristine::take()));
    // as built for stepping, raki is too slow for a complete tour
    let lite = std::env::var_os("MC_LITE").is_some();
    let seen = if lite { shared_state_lite(k, spec) } else { shared_state(k, spec) };
    let mut n = seen.n;
    let reset = !seen.stateless();
    let mut violation = seen.failed;
    let mut cut = seen.cut;
    println!("statics written at {} places; thread-locals {}", seen.sites, if seen.tls { "written" } else { "not written" });

    // families of confusable calls: of every instruction, and of what writes statics
    let mut base = bases(spec);
    let own = base.len();
    for w in &seen.writers {
        let wide = !matches!(w.kind, Kind::Decode16 | Kind::Text16 | Kind::Opcode16 | Kind::Query16(_) | Kind::Cut16(_));
        if !base.iter().any(|b| u64::from(b.0) == w.v && b.1 == wide) && base.len() < own + 60 {
            base.push((w.v as u32, wide, w.opc));
        }
    }
    let mut ops: Vec<Op> = vec![];
    let mut fams: Vec<Vec<usize>> = vec![];
    let mut rest: Vec<usize> = vec![];
    for (w, wide, opc) in &base {
        let at = ops.len();
        ops.extend(family(*w, *wide, 5));
        fams.push((at..ops.len()).collect());
        let at = ops.len();
        about(*w, *wide, *opc, &mut ops);
        rest.extend(at..ops.len());
    }
    let at = ops.len();
    ops.extend(&seen.writers);
    rest.extend(at..ops.len());
    let count = ops.len();
    let table = sys::shared_mem(count * std::mem::size_of::<Res>()) as *mut Res;
    let out = pool::run(count as u64, 64, Duration::from_secs(600), &|i| ops[i as usize].show(), |_, i| {
        mem.restore();
        unsafe { *table.add(i as usize) = call(k, &ops[i as usize]) };
    });
    violation = violation.or(out.violation.map(|v| Violation { item: v.0, msg: v.1 }));
    let f = Alone { ops, res: unsafe { std::slice::from_raw_parts(table, count).to_vec() } };
    // a call that panics even alone is another property's business
    let fine = |i: usize| f.res[i] != PANICKED;
    let env = Env { k, mem, f: &f, reset };
    let total = Cell::new(Counts::default());
    let preemptions = Cell::new(0u64);
    let points = Cell::new(0u64);
    let explore = |pairs: &[(usize, usize, Option<usize>)], secs: u64, run: &dyn Fn(&Worker, &mut Sched, usize, usize, Option<usize>) -> bool| {
        let pairs: Vec<_> = pairs.iter().filter(|p| fine(p.0) && fine(p.1) && p.2.is_none_or(fine)).collect();
        let out = pool::run(
            pairs.len() as u64,
            1,
            Duration::from_secs(secs),
            &|i| pairs.get(i as usize).map_or("?".into(), |p| format!("{} interleaved with {}", f.ops[p.0].show(), f.ops[p.1].show())),
            |w, i| {
                thread_local!(static MINE: Cell<*mut Sched> = const { Cell::new(std::ptr::null_mut()) });
                let s = MINE.with(|m| {
                    if m.get().is_null() {
                        Env::install();
                        m.set(Box::into_raw(Sched::new(k, mem)));
                    }
                    unsafe { &mut *m.get() }
                });
                let p = pairs[i as usize];
                run(w, s, p.0, p.1, p.2);
                w.add(pool::EXTRA - 1, 1);
                w.slot.n[3].fetch_add(1, Relaxed);
            },
        );
        let mut t = total.get();
        t.states += out.n[0];
        t.calls += out.n[1];
        t.validated += out.n[1];
        total.set(t);
        points.set(points.get() + out.n[2]);
        preemptions.set(preemptions.get() + out.n[3]);
        (out.violation.map(|v| Violation { item: v.0, msg: v.1 }), out.cut)
    };
    type Pairs = Vec<(usize, usize, Option<usize>)>;
    let mut step = |name: &str, pairs: Pairs, secs: u64, run: &dyn Fn(&Worker, &mut Sched, usize, usize, Option<usize>) -> bool| {
        if violation.is_some() {
            return;
        }
        let before = engine::elapsed();
        let (v, c) = explore(&pairs, secs, run);
        violation = v;
        cut |= c;
        println!("{name}: {} pairs of calls, {:.1} s{}", pairs.len(), (engine::elapsed() - before).as_secs_f64(), if c { " (cut short)" } else { "" });
    };

    // 1. where state is written: every order of accesses to it
    if seen.sites > 0 || !seen.writers.is_empty() {
        let mut near: Pairs = vec![];
        let mut deep: Pairs = vec![];
        let order: Vec<usize> = (own..fams.len()).chain(0..own).collect();
        for (nth, i) in order.iter().enumerate() {
            let fam = &fams[*i];
            for &a in fam {
                for &b in fam {
                    near.push((a, b, None));
                    deep.push((a, b, None));
                    near.extend(fam.iter().map(|p| (a, b, Some(*p))));
                }
            }
            let far = &fams[order[(nth + 7) % order.len()]];
            near.push((fam[0], far[0], None));
            near.push((fam[1], far[1], Some(fam[0])));
            near.push((fam[1], far[1], Some(far[1])));
        }
        step("orders of accesses to statics, 2 preemptions", near, if thorough { 250 } else { 60 }, &|w, s, a, b, p| env.accesses(w, s, &[a, b], p, 2));
        // calls of unrelated instructions, told apart by where they access statics
        let trails = sys::shared_mem(16 * count) as *mut [u64; 2];
        let each: Pairs = (0..count).map(|a| (a, a, None)).collect();
        step("places of accesses to statics", each, 60, &|w, s, a, _, _| {
            env.prepare(None);
            s.bound = 0;
            s.prefix = 0;
            s.go(w, Mode::Access, &f.ops[a], &f.ops[a]);
            mem.protect(sys::PROT_READ | sys::PROT_WRITE);
            if s.points > 0 {
                unsafe { *trails.add(a) = [s.trail | 1, s.wrote.into()] };
            }
            true
        });
        let trail = |a: usize| unsafe { *trails.add(a) };
        let mut kinds: HashMap<u64, Vec<usize>> = HashMap::new();
        for a in (0..count).filter(|a| trail(*a)[0] != 0) {
            kinds.entry(trail(a)[0]).or_default().push(a);
        }
        let mut kinds: Vec<Vec<usize>> = kinds.into_values().collect();
        kinds.sort_unstable();
        let spread = kinds.len().div_ceil(if thorough { 400 } else { 120 }).max(1);
        let mut across: Pairs = vec![];
        for nth in 0..3 {
            // the first, a middle and the last call of every kind
            let pick = |kind: &[usize]| kind[(kind.len() - 1) * nth / 2];
            let some: Vec<usize> = kinds.iter().step_by(spread).map(|kind| pick(kind)).collect();
            for &a in &some {
                for &b in some.iter().filter(|b| trail(a)[1] + trail(**b)[1] > 0) {
                    across.extend([(a, b, None), (a, b, Some(a)), (a, b, Some(b))]);
                }
            }
        }
        let again: Pairs = across.iter().copied().chain(deep.iter().copied()).collect();
        step("across instructions, 2 preemptions", across, if thorough { 150 } else { 40 }, &|w, s, a, b, p| env.accesses(w, s, &[a, b], p, 2));
        step("the same with stores delayed", again, if thorough { 120 } else { 30 }, &|w, s, a, b, p| env.delayed(w, s, a, b, p));
        // three calls of the same or of different kinds, and many calls
        let some: Vec<&Vec<usize>> = kinds.iter().step_by(kinds.len().div_ceil(if thorough { 100 } else { 40 }).max(1)).collect();
        let mut threes: Pairs = vec![];
        for kind in &some {
            let last = kind.len() - 1;
            for (a, b, c) in [(0, 0, 0), (0, last / 2, last), (0, last, 0), (last, 0, 0)] {
                threes.push((kind[a], kind[b], Some(kind[c])));
            }
        }
        for (i, a) in some.iter().enumerate().step_by(some.len().div_ceil(12).max(1)) {
            for b in some.iter().step_by(some.len().div_ceil(12).max(1)) {
                threes.push((a[0], b[b.len() - 1], Some(some[(i + 1) % some.len()][0])));
                threes.push((a[0], b[b.len() - 1], Some(a[a.len() - 1])));
            }
        }
        step("three calls, 3 preemptions", threes, if thorough { 150 } else { 40 }, &|w, s, a, b, c| env.accesses(w, s, &[a, b, c.unwrap_or(a)], None, 3));
        // the same with other words, and with one of the three calls made before
        let mut wide: Pairs = vec![];
        for kind in &some {
            let mut words: Vec<usize> = vec![];
            for &a in kind.iter() {
                if words.iter().all(|b| f.ops[*b].v != f.ops[a].v) {
                    words.push(a);
                }
            }
            let words: Vec<usize> = words.iter().step_by(words.len().div_ceil(4)).copied().collect();
            for &a in &words {
                for &b in &words {
                    wide.extend(words.iter().map(|c| (a, b, Some(*c))));
                }
            }
        }
        for (nth, name) in ["three calls", "three calls after the first", "three calls after the second", "three calls after the third"].iter().enumerate() {
            step(&format!("{name}, 2 preemptions"), wide.clone(), if thorough { 60 } else { 15 }, &|w, s, a, b, c| {
                let who = [a, b, c.unwrap_or(a)];
                env.accesses(w, s, &who, (nth > 0).then(|| who[nth - 1]), 2)
            });
        }
        let mut high: Pairs = vec![];
        for kind in kinds.iter().step_by(spread) {
            high.push((kind[0], kind[kind.len() - 1], None));
            high.push((kind[kind.len() / 2], kind[0], None));
        }
        step("many calls in progress", high, if thorough { 100 } else { 40 }, &|w, s, a, b, _| [None, Some(a), Some(b)].iter().all(|p| [3, 36, MOST].iter().all(|n| env.piles(w, s, [a, b], *p, *n))));
        let bound = if thorough { 6 } else { 4 };
        step("orders of accesses to statics, deeper", deep, if thorough { 150 } else { 30 }, &|w, s, a, b, p| env.accesses(w, s, &[a, b], p, bound));
    }
    // 2. a complete call after every instruction
    // without state, one choice of operand bits per instruction is enough for the quick tier
    let some = |i: usize| thorough || reset || i % 2 == 0;
    let mut pairs: Pairs = vec![];
    for (_, fam) in fams.iter().enumerate().filter(|f| some(f.0)) {
        for a in 0..fam.len() {
            for b in 0..fam.len() {
                if thorough || (a < 3 && b < 3) {
                    pairs.push((fam[a], fam[b], None));
                }
            }
        }
    }
    for (i, &a) in rest.iter().enumerate().filter(|r| thorough || r.0 % 3 == 0) {
        pairs.push((a, rest[(i + 1) % rest.len()], None));
        if thorough {
            pairs.push((a, rest[(i + rest.len() / 2) % rest.len()], None));
        }
    }
    step("a call after every instruction", pairs, 120, &|w, s, a, b, _| env.nested(w, s, a, b));
    // 3. one preemption at every instruction
    let mut pairs: Pairs = vec![];
    for (i, fam) in fams.iter().enumerate().filter(|f| some(f.0)) {
        for a in 0..fam.len() {
            for b in 0..fam.len() {
                if thorough || (a < 3 && b < 3) {
                    pairs.push((fam[a], fam[b], None));
                    if reset {
                        pairs.push((fam[a], fam[b], Some(fam[b])));
                        pairs.push((fam[a], fam[b], Some(fam[(a + 1) % 3])));
                    }
                }
            }
        }
        pairs.push((fam[0], fams[(i + 31) % fams.len()][1], None));
    }
    step("one preemption, at every instruction", pairs, if thorough { 250 } else { 40 }, &|w, s, a, b, p| if reset { env.one(w, s, a, b, p) } else { env.one_fast(w, s, a, b) });
    // 4. two preemptions: the shortest calls, as many as affordable
    let lengths = sys::shared_mem(8 * count) as *mut u64;
    let every: Pairs = (0..fams.len()).flat_map(|i| fams[i][..4].iter().map(|a| (*a, *a, None))).collect();
    step("lengths", every, 60, &|w, s, a, _, _| {
        unsafe { *lengths.add(a) = env.length(s, w, &f.ops[a]) };
        true
    });
    if !reset {
        let len = |a: usize| unsafe { *lengths.add(a) };
        let mut cheap: Vec<(u64, usize, usize)> = vec![];
        for fam in &fams {
            for (a, b) in [(0, 1), (1, 0), (0, 2), (1, 3)] {
                cheap.push((len(fam[a]) * len(fam[b]), fam[a], fam[b]));
            }
        }
        cheap.retain(|c| c.0 > 0);
        cheap.sort_unstable();
        let mut budget: u64 = if thorough { 300_000_000 } else { 12_000_000 };
        let mut pairs: Pairs = vec![];
        for c in cheap {
            if c.0 > budget {
                break;
            }
            budget -= c.0;
            pairs.push((c.1, c.2, None));
        }
        step("two preemptions, at every pair of instructions", pairs, if thorough { 400 } else { 60 }, &|w, s, a, b, _| env.two_fast(w, s, a, b));
    }

    n.add(&total.get());
    n.extra[0] = total.get().states;
    n.extra[1] = points.get();
    n.extra[2] = preemptions.get();
    n.extra[3] = seen.sites as u64;
    if cut {
        println!("a part of the exploration ran out of time: bounds not reached");
    }
    let samples = vec![
        format!("{} schedules over {} pairs of calls", total.get().states, preemptions.get()),
        format!("{} preempted by {} after each of its instructions", f.ops[0].show(), f.ops[1].show()),
    ];
    let swept = Swept { n, samples, violation, unrepeated: None, cut };
    Report { swept, extra: vec!["schedules", "scheduling_points", "pairs_of_calls", "places_writing_statics"], known: None }
}
