//! Exhaustive sweeps over a numbered space on all cores, with panics, crashes and hangs of the code under test
//! turned into observations.
use crate::sys;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::mem::size_of;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WALL_CAP: Duration = Duration::from_secs(850);
/// An exploration not complete by then ends as it is.
pub const LATEST: Duration = Duration::from_secs(800);
const HANG: Duration = Duration::from_secs(100);
pub const LOOKS: u64 = 5000;
const CHUNK: u64 = 1 << 16;

#[derive(Clone, Copy, Default, Debug)]
pub struct Counts {
    /// configurations enumerated
    pub states: u64,
    /// calls into the real API
    pub calls: u64,
    /// real results compared field by field with the model
    pub validated: u64,
    /// results falling under a known finding
    pub known: u64,
    /// check-specific
    pub extra: [u64; 4],
}
impl Counts {
    pub fn add(&mut self, o: &Counts) {
        self.states += o.states;
        self.calls += o.calls;
        self.validated += o.validated;
        self.known += o.known;
        for i in 0..4 {
            self.extra[i] += o.extra[i];
        }
    }
}

pub struct Ctx {
    pub n: Counts,
    careful: bool,
    panics: u64,
    bad: Option<String>,
    pub sample: Option<String>,
}
impl Ctx {
    /// Call the code under test. None: it panicked (see `panic_message`).
    #[inline(always)]
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        self.n.calls += 1;
        if !self.careful {
            return Some(f());
        }
        let r = guarded(f);
        self.panics += u64::from(r.is_none());
        r
    }
    #[cold]
    pub fn violation(&mut self, msg: String) {
        if self.bad.is_none() {
            self.bad = Some(msg);
        }
    }
}

#[inline(never)]
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    IN_CALL.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    IN_CALL.with(|c| c.set(false));
    r
}

/// Called with the message of every panic, before anything unwinds.
pub fn on_panic(f: fn(&str)) {
    ON_PANIC.with(|o| o.set(Some(f)));
}

thread_local! {
    static ON_PANIC: Cell<Option<fn(&str)>> = const { Cell::new(None) };
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn panic_message() -> String {
    PANIC.with(|p| p.borrow().clone())
}

static START: Mutex<Option<(Instant, Duration)>> = Mutex::new(None);

pub fn init() {
    // run.sh says when it started: building counts as well
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs());
    let began = std::env::var("MC_START").ok().and_then(|s| s.parse().ok()).unwrap_or(now);
    let before = Duration::from_secs(now.saturating_sub(began).min(600));
    *START.lock().unwrap() = Some((Instant::now(), before));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if let Some(f) = ON_PANIC.with(|o| o.get()) {
            f(&info.to_string());
        }
        if IN_CALL.with(|c| c.get()) || QUIET.with(|c| c.get()) {
            let what = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned());
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("panicked: {} ({at})", what.unwrap_or_default()));
        } else {
            default(info);
        }
    }));
}
pub fn elapsed() -> Duration {
    START.lock().unwrap().map(|s| s.0.elapsed() + s.1).unwrap_or_default()
}
/// Time taken by the exploration alone.
pub fn explored() -> Duration {
    START.lock().unwrap().map(|s| s.0.elapsed()).unwrap_or_default()
}
pub fn left() -> Duration {
    LATEST.saturating_sub(elapsed())
}

const TEXT: usize = 4000;
/// A text in shared memory, with the item it belongs to.
#[repr(C)]
struct Note {
    item: AtomicU64,
    len: AtomicU64,
    text: UnsafeCell<[u8; TEXT]>,
}
impl Note {
    fn put(&self, item: u64, text: &str) {
        let n = text.len().min(TEXT);
        unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), self.text.get().cast(), n) };
        self.item.store(item, Relaxed);
        self.len.store(n as u64, SeqCst);
    }
    fn get(&self) -> Option<Violation> {
        let n = self.len.load(SeqCst) as usize;
        let text = unsafe { std::slice::from_raw_parts(self.text.get() as *const u8, n) };
        (n > 0).then(|| Violation { item: self.item.load(Relaxed), msg: String::from_utf8_lossy(text).into_owned() })
    }
    fn keep_least(&self, item: u64, text: &str) {
        if self.len.load(Relaxed) == 0 || item < self.item.load(Relaxed) {
            self.put(item, text);
        }
    }
}
/// What one worker tells: the item it is at, and its results.
#[repr(C, align(4096))]
struct Slot {
    at: AtomicU64,
    n: UnsafeCell<Counts>,
    bad: Note,
    unrepeated: Note,
    samples: [Note; 2],
}
#[repr(C, align(4096))]
struct Head {
    next: AtomicU64,
    best: AtomicU64,
}

pub struct Violation {
    pub item: u64,
    pub msg: String,
}
pub struct Swept {
    pub n: Counts,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    /// a panic that did not happen again when the same calls were repeated
    pub unrepeated: Option<Violation>,
    /// a time limit was reached before everything had been explored
    pub cut: bool,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(64)
}

/// Evaluate `body` on every item of 0..total. The violation with the smallest item is returned; items above it
/// need not have been visited. The workers are processes: statics of the code under test are not shared between
/// them, so that they neither slow each other down nor disturb each other.
pub fn sweep<F: Fn(&mut Ctx, u64)>(total: u64, body: F) -> Swept {
    let nw = (threads() as u64).min(total).max(1) as usize;
    let chunk = CHUNK.min((total / (threads() as u64 * 4)).max(1));
    let bytes = size_of::<Head>() + nw * size_of::<Slot>();
    let mem = sys::shared_mem(bytes);
    let head: &'static Head = unsafe { &*(mem as *const Head) };
    let slots: &'static [Slot] = unsafe { std::slice::from_raw_parts(mem.add(size_of::<Head>()) as *const Slot, nw) };
    head.best.store(u64::MAX, SeqCst);
    let pids: Vec<i32> = slots
        .iter()
        .map(|slot| {
            slot.at.store(u64::MAX, SeqCst);
            sys::spawn(|| {
                work(total, chunk, head, slot, &body);
                0
            })
        })
        .collect();
    let (died, cut) = watch(&pids, slots, head);
    let mut all = Swept { n: Counts::default(), samples: vec![], violation: died, unrepeated: None, cut };
    let mut samples = vec![];
    let least = |a: &mut Option<Violation>, b: Option<Violation>| {
        if b.as_ref().is_some_and(|b| a.as_ref().is_none_or(|a| b.item < a.item)) {
            *a = b;
        }
    };
    for s in slots {
        all.n.add(unsafe { &*s.n.get() });
        least(&mut all.violation, s.bad.get());
        least(&mut all.unrepeated, s.unrepeated.get());
        samples.extend(s.samples.iter().filter_map(Note::get).map(|v| (v.item, v.msg)));
    }
    unsafe { sys::munmap(mem as _, bytes) };
    samples.sort();
    all.samples = samples.into_iter().map(|s| s.1).take(6).collect();
    all
}

/// One worker: chunk after chunk.
fn work(total: u64, chunk: u64, head: &Head, slot: &Slot, body: &impl Fn(&mut Ctx, u64)) {
    let mut samples = slot.samples.iter();
    loop {
        let lo = head.next.fetch_add(chunk, Relaxed);
        if lo >= total || lo > head.best.load(Relaxed) {
            break;
        }
        let hi = (lo + chunk).min(total);
        let mut ctx = Ctx { n: Counts::default(), careful: false, panics: 0, bad: None, sample: None };
        let run = |ctx: &mut Ctx| {
            for item in lo..hi {
                slot.at.store(item, Relaxed);
                body(ctx, item);
                if ctx.bad.is_some() {
                    return Some(item);
                }
            }
            None
        };
        QUIET.with(|q| q.set(true));
        let first = catch_unwind(AssertUnwindSafe(|| run(&mut ctx)));
        QUIET.with(|q| q.set(false));
        let hit = first.unwrap_or_else(|_| {
            let (at, what) = (slot.at.load(Relaxed), panic_message());
            // something panicked: go through the chunk again with every call guarded
            ctx = Ctx { n: Counts::default(), careful: true, panics: 0, bad: None, sample: None };
            let hit = run(&mut ctx);
            if ctx.panics == 0 {
                slot.unrepeated.keep_least(at, &format!("item {at:#x}: {what} the first time, not when repeated"));
            }
            hit
        });
        unsafe { (*slot.n.get()).add(&ctx.n) };
        if let Some(s) = ctx.sample.take() {
            if let Some(place) = samples.next() {
                place.put(lo, &s);
            }
        }
        if let Some(item) = hit {
            slot.bad.keep_least(item, &ctx.bad.unwrap());
            head.best.fetch_min(item, SeqCst);
        }
    }
    slot.at.store(u64::MAX, Relaxed);
}

/// Wait for the workers. A worker that dies inside the code under test, or an item that does not finish, is a
/// violation. A sweep may take three quarters of the time that is left; then it is cut.
fn watch(pids: &[i32], slots: &[Slot], head: &Head) -> (Option<Violation>, bool) {
    let mut live: Vec<usize> = (0..pids.len()).collect();
    // (looks are counted as well as time: a machine that was suspended is no hang)
    let mut seen: Vec<(u64, Instant, u64)> = slots.iter().map(|_| (u64::MAX, Instant::now(), 0)).collect();
    let mut found: Option<Violation> = None;
    let (started, limit, mut cut) = (Instant::now(), left() * 3 / 4, false);
    let stop = |live: &[usize]| {
        for i in live {
            unsafe { sys::kill(pids[*i], sys::SIGKILL) };
            sys::wait(pids[*i]);
        }
    };
    while !live.is_empty() {
        std::thread::sleep(Duration::from_micros(500));
        let mut i = 0;
        while i < live.len() {
            let id = live[i];
            let at = slots[id].at.load(Relaxed);
            if let Some(code) = sys::poll(pids[id]) {
                live.remove(i);
                if code == 0 {
                    continue;
                }
                let at = slots[id].at.load(Relaxed);
                if code < 128 || code == 128 + sys::SIGKILL || at == u64::MAX {
                    stop(&live);
                    eprintln!("a worker ended with {code} at item {at:#x}: the explorer itself failed; nothing is claimed");
                    std::process::exit(3);
                }
                head.best.fetch_min(at, SeqCst);
                if found.as_ref().is_none_or(|f| at < f.item) {
                    found = Some(Violation { item: at, msg: format!("fatal signal {} while exploring item {at:#x}", code - 128) });
                }
                continue;
            }
            if at != seen[id].0 {
                seen[id] = (at, Instant::now(), 0);
            } else if at != u64::MAX && seen[id].1.elapsed() > HANG && seen[id].2 > LOOKS {
                stop(&live);
                return (Some(Violation { item: at, msg: format!("item {at:#x}: no result after {HANG:?}") }), true);
            }
            seen[id].2 += 1;
            i += 1;
        }
        if !cut && started.elapsed() > limit {
            cut = true;
            // the workers finish their chunks
            head.best.store(0, SeqCst);
        }
        if elapsed() > WALL_CAP {
            stop(&live);
            eprintln!("wall-clock cap reached; nothing is claimed");
            std::process::exit(3);
        }
    }
    (found, cut)
}
