//! Forked worker processes: each has its own copy of every static of raki, so that histories explored by one
//! worker cannot leak into another. Results come back through shared memory.
use crate::engine::{self, WALL_CAP};
use crate::sys;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

const MSG: usize = 3800;
/// A part of an exploration that may be cut short is, when a run has taken this long (on a slow or busy machine).
pub const ENOUGH: Duration = Duration::from_secs(600);
pub const EXTRA: usize = 8;
/// How a worker ends that found a fault of the explorer itself.
pub const OWN_FAULT: i32 = 98;

/// One worker's page(s) of shared memory.
#[repr(C, align(4096))]
pub struct Slot {
    pub at: AtomicU64,
    pub n: [AtomicU64; EXTRA],
    bad_item: AtomicU64,
    bad_len: AtomicU64,
    bad: [u8; MSG],
    /// free for the explorer: words found, digests, ...
    pub data: [AtomicU64; 16 * 1024],
}
#[repr(C, align(4096))]
struct Head {
    next: AtomicU64,
    stop: AtomicU64,
    late: AtomicU64,
}

pub struct Worker {
    pub id: usize,
    pub slot: &'static Slot,
    head: &'static Head,
    started: Instant,
    deadline: Duration,
}
impl Worker {
    pub fn add(&self, what: usize, n: u64) {
        self.slot.n[what].fetch_add(n, Relaxed);
    }
    /// Past the deadline: give up the item, which leaves the exploration incomplete.
    pub fn expired(&self) -> bool {
        let late = self.started.elapsed() > self.deadline;
        if late {
            self.head.late.store(1, Relaxed);
        }
        late
    }
    pub fn stopped(&self) -> bool {
        self.head.stop.load(Relaxed) != 0
    }
    /// Record a violation and make all workers stop. Usable from a signal handler.
    pub fn violation(&self, msg: &str) {
        let s = self.slot;
        if s.bad_len.load(Relaxed) == 0 {
            let n = msg.len().min(MSG);
            unsafe { std::ptr::copy_nonoverlapping(msg.as_ptr(), s.bad.as_ptr() as *mut u8, n) };
            s.bad_item.store(s.at.load(Relaxed), Relaxed);
            s.bad_len.store(n as u64, SeqCst);
        }
        self.head.stop.store(1, SeqCst);
    }
}

pub struct Outcome {
    pub n: [u64; EXTRA],
    pub violation: Option<(u64, String)>,
    pub slots: Vec<&'static Slot>,
    /// the deadline passed before every item was done
    pub cut: bool,
}

/// Run `body` on every item of 0..total in forked workers, in chunks. `deadline`: stop claiming new items.
pub fn run(total: u64, chunk: u64, deadline: Duration, what: &dyn Fn(u64) -> String, body: impl Fn(&Worker, u64)) -> Outcome {
    let nw = (engine::threads() as u64).min(total.div_ceil(chunk)).max(1) as usize;
    let size = std::mem::size_of::<Slot>();
    let mem = sys::shared_mem(4096 + nw * size);
    let head: &'static Head = unsafe { &*(mem as *const Head) };
    let slots: Vec<&'static Slot> = (0..nw).map(|i| unsafe { &*(mem.add(4096 + i * size) as *const Slot) }).collect();
    let started = Instant::now();
    let deadline = if deadline < ENOUGH { deadline.min(ENOUGH.saturating_sub(engine::elapsed())) } else { deadline };
    let pids: Vec<i32> = (0..nw)
        .map(|id| {
            slots[id].at.store(u64::MAX, Relaxed);
            sys::spawn(|| {
                let w = Worker { id, slot: slots[id], head, started, deadline };
                loop {
                    if w.stopped() || started.elapsed() > deadline {
                        return 0;
                    }
                    let lo = head.next.fetch_add(chunk, Relaxed);
                    if lo >= total {
                        return 0;
                    }
                    for item in lo..(lo + chunk).min(total) {
                        w.slot.at.store(item, Relaxed);
                        body(&w, item);
                        if w.stopped() {
                            return 0;
                        }
                    }
                }
            })
        })
        .collect();
    let mut live: Vec<bool> = vec![true; nw];
    let mut seen: Vec<(u64, u64, Instant, u64)> = vec![(0, 0, Instant::now(), 0); nw];
    let mut violation: Option<(u64, String)> = None;
    while live.iter().any(|l| *l) {
        std::thread::sleep(Duration::from_millis(2));
        for i in 0..nw {
            if !live[i] {
                continue;
            }
            let at = slots[i].at.load(Relaxed);
            if let Some(code) = sys::poll(pids[i]) {
                live[i] = false;
                if code == OWN_FAULT {
                    eprintln!("{}: the explorer itself failed; nothing is claimed", what(at));
                    std::process::exit(3);
                }
                if code != 0 {
                    head.stop.store(1, SeqCst);
                    if slots[i].bad_len.load(SeqCst) == 0 && violation.is_none() {
                        let how = match code {
                            99 => "a panic".to_string(),
                            c if c > 128 => format!("signal {}", c - 128),
                            c => format!("exit code {c}"),
                        };
                        violation = Some((at, format!("{}: ended with {how}", what(at))));
                    }
                }
                continue;
            }
            let beat = slots[i].n[EXTRA - 1].load(Relaxed);
            if (at, beat) != (seen[i].0, seen[i].1) {
                seen[i] = (at, beat, Instant::now(), 0);
            } else if seen[i].2.elapsed() > Duration::from_secs(60) && seen[i].3 > engine::LOOKS && violation.is_none() {
                violation = Some((at, format!("{}: no result after 60 s", what(at))));
                head.stop.store(1, SeqCst);
                for p in pids.iter().enumerate().filter(|p| live[p.0]) {
                    unsafe { sys::kill(*p.1, sys::SIGKILL) };
                }
            }
            seen[i].3 += 1;
        }
        if engine::elapsed() > WALL_CAP {
            for p in pids.iter().enumerate().filter(|p| live[p.0]) {
                unsafe { sys::kill(*p.1, sys::SIGKILL) };
            }
            eprintln!("wall-clock cap reached; nothing is claimed");
            std::process::exit(3);
        }
    }
    let mut n = [0; EXTRA];
    for s in &slots {
        for (a, b) in n.iter_mut().zip(&s.n) {
            *a += b.load(Relaxed);
        }
        let len = s.bad_len.load(SeqCst) as usize;
        if len > 0 {
            let item = s.bad_item.load(Relaxed);
            // a finding the worker described itself is preferred to how some worker ended
            if violation.as_ref().is_none_or(|v| v.1.contains(": ended with ") || item < v.0) {
                violation = Some((item, String::from_utf8_lossy(&s.bad[..len]).into_owned()));
            }
        }
    }
    let cut = violation.is_none() && (head.next.load(Relaxed) < total || head.late.load(Relaxed) != 0);
    Outcome { n, violation, slots, cut }
}
