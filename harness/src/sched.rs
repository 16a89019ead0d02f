//! A controlled scheduler for two threads. Scheduling points are the calls the code under test makes
//! to the allocator: it has no locks, atomics or channels of its own, and allocates all through a
//! parse, so each stretch between two of its allocations runs as one step.

use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicUsize, Ordering::SeqCst};

pub struct Sched {
    /// Thread whose turn it is
    turn: AtomicI32,
    done: [AtomicU32; 2],
    /// Steps each turn lasts; after the last entry a thread runs to its end.
    plan: Vec<u32>,
    at: AtomicUsize,
    left: AtomicU32,
    /// A thread waited so long for its turn that the other must be waiting for it.
    pub stalls: AtomicU32,
}

thread_local! {
    static ME: Cell<Option<(&'static Sched, i32)>> = const { Cell::new(None) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn futex_wait(a: &AtomicI32, v: i32) -> bool {
    let t = libc::timespec { tv_sec: 0, tv_nsec: 200_000_000 };
    let r = unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, v, &t) };
    !(r == -1 && unsafe { *libc::__errno_location() } == libc::ETIMEDOUT)
}

fn futex_wake(a: &AtomicI32) {
    unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 2) };
}

impl Sched {
    pub fn new(first: i32, plan: Vec<u32>) -> Sched {
        let left = plan.first().copied().unwrap_or(u32::MAX);
        Sched {
            turn: AtomicI32::new(first),
            done: [AtomicU32::new(0), AtomicU32::new(0)],
            plan,
            at: AtomicUsize::new(0),
            left: AtomicU32::new(left),
            stalls: AtomicU32::new(0),
        }
    }
    fn give(&self, to: i32) {
        let i = self.at.fetch_add(1, SeqCst) + 1;
        self.left.store(self.plan.get(i).copied().unwrap_or(u32::MAX), SeqCst);
        self.turn.store(to, SeqCst);
        futex_wake(&self.turn);
    }
    fn wait(&self, me: i32) {
        loop {
            let t = self.turn.load(SeqCst);
            if t == me {
                return;
            }
            if !futex_wait(&self.turn, t) && self.turn.load(SeqCst) != me {
                // the other one is stuck behind something this one holds
                self.stalls.fetch_add(1, SeqCst);
                self.left.store(u32::MAX, SeqCst);
                self.turn.store(me, SeqCst);
                return;
            }
        }
    }
    fn step(&self, me: i32) {
        // after a stall both may run; only the one whose turn it is counts
        self.wait(me);
        let left = self.left.load(SeqCst);
        if left == u32::MAX {
            return;
        }
        if left > 0 {
            self.left.store(left - 1, SeqCst);
            return;
        }
        let other = 1 - me;
        if self.done[other as usize].load(SeqCst) == 0 {
            self.give(other);
            self.wait(me);
        } else {
            self.left.store(u32::MAX, SeqCst);
        }
    }
    /// Runs `f` as thread `me` of the schedule.
    pub fn run<T>(&'static self, me: i32, f: impl FnOnce() -> T) -> T {
        self.wait(me);
        ME.with(|m| m.set(Some((self, me))));
        let r = f();
        ME.with(|m| m.set(None));
        self.done[me as usize].store(1, SeqCst);
        if self.turn.load(SeqCst) == me {
            self.give(1 - me);
        }
        r
    }
}

/// Called by the allocator.
pub fn point() {
    COUNT.with(|c| c.set(c.get() + 1));
    if let Some((s, me)) = ME.with(|m| m.get()) {
        s.step(me);
    }
}

/// Scheduling points passed by this thread so far.
pub fn points() -> u64 {
    COUNT.with(|c| c.get())
}
