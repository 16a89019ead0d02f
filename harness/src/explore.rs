//! Exhaustive enumeration of choice sequences, in parallel, by re-execution.
//!
//! A case is a deterministic function of the choices it asks for. `pick(n)` branches over all `n`
//! alternatives; `dev(n)` branches over `n` alternatives of which 0 is the default and every other
//! one uses up one deviation of the family's bound.

use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub struct Ch<'a> {
    prefix: &'a [u32],
    pub log: Vec<(u32, u32)>,
    bound: u32,
    used: u32,
}

impl<'a> Ch<'a> {
    pub fn new(prefix: &'a [u32], bound: u32) -> Self {
        Ch { prefix, log: Vec::with_capacity(prefix.len() + 4), bound, used: 0 }
    }
    fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < u32::MAX as usize, "bad arity {n}");
        let i = self.log.len();
        let v = self.prefix.get(i).copied().unwrap_or(0);
        assert!((v as usize) < n, "replay diverged: choice {i} is {v} of {n}");
        self.log.push((v, n as u32));
        v as usize
    }
    /// All of 0..n.
    pub fn pick(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        self.choose(n)
    }
    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// 0 for free, the rest at the price of one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if n == 1 || self.used >= self.bound {
            return 0;
        }
        let v = self.choose(n);
        if v != 0 {
            self.used += 1;
        }
        v
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.pick(v.len())]
    }
    pub fn devof<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.dev(v.len())]
    }
    /// Integer range, inclusive.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.pick((hi - lo + 1) as usize) as i64
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub fam: String,
    pub choices: Vec<u32>,
    pub msg: String,
}

/// What one worker saw; also what a case reports into.
#[derive(Default)]
pub struct Cx {
    pub thorough: bool,
    pub cases: u64,
    pub steps: u64,
    pub compared: u64,
    pub skipped: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub outcomes: HashSet<u64>,
    pub outcomes_full: bool,
    pub fail: Option<String>,
    pub trace: Vec<String>,
    pub want_trace: bool,
    /// serde formats of all kinds instead of JSON; one of so many values is damaged too
    pub forms: u64,
    pub tally: HashMap<&'static str, u64>,
}

const OUTCOME_CAP: usize = 1_500_000;

impl Cx {
    pub fn fail(&mut self, m: impl Into<String>) {
        if self.fail.is_none() {
            self.fail = Some(m.into());
        }
    }
    pub fn outcome(&mut self, bytes: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ bytes.len() as u64;
        let mut it = bytes.chunks_exact(8);
        for c in &mut it {
            h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 29;
        }
        for &b in it.remainder() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        } else {
            self.outcomes_full = true;
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.tally.entry(k).or_default() += 1;
    }
    /// Free text shown with samples and replays.
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.want_trace {
            self.trace.push(f());
        }
    }
}

pub struct Fam {
    pub name: &'static str,
    pub bound: u32,
    pub run: fn(&mut Ch, &mut Cx),
}

#[derive(Default)]
pub struct FamStat {
    pub cases: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub nanos: u64,
    pub sample: Vec<(Vec<u32>, String)>,
}

pub struct Report {
    pub cases: u64,
    pub steps: u64,
    pub compared: u64,
    pub skipped: u64,
    pub outcomes: u64,
    pub outcomes_capped: bool,
    pub viols: Vec<Viol>,
    pub fams: Vec<FamStat>,
    pub tally: HashMap<&'static str, u64>,
    pub complete: bool,
}

/// A subtree: choices before `fixed` are as in `prefix`; at `fixed` only values below `lim`.
struct Job {
    fam: usize,
    prefix: Vec<u32>,
    fixed: usize,
    lim: u32,
}

/// Where a worker publishes the case it is on, for the supervisor to see after a crash.
pub trait Slots: Sync {
    fn enter(&self, worker: usize, fam: usize, prefix: &[u32]);
    fn leave(&self, worker: usize);
}

/// Runs one case to the end; on return the full choice log is in the result.
pub fn run_case(f: &Fam, prefix: &[u32], cx: &mut Cx) -> Vec<(u32, u32)> {
    let mut ch = Ch::new(prefix, f.bound);
    (f.run)(&mut ch, cx);
    assert!(ch.log.len() >= prefix.len(), "replay diverged: {} of {} choices used", ch.log.len(), prefix.len());
    ch.log
}

/// What the cases of a family would parse, in order.
pub fn inputs_of(f: &Fam, thorough: bool) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut prefix = vec![];
    loop {
        let mut log = vec![];
        let mut cx = Cx { thorough, ..Cx::default() };
        out.extend(crate::imp::inputs_of(|| log = run_case(f, &prefix, &mut cx)));
        let Some(i) = (0..log.len()).rev().find(|&i| log[i].0 + 1 < log[i].1) else { return out };
        prefix = log[..i].iter().map(|x| x.0).collect();
        prefix.push(log[i].0 + 1);
    }
}

pub fn explore(
    fams: &[Fam],
    thorough: bool,
    workers: usize,
    deadline: Instant,
    max_viols: usize,
    slots: &dyn Slots,
) -> Report {
    let queue = Mutex::new((0..fams.len()).map(|fam| Job { fam, prefix: vec![], fixed: 0, lim: u32::MAX }).collect::<VecDeque<_>>());
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let stop = AtomicBool::new(false);
    let late = AtomicBool::new(false);
    let viols: Mutex<Vec<Viol>> = Mutex::new(vec![]);
    let out: Mutex<Vec<(Cx, Vec<FamStat>)>> = Mutex::new(vec![]);

    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..workers {
            let (queue, cv, idle, done, stop, late, viols, out) =
                (&queue, &cv, &idle, &done, &stop, &late, &viols, &out);
            let body = move || {
                let mut cx = Cx { thorough, ..Cx::default() };
                let mut stats: Vec<FamStat> = fams.iter().map(|_| FamStat::default()).collect();
                'jobs: loop {
                    let job = {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if done.load(SeqCst) || stop.load(SeqCst) {
                                break 'jobs;
                            }
                            if let Some(j) = q.pop_front() {
                                break j;
                            }
                            if idle.fetch_add(1, SeqCst) + 1 == workers {
                                done.store(true, SeqCst);
                                cv.notify_all();
                                break 'jobs;
                            }
                            q = cv.wait(q).unwrap();
                            idle.fetch_sub(1, SeqCst);
                        }
                    };
                    let Job { fam, mut prefix, mut fixed, mut lim } = job;
                    let f = &fams[fam];
                    loop {
                        if stop.load(SeqCst) {
                            break 'jobs;
                        }
                        if Instant::now() > deadline {
                            late.store(true, SeqCst);
                            stop.store(true, SeqCst);
                            cv.notify_all();
                            break 'jobs;
                        }
                        slots.enter(w, fam, &prefix);
                        cx.fail = None;
                        cx.want_trace = stats[fam].cases == 0;
                        cx.trace.clear();
                        let (a0, r0, t0) = (cx.accepted, cx.rejected, Instant::now());
                        let log = run_case(f, &prefix, &mut cx);
                        stats[fam].accepted += cx.accepted - a0;
                        stats[fam].rejected += cx.rejected - r0;
                        stats[fam].nanos += t0.elapsed().as_nanos() as u64;
                        slots.leave(w);
                        cx.cases += 1;
                        cx.steps += log.len() as u64 + 1;
                        stats[fam].cases += 1;
                        let choices = || log.iter().map(|x| x.0).collect::<Vec<_>>();
                        if cx.want_trace && stats[fam].sample.is_empty() {
                            stats[fam].sample.push((choices(), cx.trace.join("; ")));
                        }
                        if let Some(msg) = cx.fail.take() {
                            let mut v = viols.lock().unwrap();
                            v.push(Viol { fam: f.name.to_string(), choices: choices(), msg });
                            if v.len() >= max_viols {
                                stop.store(true, SeqCst);
                                cv.notify_all();
                            }
                        }
                        let more = |i: usize, fixed: usize, lim: u32| {
                            let n = if i == fixed { log[i].1.min(lim) } else { log[i].1 };
                            (log[i].0 + 1 < n).then_some(n)
                        };
                        // Share the upper half of the shallowest alternatives with idle workers.
                        if idle.load(SeqCst) > 0 {
                            let first = (fixed..log.len()).find_map(|i| more(i, fixed, lim).map(|n| (i, n)));
                            if let Some((i, n)) = first {
                                let mut q = queue.lock().unwrap();
                                if q.len() < workers {
                                    let mid = log[i].0 + 1 + (n - log[i].0 - 1) / 2;
                                    let mut p: Vec<u32> = log[..i].iter().map(|x| x.0).collect();
                                    p.push(mid);
                                    q.push_back(Job { fam, prefix: p, fixed: i, lim: n });
                                    fixed = i;
                                    lim = mid;
                                    cv.notify_all();
                                }
                            }
                        }
                        let Some(i) = (fixed..log.len()).rev().find(|&i| more(i, fixed, lim).is_some()) else {
                            break;
                        };
                        prefix.clear();
                        prefix.extend(log[..i].iter().map(|x| x.0));
                        prefix.push(log[i].0 + 1);
                    }
                }
                out.lock().unwrap().push((cx, stats));
            };
            hs.push(std::thread::Builder::new().stack_size(crate::STACK).spawn_scoped(s, body).unwrap());
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness error: a worker panicked");
                std::process::exit(2);
            }
        }
    });

    let mut r = Report {
        cases: 0,
        steps: 0,
        compared: 0,
        skipped: 0,
        outcomes: 0,
        outcomes_capped: false,
        viols: viols.into_inner().unwrap(),
        fams: fams.iter().map(|_| FamStat::default()).collect(),
        tally: HashMap::new(),
        complete: !late.into_inner() && !stop.into_inner(),
    };
    let mut all = HashSet::new();
    for (cx, stats) in out.into_inner().unwrap() {
        r.cases += cx.cases;
        r.steps += cx.steps;
        r.compared += cx.compared;
        r.skipped += cx.skipped;
        r.outcomes_capped |= cx.outcomes_full;
        all.extend(cx.outcomes);
        for (k, v) in cx.tally {
            *r.tally.entry(k).or_default() += v;
        }
        for (a, b) in r.fams.iter_mut().zip(stats) {
            a.cases += b.cases;
            a.accepted += b.accepted;
            a.rejected += b.rejected;
            a.nanos += b.nanos;
            a.sample.extend(b.sample);
        }
    }
    for f in &mut r.fams {
        f.sample.sort();
        f.sample.truncate(1);
    }
    r.outcomes = all.len() as u64;
    r.viols.sort_by(|a, b| (a.choices.len(), &a.fam, &a.choices).cmp(&(b.choices.len(), &b.fam, &b.choices)));
    r
}
