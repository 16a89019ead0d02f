#![allow(unused_must_use)]
mod bits;
mod cmp;
mod explore;
mod fams;
mod form;
mod gen;
mod golden;
mod imp;
mod refdec;
mod rep;
mod sched;
mod shape;

use explore::{explore, run_case, Cx, Fam, Report, Slots, Viol};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: imp::Alloc = imp::Alloc;

/// Stack of the threads that run the code under test: Rust's default for spawned threads.
pub const STACK: usize = 2 << 20;
const MAX_WORKERS: usize = 16;
const SLOT: usize = 8192;
/// No progress of a worker for this long makes its case a suspect.
const STUCK_S: u64 = 60;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

// ---------------------------------------------------------------- slots

struct Shm {
    p: *mut u8,
}
unsafe impl Sync for Shm {}
unsafe impl Send for Shm {}

impl Shm {
    fn open(path: &Path) -> Shm {
        let len = SLOT * MAX_WORKERS;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(len as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shm { p: p as *mut u8 }
    }
    fn seq(&self, w: usize) -> &AtomicU64 {
        unsafe { &*(self.p.add(w * SLOT) as *const AtomicU64) }
    }
    fn words(&self, w: usize) -> &mut [u32] {
        unsafe { std::slice::from_raw_parts_mut(self.p.add(w * SLOT + 8) as *mut u32, (SLOT - 8) / 4) }
    }
    fn get(&self, w: usize) -> (usize, Vec<u32>) {
        let x = self.words(w);
        let n = (x[1] as usize).min(x.len() - 2);
        (x[0] as usize, x[2..2 + n].to_vec())
    }
}
impl Slots for Shm {
    fn enter(&self, w: usize, fam: usize, prefix: &[u32]) {
        let x = self.words(w);
        let n = prefix.len().min(x.len() - 2);
        x[0] = fam as u32;
        x[1] = n as u32;
        x[2..2 + n].copy_from_slice(&prefix[..n]);
        self.seq(w).fetch_add(1, SeqCst); // odd: in a case
    }
    fn leave(&self, w: usize) {
        self.seq(w).fetch_add(1, SeqCst);
    }
}

// ---------------------------------------------------------------- modes

fn families(prop: &str) -> Vec<Fam> {
    let v = fams::families(prop);
    if v.is_empty() {
        eprintln!("no such property: {prop}");
        exit(2);
    }
    v
}

/// The families of an exploration: cases that may end the process are run on their own, see `mode_check`.
fn explored(prop: &str) -> Vec<Fam> {
    let only = std::env::var("MC_FAM").ok();
    let mut fs = families(prop);
    fs.retain(|f| !f.name.starts_with("known_") && only.as_ref().is_none_or(|o| f.name == o));
    fs
}

fn choices_str(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn choices_of(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// Child: explores everything and writes what it found to `out`.
fn mode_run(prop: &str, thorough: bool, out: &Path, slots: &Path, secs: u64) {
    imp::install_hook();
    let fs = explored(prop);
    fams::prepare(prop);
    let shm = Shm::open(slots);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, MAX_WORKERS);
    let t = Instant::now();
    let r = explore(&fs, thorough, workers, t + Duration::from_secs(secs), 5, &shm);
    let j = report_json(&fs, &r);
    std::fs::write(out, j.to_string()).unwrap();
}

fn report_json(fs: &[Fam], r: &Report) -> serde_json::Value {
    use serde_json::json;
    json!({
        "cases": r.cases, "steps": r.steps, "compared": r.compared, "skipped": r.skipped,
        "outcomes": r.outcomes, "outcomes_capped": r.outcomes_capped, "complete": r.complete,
        "tally": r.tally.iter().map(|(k, v)| (k.to_string(), *v)).collect::<std::collections::BTreeMap<_, _>>(),
        "viols": r.viols.iter().map(|v| json!({"fam": v.fam, "choices": v.choices, "msg": v.msg})).collect::<Vec<_>>(),
        "fams": fs.iter().zip(&r.fams).map(|(f, s)| json!({
            "name": f.name, "deviation_bound": f.bound, "cases": s.cases,
            "reference_accepts": s.accepted, "reference_rejects": s.rejected, "cpu_s": s.nanos as f64 / 1e9,
            "sample": s.sample.first().map(|(c, t)| format!("{}:{} {}", f.name, choices_str(c), t)),
        })).collect::<Vec<_>>(),
    })
}

/// Child: runs one case. Exit 0 held, 1 broken, anything else crashed.
fn mode_one(prop: &str, fam: &str, choices: &[u32], thorough: bool) {
    imp::install_hook();
    let fs = families(prop);
    let Some(f) = fs.into_iter().find(|f| f.name == fam) else {
        eprintln!("no such family: {fam}");
        exit(2);
    };
    fams::prepare(prop);
    let choices = choices.to_vec();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut cx = Cx { thorough, want_trace: true, ..Cx::default() };
            let _ = run_case(&f, &choices, &mut cx);
            for t in &cx.trace {
                println!("  {t}");
            }
            cx.fail
        })
        .unwrap();
    match h.join() {
        Ok(Some(m)) => {
            println!("BROKEN: {m}");
            exit(1);
        }
        Ok(None) => println!("held"),
        Err(_) => exit(2),
    }
}

enum End {
    Exit(i32),
    Signal(i32),
    Stuck,
}

fn wait(mut c: std::process::Child, limit: Duration, mut tick: impl FnMut() -> bool) -> End {
    use std::os::unix::process::ExitStatusExt;
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return match s.code() {
                Some(x) => End::Exit(x),
                None => End::Signal(s.signal().unwrap_or(0)),
            };
        }
        if t.elapsed() > limit || tick() {
            let _ = c.kill();
            let _ = c.wait();
            return End::Stuck;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

struct Found {
    viol: Viol,
    replay: PathBuf,
}

fn write_replay(prop: &str, v: &Viol, thorough: bool) -> PathBuf {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in v.fam.bytes().chain(v.choices.iter().flat_map(|x| x.to_le_bytes())) {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let p = dir.join(format!("{prop}-{}-{:08x}.json", v.fam, h as u32));
    let j = serde_json::json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" },
        "family": v.fam, "choices": choices_str(&v.choices), "message": v.msg,
        "how": "cd /verif && bash run.sh replay <this file>",
    });
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap() + "\n").unwrap();
    p
}

struct Known {
    property: String,
    case: String,
    what: String,
}

fn known() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(root().join("known_findings.json")) else {
        return vec![];
    };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|x| Known {
            property: x["property"].as_str().unwrap().into(),
            case: x["case"].as_str().unwrap().into(),
            what: x["what"].as_str().unwrap().into(),
        })
        .collect()
}

/// Supervisor: runs the exploration in a child, confirms crashes, writes evidence, gives the verdict.
fn mode_check(prop: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let fs = explored(prop);
    let tmp = std::env::temp_dir().join(format!("mc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let secs: u64 = std::env::var("MC_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 800 } else { 400 });
    let tier = if thorough { "thorough" } else { "quick" };
    let mut viols: Vec<Viol> = vec![];
    let mut report = serde_json::json!({});
    for attempt in 0..2 {
        let secs = if attempt == 0 { secs } else { secs.min(300) };
        let (out, slots) = (tmp.join(format!("out{attempt}")), tmp.join(format!("slots{attempt}")));
        let shm = Shm::open(&slots);
        let child = me()
            .args(["run", prop, tier])
            .arg(&out)
            .arg(&slots)
            .arg(secs.to_string())
            .stdout(Stdio::inherit())
            .spawn()
            .unwrap();
        let mut last: Vec<(u64, Instant)> = (0..MAX_WORKERS).map(|w| (shm.seq(w).load(SeqCst), Instant::now())).collect();
        let mut stuck_worker = None;
        let end = wait(child, Duration::from_secs(secs + 60), || {
            for (w, l) in last.iter_mut().enumerate() {
                let s = shm.seq(w).load(SeqCst);
                if s != l.0 {
                    *l = (s, Instant::now());
                } else if s % 2 == 1 && l.1.elapsed() > Duration::from_secs(STUCK_S) {
                    stuck_worker = Some(w);
                    return true;
                }
            }
            false
        });
        match end {
            End::Exit(0) => {
                report = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
                for v in report["viols"].as_array().unwrap() {
                    viols.push(Viol {
                        fam: v["fam"].as_str().unwrap().into(),
                        choices: v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(),
                        msg: v["msg"].as_str().unwrap().into(),
                    });
                }
            }
            End::Exit(2) => {
                eprintln!("harness error");
                clean(&tmp);
                return 2;
            }
            other => {
                let how = match other {
                    End::Exit(x) if x == imp::ALLOC_EXIT => "allocated more than the cap".to_string(),
                    End::Exit(x) => format!("exited with {x}"),
                    End::Signal(s) => format!("died of signal {s}"),
                    End::Stuck => "made no progress".to_string(),
                };
                eprintln!("exploration {how}; looking for the case");
                for w in 0..MAX_WORKERS {
                    let s = shm.seq(w).load(SeqCst);
                    if s % 2 == 0 || stuck_worker.is_some_and(|x| x != w) {
                        continue;
                    }
                    let (fam, choices) = shm.get(w);
                    let Some(f) = fs.get(fam) else { continue };
                    let c = me()
                        .args(["one", prop, tier, f.name, &choices_str(&choices)])
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    let msg = match wait(c, Duration::from_secs(STUCK_S), || false) {
                        End::Exit(0) | End::Exit(2) => continue,
                        End::Exit(1) => "breaks the property".to_string(),
                        End::Exit(x) if x == imp::ALLOC_EXIT => {
                            format!("parse allocates more than {} GiB", imp::HARD_CAP >> 30)
                        }
                        End::Exit(x) => format!("process exits with {x}"),
                        End::Signal(s) => format!("process dies of signal {s} (stack overflow, abort or out of memory)"),
                        End::Stuck => format!("no answer within {STUCK_S} s"),
                    };
                    viols.push(Viol { fam: f.name.into(), choices, msg });
                }
                if viols.is_empty() && attempt == 0 {
                    // the machine may have been out of memory or time
                    eprintln!("exploration {how}, and no single case reproduces it; once more");
                    continue;
                }
                if viols.is_empty() {
                    eprintln!("harness error: exploration {how} and no single case reproduces it");
                    clean(&tmp);
                    return 2;
                }
            }
        }
        break;
    }
    clean(&tmp);

    let known = known();
    let mut listed = vec![];
    let mut fresh: Vec<Found> = vec![];
    for v in viols {
        let case = format!("{}:{}", v.fam, choices_str(&v.choices));
        if known.iter().any(|k| k.property == prop && k.case == case) {
            listed.push(case);
        } else {
            let replay = write_replay(prop, &v, thorough);
            fresh.push(Found { viol: v, replay });
        }
    }
    // Listed findings are looked at on every run, in a process of their own.
    for k in known.iter().filter(|k| k.property == prop) {
        let (fam, choices) = k.case.split_once(':').expect("family:choices");
        let c = me().args(["one", prop, tier, fam, choices]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        match wait(c, Duration::from_secs(120), || false) {
            End::Exit(0) => println!("listed finding no longer fails: {}", k.case),
            _ => println!("KNOWN-FINDING: property={prop} {}", k.what),
        }
    }
    evidence(prop, thorough, &report, &fresh, t0.elapsed());
    if std::env::var("MC_V").is_ok() {
        for f in report["fams"].as_array().into_iter().flatten() {
            println!("  {:20} {:>9} cases {:>9} accepted {:>9} rejected {:>8.2} cpu s", f["name"].as_str().unwrap(), f["cases"], f["reference_accepts"], f["reference_rejects"], f["cpu_s"].as_f64().unwrap());
        }
    }
    let n = |k: &str| report[k].as_u64().unwrap_or(0);
    println!(
        "{prop} {tier}: {} cases, {} choice steps, {} comparisons, {} distinct outcomes, {} in {:.1} s",
        n("cases"),
        n("steps"),
        n("compared"),
        n("outcomes"),
        if report["complete"] == true { "complete" } else { "NOT complete" },
        t0.elapsed().as_secs_f64()
    );
    for f in &fresh {
        println!("{}:{}: {}", f.viol.fam, choices_str(&f.viol.choices), f.viol.msg);
        println!("VIOLATION property={prop} replay={}", f.replay.display());
    }
    let _ = std::io::stdout().flush();
    if fresh.is_empty() {
        0
    } else {
        1
    }
}

fn clean(tmp: &Path) {
    for i in 0..2 {
        let _ = std::fs::remove_file(tmp.join(format!("out{i}")));
        let _ = std::fs::remove_file(tmp.join(format!("slots{i}")));
    }
    let _ = std::fs::remove_dir(tmp);
}

fn evidence(prop: &str, thorough: bool, r: &serde_json::Value, fresh: &[Found], wall: Duration) {
    use serde_json::json;
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let zero = json!(0);
    let get = |k: &str| r.get(k).unwrap_or(&zero).clone();
    let fams = r["fams"].as_array().cloned().unwrap_or_default();
    let samples: Vec<_> = fams.iter().filter_map(|f| f["sample"].as_str()).map(|s| json!(s)).collect();
    let j = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": get("outcomes"),
            "states_are": "distinct decoded results (bit-exact) or rejection causes reached by the reference model over all explored cases",
            "states_capped": r.get("outcomes_capped").cloned().unwrap_or(json!(false)),
            "transitions": get("steps"),
            "transitions_are": "choices taken while building the explored cases",
            "traces_validated_against_impl": get("compared"),
            "traces_are": "parses (or serializations) by the real code whose whole answer was compared with the model's",
            "cases": get("cases"),
            "skipped_unspecified": get("skipped"),
            "exhaustive": r.get("complete").cloned().unwrap_or(json!(false)),
            "families": fams,
            "tally": r.get("tally").cloned().unwrap_or(json!({})),
            "samples": samples,
        },
        "assumptions": [
            "values outside the stated alphabets and sizes outside the stated bounds are not explored",
            "the reference decoder states the intended format; it was written apart from the code and agrees with it on the 136 real replays in assets",
        ],
        "wall_s": wall.as_secs_f64(),
        "violations": fresh.len(),
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&j).unwrap() + "\n").unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let tier = |t: &str| t == "thorough";
    match a[1..] {
        ["check", prop] => {
            let t = std::env::var("VERIF_TIER").unwrap_or_default();
            exit(mode_check(prop, tier(&t)))
        }
        ["check", prop, t] => exit(mode_check(prop, tier(t))),
        ["run", prop, t, out, slots, secs] => {
            mode_run(prop, tier(t), Path::new(out), Path::new(slots), secs.parse().unwrap())
        }
        ["one", prop, t, fam, choices] => mode_one(prop, fam, &choices_of(choices), tier(t)),
        ["replay", file] => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let g = |k: &str| j[k].as_str().unwrap().to_string();
            println!("{} {}:{}", g("property"), g("family"), g("choices"));
            mode_one(&g("property"), &g("family"), &choices_of(&g("choices")), tier(&g("tier")))
        }
        _ => {
            eprintln!("usage: mc check <property> [quick|thorough] | one <property> <tier> <family> <choices> | replay <file>");
            exit(2)
        }
    }
}
