//! Work, consistency, accessors, world objects, and what frames depend on.

use super::*;
use crate::gen::*;
use crate::golden::Tag;
use crate::imp::{self, Got};
use crate::rep::*;
use boxcars::{CrcCheck, NetworkParse};

// ---------------------------------------------------------------- C26

/// Processor time a parse may take: so much per input byte, and so much for any input. The code needs
/// 5 to 50 ns a byte, and up to 400 where records of a few bits are kept in 80 bytes each; work that
/// grows with the square of anything needs far more at these sizes.
const NS_PER_BYTE: u64 = 500;
const NS_PER_BYTE_DENSE: u64 = 3000;
const NS_FLAT: u64 = 50_000_000;
/// A sixteenth of the same costs a sixteenth, more or less. Below this time the two are not compared.
const PART: usize = 16;
const GROWTH: f64 = 5.0;
const NS_GROWTH: u64 = 60_000_000;

/// How much slower this machine is than the one the limits were set on (at most twice as slow counts as
/// equal): hashing, sorting and
/// allocating a fixed number of texts.
pub fn pace() -> u64 {
    static PACE: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *PACE.get_or_init(|| {
        let best = (0..5)
            .map(|_| {
                imp::cpu_of(|| {
                    let mut v: Vec<String> = (0..60_000u32).map(|i| format!("{:x}", i.wrapping_mul(0x9E37_79B1))).collect();
                    let m: std::collections::HashMap<&str, usize> = v.iter().enumerate().map(|(i, s)| (s.as_str(), i)).collect();
                    let n = m.len();
                    v.sort();
                    n + v.len()
                })
                .1
            })
            .min()
            .unwrap();
        if std::env::var("MC_WORK").is_ok() {
            println!("pace {best}");
        }
        best.div_ceil(PACE_NS).clamp(1, 20)
    })
}
const PACE_NS: u64 = 30_000_000;

/// What is parsed, and how.
pub struct Job {
    d: Vec<u8>,
    crc: CrcCheck,
    per_byte: u64,
}
fn job(d: Vec<u8>) -> Job {
    Job { d, crc: CrcCheck::Never, per_byte: NS_PER_BYTE }
}

/// The least processor time of some parses, of which there are more if one was too long: a machine that
/// is busy with other things may take long once, not five times.
fn time(j: &Job, enough: u64) -> Result<(bool, u64), String> {
    let mut best = u64::MAX;
    let mut ok = false;
    for i in 0..5 {
        let (g, ns) = imp::cpu_of(|| {
            let g = imp::parse(&j.d, j.crc, NetworkParse::Always);
            match &g {
                Got::Ok(_) => Ok(true),
                Got::Err(e) => {
                    let _ = imp::call(|| e.to_string());
                    Ok(false)
                }
                Got::Panic(m) => Err(m.clone()),
            }
        });
        ok = g?;
        best = best.min(ns);
        // twice ten times too long is no accident
        if best <= enough || enough > 0 && i > 0 && best > 10 * enough {
            break;
        }
    }
    Ok((ok, best))
}

fn work(cx: &mut Cx, j: &Job) -> u64 {
    cx.compared += 1;
    let allowed = (NS_FLAT + j.per_byte * j.d.len() as u64) * pace();
    let (ok, best) = match time(j, allowed) {
        Err(m) => {
            cx.fail(format!("panicked: {m}"));
            return 0;
        }
        Ok(x) => x,
    };
    let o: &[u8] = if ok { b"ok" } else { b"err" };
    if ok {
        cx.accepted += 1;
    } else {
        cx.rejected += 1;
    }
    cx.outcome(&[o, &(j.d.len() as u64 >> 10).to_le_bytes()].concat());
    if std::env::var("MC_WORK").is_ok() {
        println!("{:8.2} ns/byte {:9} bytes {:8.1} ms {}", best as f64 / j.d.len() as f64, j.d.len(), best as f64 / 1e6, cx.trace.join(" "));
    }
    if best > allowed {
        cx.fail(format!("{} bytes of input took {} ms of processor time, allowed {} ms", j.d.len(), best / 1_000_000, allowed / 1_000_000));
    }
    best
}

/// Work on a large input, and whether it is in proportion to that on a part of it.
fn grow(ch: &mut Ch, cx: &mut Cx, build: fn(&mut Ch, &mut Cx, usize) -> Job) {
    let from = ch.log.len();
    let j = build(ch, cx, 1);
    let ns = work(cx, &j);
    if cx.fail.is_some() || ns < NS_GROWTH * pace() {
        return;
    }
    let choices: Vec<u32> = ch.log[from..].iter().map(|x| x.0).collect();
    let part = build(&mut Ch::new(&choices, 0), cx, PART);
    let rate = |j: &Job, ns: u64| ns as f64 / j.d.len() as f64;
    let mut told = String::new();
    for _ in 0..4 {
        cx.compared += 1;
        let (Ok((_, whole)), Ok((_, small))) = (time(&j, 0), time(&part, 0)) else { return cx.fail("panicked") };
        let growth = rate(&j, whole) / rate(&part, small).max(5.0);
        if std::env::var("MC_WORK").is_ok() {
            println!("growth {growth:.2}: {} ms of {} bytes, {} us of {} bytes {}", whole / 1_000_000, j.d.len(), small / 1000, part.d.len(), cx.trace.join(" "));
        }
        if whole < NS_GROWTH * pace() || growth < GROWTH {
            return;
        }
        told = format!(
            "{} bytes of input took {} us of processor time, {} bytes of the same kind {} us, {growth:.1} times as much for each byte",
            part.d.len(),
            small / 1000,
            j.d.len(),
            whole / 1000
        );
    }
    cx.fail(told);
}

/// How many records of a section: none of its lists may have more than 25 000 elements.
const LIST: usize = 25_000;

fn w_header(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let n = ch.of(if cx.thorough { &[20_000usize, 200_000, 1_000_000] } else { &[20_000, 200_000] }) / part;
    let kind = ch.pick(14);
    let mut r = Rep::new();
    let arr = |x: Props| k("a", P::Arr(vec![x]));
    r.props = match kind {
        0 => (0..n).map(|i| k("k", P::Int(i as i32))).collect(),
        1 => (0..n).map(|i| k(&format!("key{i}"), P::Bool(1))).collect(),
        2 => (0..n).map(|_| k("NumFrames", P::Str(t("9")))).collect(),
        3 => (0..n).map(|_| k("MaxChannels", P::Byte(b"x".to_vec(), b"y".to_vec()))).collect(),
        4 => (0..n).map(|_| k("", P::ByteNone(0))).collect(),
        5 => (0..n / LIST + 1).map(|_| k("a", P::Arr(vec![vec![]; LIST]))).collect(),
        6 => (0..n / 60).map(|_| (0..60).fold(k("i", P::Int(1)), |p, _| arr(vec![p]))).collect(),
        7 => (0..n / 60).map(|_| (0..60).fold(k("i", P::Int(1)), |p, _| k("s", P::Struct("t".into(), vec![p])))).collect(),
        8 => (0..n / 2000).map(|_| k("t", P::Str(Txt::W(vec![b'a'; 9998])))).collect(),
        9 => (0..n / 2000).map(|_| k("t", P::Str(Txt::W(vec![0xe9; 9998])))).collect(),
        10 => (0..n / 2000).map(|_| k("t", P::Str(Txt::U(vec![0x4e2d; 9998])))).collect(),
        11 => (0..n / 2000).map(|i| k("t", P::Name(Txt::U((0..9998).map(|j| if (i + j) % 2 == 0 { 0xd83d } else { 0xde00 }).collect())))).collect(),
        12 => vec![k("a", P::Arr((0..n.min(LIST)).map(|i| vec![k("frame", P::Int(i as i32)), k("who", P::Str(t("someone")))]).collect()))],
        _ => (0..n).map(|_| k("BuildVersion", P::QWord(1))).collect(),
    };
    cx.say(|| format!("header {kind}"));
    let crc = if ch.flip() { CrcCheck::Always } else { CrcCheck::Never };
    Job { crc, ..job(r.bytes()) }
}

/// Names of many objects.
fn object(kind: usize, i: usize) -> String {
    use crate::golden::PARENTS;
    match kind {
        0 => format!("TheWorld:PersistentLevel.VehiclePickup_Boost_TA_{i}"),
        1 => "TAGame.Car_TA".into(),
        2 => PARENTS[i % PARENTS.len()].0.into(),
        3 => format!("Archetypes.Unknown_{i}.Thing"),
        4 => format!("stadium_{i}.TheWorld:PersistentLevel.CrowdActor_TA_{}", i / 2),
        5 => "Unknown".into(),
        6 => String::new(),
        _ => format!("{}{i}", "Long.".repeat(40)),
    }
}

fn w_tables(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let n = if cx.thorough { ch.of(&[2000usize, 8000, LIST]) } else { ch.of(&[8000, LIST]) } / part;
    let kind = ch.pick(8);
    let cache = ch.pick(9);
    cx.say(|| format!("{n} objects {kind}, cache {cache}"));
    let mut r = Rep::new().prop("NumFrames", P::Int(0));
    r.objects = (0..n).map(|i| t(&object(kind, i))).collect();
    let id = |i: usize| i as i32;
    let m = n as i32;
    r.cache = match cache {
        0 => vec![],
        1 => (0..n).map(|i| (id(i), id(i) - 1, id(i), vec![])).collect(),
        2 => (0..n).map(|i| (id(i), id(i) - 1, id(i), vec![(0, 1), (1, 2), (2, 3)])).collect(),
        3 => (0..n).map(|i| (id(i), 0, 0, vec![(m - 1, id(i))])).collect(),
        4 => (0..n).map(|i| (0, id(i), id(i), vec![(0, 1), (m - 1, 1)])).collect(),
        // all its properties under one id
        5 => (0..40).map(|i| (m - 1, id(i), 7, (0..n as i32).map(|i| (i, 5)).collect())).collect(),
        6 => vec![(m / 2, 0, 0, (0..n as i32).map(|i| (i, i % 200)).collect())],
        7 => (0..n).map(|i| (m - 1 - id(i), 7, 7, vec![(id(i), id(i) % 64)])).collect(),
        _ => (0..n).map(|i| (id(i), m - id(i), 0, vec![(0, m), (0, m - 1)])).collect(),
    };
    job(r.bytes())
}

/// Objects that share one name, and many properties of that class.
fn w_same(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let n = if cx.thorough { ch.of(&[2000usize, 8000, LIST]) } else { ch.of(&[4000, LIST]) } / part;
    let lists = ch.of(&[1usize, 4]);
    let owner = ch.pick(3);
    let class = ch.of(&["TAGame.Car_TA", "Engine.Actor", "Archetypes.Ball.Ball_Default"]);
    cx.say(|| format!("{n} times {class}, {lists} lists of properties"));
    let mut r = Rep::new().prop("NumFrames", P::Int(0));
    r.objects = vec![t(class); n];
    let at = [0, 1, n as i32 - 1][owner];
    r.cache = (0..lists as i32).map(|l| (at, 0, l, (0..n as i32).map(|i| (0, l * n as i32 + i)).collect())).collect();
    job(r.bytes())
}

/// Names that the FNV hash of strings cannot tell apart: the low 16 bits and the top 7 bits, which are
/// what a hash table looks at, are the same in all of them. Replays name what they want: to find such
/// names takes a second. Names in the persistent level have a known class.
fn colliding(placed: bool) -> &'static [String] {
    static NAMES: [std::sync::OnceLock<Vec<String>>; 2] = [const { std::sync::OnceLock::new() }; 2];
    const PRIME: u64 = 0x100_0000_01b3;
    let step = |h: u64, b: u8| (h ^ u64::from(b)).wrapping_mul(PRIME);
    let letter = |x: u32| b'A' + (x & 31) as u8;
    NAMES[usize::from(placed)].get_or_init(|| {
        let start = if placed { "TheWorld:PersistentLevel.VehiclePickup_Boost_TA_" } else { "X" };
        let found = |part: u32| {
            let mut v = vec![];
            let base = start.bytes().fold(0xcbf2_9ce4_8422_2325, step);
            for i in 0u32.. {
                let head = [letter(part), letter(i), letter(i >> 5), letter(i >> 10), letter(i >> 15)];
                let h = head.iter().fold(base, |h, b| step(h, *b));
                for two in (0..1 << 10).map(|j| [letter(j), letter(j >> 5)]) {
                    let g = step(step(h, two[0]), two[1]);
                    // the last letter makes the low sixteen bits one and the same
                    let last = g as u8 ^ 0x34;
                    if (g >> 8) as u8 == 0x12 && (33..127).contains(&last) && step(step(g, last), 0xff) >> 57 == 0x33 {
                        let tail: Vec<u8> = head.iter().chain(&two).chain([&last]).copied().collect();
                        v.push(start.to_string() + std::str::from_utf8(&tail).unwrap());
                        if v.len() == COLLIDING / 8 {
                            return v;
                        }
                    }
                }
            }
            unreachable!()
        };
        std::thread::scope(|s| {
            let parts: Vec<_> = (0..8).map(|p| s.spawn(move || found(p))).collect();
            parts.into_iter().flat_map(|t| t.join().unwrap()).collect()
        })
    })
}
const COLLIDING: usize = 16_000;

fn w_collide(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let n = COLLIDING / part;
    let placed = ch.flip();
    let table = ch.pick(3);
    cx.say(|| format!("{n} names of one hash, placed {placed}, cache {table}"));
    let mut r = Rep::new().prop("NumFrames", P::Int(0));
    r.objects = colliding(placed).iter().take(n).map(|s| t(s)).collect();
    r.cache = match table {
        0 => vec![],
        1 => vec![(0, 0, 0, (0..n as i32).map(|i| (i, i)).collect())],
        _ => (0..n as i32).map(|i| (i, 0, i, vec![])).collect(),
    };
    job(r.bytes())
}

fn w_body(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let n = LIST / part;
    let list = ch.pick(8);
    let text = ch.pick(5);
    let e = match text {
        0 => t(""),
        1 => t(&"x".repeat(60)),
        2 => Txt::W(vec![0x80; 60]),
        3 => Txt::U(vec![0x4e2d; 40]),
        _ => Txt::U(vec![0xd800; 40]),
    };
    cx.say(|| format!("list {list}, text {text}"));
    let mut r = Rep::new();
    match list {
        0 => r.levels = vec![e; n],
        1 => r.keyframes = vec![(0, 0, 0); n],
        2 => r.debug = vec![(0, e.clone(), e); n],
        3 => r.ticks = vec![(e, 0); n],
        4 => r.packages = vec![e; n],
        5 => r.objects = vec![e; n],
        6 => r.names = vec![e; n],
        _ => r.classes = vec![(vec![b'c'; 1 + text * 20], 0); n],
    }
    Job { crc: CrcCheck::Always, ..job(r.bytes()) }
}

/// Network data of one kind of record.
fn w_records(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let bytes = if cx.thorough { 8 << 20 } else { 2 << 20 } / part;
    let bits = bytes * 8;
    let kind = ch.pick(18);
    let max = ch.of(&[1023u32, 2, 65_536, 1 << 30]);
    cx.say(|| format!("records {kind}, {max} channels"));
    let mut w = W::new(LAST_VER, &[name_of(Tag::Boolean), name_of(Tag::String), name_of(Tag::Enum)]);
    w.rep.props.push(k("MaxChannels", P::Int(max as i32)));
    w.max_ch = max;
    w.rep.names = (0..200).map(|i| t(&format!("n{i}"))).collect();
    let mut net = w.net();
    let mut frames = 1;
    net.frame(1.0, 1.0);
    let more = |net: &Net| net.w.bytes.len() * 8 < bits;
    let wrap = |i: u32| i % (max - 1).max(1);
    let mut i = 0u32;
    match kind {
        0 => {
            net.new_actor(0, 0, 0).upd(0);
            while more(&net) {
                net.attr(1, w.largest).w.bit(true);
            }
            net.end_upd();
        }
        1 => {
            while more(&net) {
                net.del(wrap(1));
            }
        }
        // every id there is, forwards and backwards and far apart
        2..=4 => {
            while more(&net) {
                let id = [wrap(i), max - 1 - wrap(i), wrap(i.wrapping_mul(0x9E37_79B1))][kind - 2];
                net.new_actor(id, 0, 0);
                i += 1;
            }
        }
        5 => {
            while more(&net) {
                net.new_actor(wrap(i), 0, 0).del(wrap(i));
                i += 1;
            }
        }
        6 => {
            net.end_frame();
            while more(&net) {
                net.frame(1.0, 1.0).end_frame();
                frames += 1;
            }
        }
        // many are alive, frames change little
        7..=9 => {
            for i in 0..(max - 1).min(20_000 / part as u32) {
                net.new_actor(max - 1 - wrap(i), 0, 0);
            }
            net.end_frame();
            while more(&net) {
                net.frame(1.0, 1.0);
                match kind {
                    7 => {}
                    8 => {
                        net.upd(max - 1).attr(1, w.largest).w.bit(true);
                        net.end_upd();
                    }
                    _ => {
                        net.del(max - 1).new_actor(max - 1, 0, 0);
                    }
                }
                net.end_frame();
                frames += 1;
            }
        }
        10 => {
            net.new_actor(0, 0, 0);
            while more(&net) {
                net.upd(0).attr(3, w.largest).w.put(1, 11);
                net.end_upd();
            }
        }
        // all alive, each updated in turn
        11 => {
            let n = (max - 1).clamp(1, 20_000 / part as u32);
            for i in 0..n {
                net.new_actor(i, 0, 0);
            }
            while more(&net) {
                net.upd(i % n).attr(1, w.largest).w.bit(true);
                net.end_upd();
                i += 1;
            }
        }
        12 => {
            net.new_actor(0, 0, 0).upd(0);
            while more(&net) {
                net.attr(2, w.largest);
                t("").bits(&mut net.w);
            }
            net.end_upd();
        }
        13 => {
            net.new_actor(0, 0, 0).upd(0);
            let e = Txt::W(vec![0xe9; 1000]);
            while more(&net) {
                net.attr(2, w.largest);
                e.bits(&mut net.w);
            }
            net.end_upd();
        }
        // many come, then all go, the last or the first of them first
        14 | 15 => {
            let n = (max - 1).min(40_000 / part as u32);
            while more(&net) {
                for i in 0..n {
                    net.new_actor(max - 1 - i, 0, 0);
                }
                for i in 0..n {
                    net.del(max - 1 - if kind == 14 { i } else { n - 1 - i });
                }
                net.end_frame().frame(1.0, 1.0);
                frames += 1;
            }
        }
        // updates of nothing
        16 => {
            net.new_actor(0, 0, 0);
            while more(&net) {
                net.upd(0).end_upd();
            }
        }
        _ => {
            net.new_actor(0, 0, 0).upd(0);
            let e = Txt::U(vec![0x4e2d; 500]);
            while more(&net) {
                net.attr(2, w.largest);
                e.bits(&mut net.w);
            }
            net.end_upd();
        }
    }
    if frames == 1 || kind == 14 || kind == 15 {
        net.end_frame();
    }
    // whole, or with an error behind all of it
    let bad = ch.flip();
    if bad {
        net.frame(-1.0, 1.0).end_frame();
        frames += 1;
    }
    Job { per_byte: NS_PER_BYTE_DENSE, ..job(w.file(frames, net.bytes())) }
}

/// Each kind of attribute, again and again.
fn w_attrs(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let bytes = if cx.thorough { 8 << 20 } else { 1 << 20 } / part;
    let tag = ch.of(&TAGS);
    let ver = ch.of(&[LAST_VER, (868, 20, 5)]);
    let apart = ch.flip();
    cx.say(|| format!("{tag:?} {ver:?}"));
    let w = W::new(ver, &[name_of(tag)]);
    let pay = default_attr(tag, ver, w.product0, false);
    let mut net = w.net();
    net.frame(1.0, 1.0).new_actor(0, 0, 0);
    let mut frames = 1;
    if !apart {
        net.upd(0);
    }
    while net.w.bytes.len() < bytes {
        if apart {
            net.upd(0);
        }
        net.attr(1, w.largest).w.append(&pay);
        if apart {
            net.end_upd().end_frame().frame(1.0, 1.0);
            frames += 1;
        }
    }
    if !apart {
        net.end_upd();
    }
    net.end_frame();
    Job { per_byte: NS_PER_BYTE_DENSE, ..job(w.file(frames, net.bytes())) }
}

/// Small inputs that declare much, and much behind a small replay.
fn w_claims(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.pick(4)).bytes();
    let i = ch.pick(d.len() - 3);
    let v = ch.of(&[i32::MAX, -1, i32::MIN, 24_999, 10_000, 1 << 24, 0x7fff_ff00]);
    d[i..i + 4].copy_from_slice(&v.to_le_bytes());
    if ch.flip() {
        d.resize(d.len() + (1 << 16), 0);
    }
    work(cx, &Job { crc: CrcCheck::OnError, ..job(d) });
}

/// Classes with many properties, all of them updated, on many actors.
fn w_streams(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let n = (ch.of(&[64usize, 4096, LIST]) / part).max(4);
    let step = ch.of(&[1i32, 7, 65_536]);
    let actors = (ch.of(&[1u32, 1000]) / part as u32).max(1);
    cx.say(|| format!("{n} properties {step} apart, {actors} actors"));
    let mut w = W::new(LAST_VER, &[name_of(Tag::Boolean)]);
    w.rep.cache[0].3 = (0..n as i32).map(|i| (1, i * step)).collect();
    w.largest = (n as i32 - 1) * step;
    let mut net = w.net();
    net.frame(1.0, 1.0);
    for a in 0..actors {
        net.new_actor(a, 0, 0);
    }
    let total = if cx.thorough { 1_000_000 } else { 200_000 } / part;
    for i in 0..total {
        net.upd(i as u32 % actors).attr((i % n) as u32 * step as u32, w.largest).w.bit(true);
        net.end_upd();
    }
    net.end_frame();
    job(w.file(1, net.bytes()))
}

/// One long list or table, and many records of one kind in the network data.
fn w_both(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let n = 24_000 / part;
    let table = ch.pick(18);
    let kind = ch.pick(9);
    let ver = ch.of(&[LAST_VER, (868, 15, 0)]);
    let bad = matches!(kind, 0 | 1) && ch.flip();
    cx.say(|| format!("table {table}, records {kind}, {ver:?}"));
    let mut w = W::new(ver, &[name_of(Tag::Boolean), name_of(Tag::LoadoutOnline), "Verif.Unknown_TA:Attribute"]);
    w.max_ch = 70_000;
    w.rep.props.push(k("MaxChannels", P::Int(70_000)));
    let o = w.rep.objects.len() as i32;
    let id = |i: usize| o + i as i32;
    let texts = |f: &dyn Fn(usize) -> String| (0..n).map(|i| t(&f(i))).collect::<Vec<_>>();
    let r = &mut w.rep;
    match table {
        0 => r.props.splice(0..0, (0..n).map(|i| k(&format!("k{i}"), P::Int(1)))).for_each(drop),
        1 => r.props.extend((0..n).map(|_| k("", P::Bool(1)))),
        2 => r.props.insert(0, k("a", P::Arr((0..n).map(|i| vec![k("frame", P::Int(i as i32))]).collect()))),
        3 => r.levels = texts(&|i| format!("l{i}")),
        4 => r.keyframes = (0..n).map(|i| (0x3f80_0000, i as i32, i as i32)).collect(),
        5 => r.debug = (0..n).map(|i| (i as i32, t("u"), t("x"))).collect(),
        6 => r.ticks = (0..n).map(|i| (t("Team0Goal"), i as i32)).collect(),
        7 => r.packages = texts(&|i| format!("p{i}")),
        8 => r.names = texts(&|i| format!("n{i}")),
        9 => r.classes = (0..n).map(|i| (format!("c{i}").into_bytes(), i as i32)).collect(),
        10..=12 => r.objects.extend(texts(&|i| object([0, 3, 1][table - 10], i))),
        13 => {
            r.objects.extend(texts(&|i| object(3, i)));
            r.cache.extend((0..n).map(|i| (id(i), 0, 0, vec![])));
        }
        14 => {
            r.objects.extend(texts(&|i| object(0, i)));
            r.cache.extend((0..n).map(|i| (id(i), 0, 0, vec![(1, 1), (2, 2)])));
        }
        15 => r.cache.extend((0..n).map(|i| (i32::MAX - i as i32, 0, 0, vec![(1, 1)]))),
        // properties of the class itself
        16 => {
            r.cache[0].3.extend((4..4 + n as i32).map(|i| (1, i)));
            w.largest = 3 + n as i32;
        }
        _ => {
            r.cache.extend((0..n).map(|i| (0, 0, i as i32, vec![(1, 70_000 - i as i32 % 100)])));
            w.largest = 70_000;
        }
    }
    let mut net = w.net();
    net.frame(1.0, 1.0).new_actor(0, 0, 0);
    let pay = default_attr(Tag::LoadoutOnline, ver, w.product0, false);
    let mut frames = 1;
    let many = if kind == 4 { 6_000 } else { 24_000 } / part as u32;
    for i in 1..many {
        match kind {
            // nothing, with its frame
            0 => {}
            1 | 5 => {
                net.new_actor(i, i as i32, 0);
            }
            2 | 6 => {
                net.upd(0).attr(1, w.largest).w.bit(true);
                net.end_upd();
            }
            // come and go
            3 | 7 => {
                net.new_actor(i % 1000 + 1, 0, 0).del(i % 1000 + 1);
            }
            4 => {
                net.upd(0).attr(2, w.largest).w.append(&pay);
                net.end_upd();
            }
            _ => {
                net.del(i % 60_000);
            }
        }
        if matches!(kind, 0 | 5..=7) {
            net.end_frame().frame(1.0, 1.0);
            frames += 1;
        }
    }
    // what nobody knows how to decode
    if bad {
        net.upd(0).attr(3, w.largest);
        net.end_upd();
    }
    net.end_frame();
    Job { per_byte: NS_PER_BYTE_DENSE, ..job(w.file(frames, net.bytes())) }
}

/// Much at first, then many frames that hold little.
fn w_peak(ch: &mut Ch, cx: &mut Cx, part: usize) -> Job {
    let first = ch.pick(9);
    let then = ch.pick(8);
    let ver = ch.of(&[LAST_VER, (868, 15, 0)]);
    let last = ch.flip();
    cx.say(|| format!("first {first}, then {then}, {ver:?}"));
    let mut w = W::new(ver, &[name_of(Tag::Boolean), name_of(Tag::String), name_of(Tag::LoadoutsOnline), name_of(Tag::PartyLeader)]);
    w.max_ch = 20_000;
    w.rep.props.push(k("MaxChannels", P::Int(20_000)));
    let (n, frames) = (4_000 / part as u32, 6_000 / part as u32);
    let pay = default_attr(Tag::LoadoutsOnline, ver, w.product0, false);
    let id = default_attr(Tag::PartyLeader, ver, w.product0, false);
    let mut net = w.net();
    net.frame(1.0, 1.0).new_actor(0, 0, 0).end_frame();
    let mut more = 1;
    let much = |net: &mut Net| match first {
        0 => {
            for i in 1..n {
                net.new_actor(i, 0, 0);
            }
        }
        1 => {
            for _ in 0..n {
                net.upd(0).attr(1, w.largest).w.bit(true);
                net.end_upd();
            }
        }
        2 => {
            net.upd(0);
            for _ in 0..n {
                net.attr(1, w.largest).w.bit(true);
            }
            net.end_upd();
        }
        3 => {
            for i in 0..n {
                net.del(i + 10_000);
            }
        }
        4..=6 => {
            net.upd(0).attr(2, w.largest);
            [Txt::W(vec![b'a'; 1_000]), Txt::W(vec![0x80; 1_000]), Txt::U(vec![0x4e2d; 500])][first - 4].bits(&mut net.w);
            net.end_upd();
        }
        7 => {
            net.upd(0);
            for _ in 0..n / 8 {
                net.attr(3, w.largest).w.append(&pay);
            }
            net.end_upd();
        }
        _ => {
            for i in 1..n {
                net.new_actor(i, 0, 0);
            }
            for i in 1..n {
                net.upd(i).attr(1, w.largest).w.bit(true);
                net.end_upd();
            }
            for i in 1..n {
                net.del(i);
            }
        }
    };
    if !last {
        much(net.frame(1.0, 1.0));
        net.end_frame();
        more += 1;
    }
    for i in 0..frames {
        net.frame(1.0, 1.0);
        match then {
            0 => {}
            1 => {
                net.new_actor(5_000 + i % 4_000, 0, 0);
            }
            2 => {
                net.upd(0).attr(1, w.largest).w.bit(true);
                net.end_upd();
            }
            3 => {
                net.del(11_000);
            }
            4 => {
                net.new_actor(11_000, 0, 0).upd(11_000).attr(1, w.largest).w.bit(true);
                net.end_upd().del(11_000);
            }
            5 => {
                net.upd(0).attr(2, w.largest);
                t("a").bits(&mut net.w);
                net.end_upd();
            }
            6 => {
                net.upd(0).attr(3, w.largest).w.append(&pay);
                net.end_upd();
            }
            _ => {
                net.upd(0).attr(4, w.largest).w.append(&id);
                net.end_upd();
            }
        }
        net.end_frame();
    }
    if last {
        much(net.frame(1.0, 1.0));
        net.end_frame();
        more += 1;
    }
    Job { per_byte: NS_PER_BYTE_DENSE, ..job(w.file(frames as i32 + more, net.bytes())) }
}

/// Memory of a large input is in proportion to that of a part of it.
pub fn memory(ch: &mut Ch, cx: &mut Cx, build: fn(&mut Ch, &mut Cx, usize) -> Job) {
    let from = ch.log.len();
    let j = build(ch, cx, 1);
    let peak = |j: &Job| {
        let (g, peak) = imp::peak_of(|| imp::parse(&j.d, j.crc, NetworkParse::Always));
        match g {
            Got::Ok(_) => Ok((true, peak)),
            Got::Err(_) => Ok((false, peak)),
            Got::Panic(m) => Err(m),
        }
    };
    cx.compared += 1;
    let (ok, whole) = match peak(&j) {
        Ok(x) => x,
        Err(m) => return cx.fail(format!("panicked: {m}")),
    };
    if ok {
        cx.accepted += 1;
    } else {
        cx.rejected += 1;
    }
    cx.outcome(&(whole >> 12).to_le_bytes());
    if !ok {
        cx.say(|| "rejected".to_string());
    }
    cx.say(|| format!("{} bytes of input, peak of {whole} bytes", j.d.len()));
    if whole < MEM_GROWTH_FROM {
        return;
    }
    let choices: Vec<u32> = ch.log[from..].iter().map(|x| x.0).collect();
    let part = build(&mut Ch::new(&choices, 0), cx, PART);
    cx.compared += 1;
    let small = match peak(&part) {
        Ok(x) => x.1,
        Err(m) => return cx.fail(format!("panicked: {m}")),
    };
    let rate = |j: &Job, p: i64| p as f64 / j.d.len() as f64;
    let growth = rate(&j, whole) / rate(&part, small).max(2.0);
    if std::env::var("MC_WORK").is_ok() {
        println!("memory growth {growth:.2}: {whole} of {} bytes, {small} of {} bytes, {:.1} {}", j.d.len(), part.d.len(), rate(&j, whole), cx.trace.join(" "));
    }
    if growth > MEM_GROWTH {
        cx.fail(format!("{} bytes of input took up to {small} bytes of memory, {} bytes of the same kind {whole}, {growth:.1} times as much for each byte", part.d.len(), j.d.len()));
    }
}
const MEM_GROWTH_FROM: i64 = 8 << 20;
const MEM_GROWTH: f64 = 4.0;

/// Families of C15 that use the inputs of C26.
pub fn memory_families() -> Vec<Fam> {
    vec![
        f("grow_header", 0, |ch, cx| memory(ch, cx, w_header)),
        f("grow_tables", 0, |ch, cx| memory(ch, cx, w_tables)),
        f("grow_same", 0, |ch, cx| memory(ch, cx, w_same)),
        f("grow_body", 0, |ch, cx| memory(ch, cx, w_body)),
        f("grow_records", 0, |ch, cx| memory(ch, cx, w_records)),
        f("grow_attrs", 0, |ch, cx| memory(ch, cx, w_attrs)),
        f("grow_streams", 0, |ch, cx| memory(ch, cx, w_streams)),
        f("grow_both", 0, |ch, cx| memory(ch, cx, w_both)),
        f("grow_peak", 0, |ch, cx| memory(ch, cx, w_peak)),
    ]
}

fn w_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    work(cx, &Job { crc: CrcCheck::Always, ..job(d.clone()) });
}

/// The listed finding: time grows with objects times inherited properties.
fn known_inherit(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(&[6000usize]);
    let mut r = Rep::new().prop("NumFrames", P::Int(0));
    r.objects = vec![t("TAGame.VehiclePickup_Boost_TA")];
    r.objects.extend((0..n).map(|i| t(&object(0, i))));
    r.cache = vec![(0, 0, 0, (0..n as i32).map(|i| (0, i)).collect())];
    work(cx, &job(r.bytes()));
}

pub fn c26() -> Vec<Fam> {
    pace();
    vec![
        f("header", 0, |ch, cx| grow(ch, cx, w_header)),
        f("tables", 0, |ch, cx| grow(ch, cx, w_tables)),
        f("same", 0, |ch, cx| grow(ch, cx, w_same)),
        f("collide", 0, |ch, cx| grow(ch, cx, w_collide)),
        f("body", 0, |ch, cx| grow(ch, cx, w_body)),
        f("records", 0, |ch, cx| grow(ch, cx, w_records)),
        f("attrs", 0, |ch, cx| grow(ch, cx, w_attrs)),
        f("both", 0, |ch, cx| grow(ch, cx, w_both)),
        f("peak", 0, |ch, cx| grow(ch, cx, w_peak)),
        f("claims", 0, w_claims),
        f("streams", 0, |ch, cx| grow(ch, cx, w_streams)),
        f("real", 0, w_real),
        f("known_inherit", 0, known_inherit),
    ]
}

// ---------------------------------------------------------------- C27

fn first_int(r: &boxcars::Replay, key: &str) -> Option<i32> {
    match r.properties.iter().find(|p| p.0 == key) {
        Some((_, boxcars::HeaderProp::Int(x))) => Some(*x),
        _ => None,
    }
}

fn product_fits(r: &boxcars::Replay, p: &boxcars::Product) -> bool {
    use boxcars::ProductValue::*;
    let of = match p.value {
        NoColor | OldColor(_) | NewColor(_) => "TAGame.ProductAttribute_UserColor_TA",
        OldPaint(_) | NewPaint(_) => "TAGame.ProductAttribute_Painted_TA",
        Title(_) => "TAGame.ProductAttribute_TitleID_TA",
        SpecialEdition(_) => "TAGame.ProductAttribute_SpecialEdition_TA",
        OldTeamEdition(_) | NewTeamEdition(_) => "TAGame.ProductAttribute_TeamEdition_TA",
        Absent => return true,
    };
    r.objects.get(usize::from(p.object_ind)).is_some_and(|o| o == of)
}

/// What of an accepted replay contradicts itself.
fn contradiction(r: &boxcars::Replay) -> Option<String> {
    use boxcars::Attribute as A;
    use std::collections::{HashMap, HashSet};
    let frames = &r.network_frames.as_ref()?.frames;
    let v = (r.major_version, r.minor_version, r.net_version.unwrap_or(0));
    let declared = first_int(r, "NumFrames");
    if frames.len() as i64 > declared.unwrap_or(0) as i64 {
        return Some(format!("{} frames, {declared:?} declared", frames.len()));
    }
    let channels = first_int(r, "MaxChannels").unwrap_or(1023) as u32 as i64;
    let lan = r.properties.iter().find(|p| p.0 == "MatchType").is_some_and(|p| p.1.as_string() == Some("Lan"));
    let named = v >= (868, 20, 0) || (v >= (868, 14, 0) && !lan);
    let mut seen = HashSet::new();
    // ids and classes they were spawned as, and what classes have
    let mut had: HashSet<i32> = HashSet::new();
    let mut layout: HashMap<i32, (bool, bool)> = HashMap::new();
    for (i, f) in frames.iter().enumerate() {
        let at = |s: String| Some(format!("frame {i}: {s}"));
        for x in [f.time, f.delta] {
            if x < 0.0 || (x > 0.0 && x < 1e-10) {
                return at(format!("time {} {}", f.time, f.delta));
            }
        }
        if f.time == 0.0 && f.delta == 0.0 {
            return at("is an end marker".into());
        }
        let alive = |a: boxcars::ActorId| (a.0 as u32 as i64) < channels.max(1);
        for n in &f.new_actors {
            if !alive(n.actor_id) {
                return at(format!("new actor {} of {channels}", n.actor_id));
            }
            if r.objects.get(n.object_id.0 as usize).is_none() {
                return at(format!("new actor of object {} of {}", n.object_id, r.objects.len()));
            }
            if n.name_id.is_some() != named {
                return at(format!("name {:?} in version {v:?}", n.name_id));
            }
            let t = n.initial_trajectory;
            let l = (t.location.is_some(), t.rotation.is_some());
            if l == (false, true) || *layout.entry(n.object_id.0).or_insert(l) != l {
                return at(format!("trajectory {t:?} of object {}", n.object_id));
            }
            had.insert(n.actor_id.0);
        }
        for a in &f.deleted_actors {
            if !alive(*a) {
                return at(format!("deleted actor {a} of {channels}"));
            }
        }
        for u in &f.updated_actors {
            if !had.contains(&u.actor_id.0) {
                return at(format!("update of actor {} that never was", u.actor_id));
            }
            let Some(name) = r.objects.get(u.object_id.0 as usize) else {
                return at(format!("attribute of object {} of {}", u.object_id, r.objects.len()));
            };
            if !seen.contains(&(u.stream_id.0, u.object_id.0)) {
                let declared = r.net_cache.iter().any(|c| c.properties.iter().any(|p| (p.stream_id, p.object_ind) == (u.stream_id.0, u.object_id.0)));
                if !declared {
                    return at(format!("stream {} of object {} is declared nowhere", u.stream_id, u.object_id));
                }
                seen.insert((u.stream_id.0, u.object_id.0));
            }
            let Some(tag) = crate::refdec::attrs().get(name.as_str()) else {
                return at(format!("{name} has no known kind"));
            };
            let is = format!("{:?}", u.attribute);
            let is = &is[..is.find(['(', ' ', '{']).unwrap_or(is.len())];
            let fits = match tag {
                Tag::QWordString => is == "QWord" || is == "String",
                Tag::RotationTag => is == "Rotation",
                Tag::PrivateMatchSettings => is == "PrivateMatch",
                t => format!("{t:?}") == is,
            };
            if !fits {
                return at(format!("{name} is a {tag:?}, decoded as {is}"));
            }
            let products: Vec<&boxcars::Product> = match &u.attribute {
                A::LoadoutOnline(x) => x.iter().flatten().collect(),
                A::LoadoutsOnline(x) => x.blue.iter().chain(&x.orange).flatten().collect(),
                _ => vec![],
            };
            if let Some(p) = products.iter().find(|p| !product_fits(r, p)) {
                return at(format!("product {p:?}"));
            }
        }
    }
    None
}

fn consistent(cx: &mut Cx, d: &[u8], crc: CrcCheck, net: NetworkParse) {
    cx.compared += 1;
    match imp::parse(d, crc, net) {
        Got::Panic(m) => cx.fail(format!("panicked: {m}")),
        Got::Err(_) => cx.rejected += 1,
        Got::Ok(r) => {
            cx.accepted += 1;
            let held = r.network_frames.is_some();
            if held != (net == NetworkParse::Always) && net != NetworkParse::IgnoreOnError {
                return cx.fail(format!("frames {held} under {net:?}"));
            }
            if let Some(f) = &r.network_frames {
                let o: Vec<u8> = f.frames.iter().flat_map(|f| [f.new_actors.len() as u8, f.deleted_actors.len() as u8, f.updated_actors.len() as u8]).collect();
                cx.outcome(&o);
            }
            if let Some(m) = contradiction(&r) {
                cx.fail(m);
            }
        }
    }
}

/// Every byte of a replay set to every value.
fn k_bytes(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.pick(4)).bytes();
    let i = ch.pick(d.len());
    let was = d[i];
    for v in 0..=255u8 {
        d[i] = v;
        consistent(cx, &d, CrcCheck::Never, if was == v { NetworkParse::IgnoreOnError } else { NetworkParse::Always });
    }
}

/// Every word at every place, and pairs of changes at a distance.
fn k_words(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.pick(3)).bytes();
    let i = ch.pick(d.len() - 3);
    for v in I32S.iter().chain(&[9, 64, 199, 200, 868, 867, 866, 20, 1 << 24]) {
        d[i..i + 4].copy_from_slice(&v.to_le_bytes());
        consistent(cx, &d, CrcCheck::Never, NetworkParse::Always);
    }
}

/// What a family would parse, with its own findings thrown away.
fn taken(ch: &mut Ch, cx: &Cx, run: fn(&mut Ch, &mut Cx)) -> Vec<u8> {
    let mut own = Cx { thorough: cx.thorough, ..Cx::default() };
    imp::inputs_of(|| run(ch, &mut own)).pop().expect("no input")
}

/// Where the network data of a replay begins, and how much there is.
fn network(d: &[u8]) -> (usize, usize) {
    let h = i32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    let word = |i: usize| i32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as usize;
    // no levels, no key frames
    let at = 16 + h;
    assert_eq!((word(at), word(at + 4)), (0, 0));
    (at + 12, word(at + 8))
}

/// Every bit of the network data, and of the tables, of every plain replay.
fn k_worlds(ch: &mut Ch, cx: &mut Cx) {
    let d = taken(ch, cx, cross::plain);
    flips(cx, d, 1);
}
fn k_kinds(ch: &mut Ch, cx: &mut Cx) {
    let d = taken(ch, cx, cross::all);
    let step = if cx.thorough { 1 } else { 3 };
    flips(cx, d, step);
}
fn flips(cx: &mut Cx, mut d: Vec<u8>, step: usize) {
    consistent(cx, &d, CrcCheck::Always, NetworkParse::Always);
    let (at, n) = network(&d);
    // long lists of fillers are none of what this is about
    let n = if d.len() > 4000 { n } else { d.len() - at };
    for i in (0..n.min(1200) * 8).step_by(step) {
        d[at + i / 8] ^= 1 << (i % 8);
        consistent(cx, &d, CrcCheck::Never, NetworkParse::Always);
        d[at + i / 8] ^= 1 << (i % 8);
    }
}

/// Every pair of bits of the network data of a small replay.
fn k_pairs(ch: &mut Ch, cx: &mut Cx) {
    let mut d = small_world(ch.pick(4));
    let (at, len) = network(&d);
    let i = ch.pick(len * 8 - 1);
    d[at + i / 8] ^= 1 << (i % 8);
    for j in i + 1..len * 8 {
        d[at + j / 8] ^= 1 << (j % 8);
        consistent(cx, &d, CrcCheck::Never, NetworkParse::Always);
        d[at + j / 8] ^= 1 << (j % 8);
    }
}

/// Two frames with the events there are; as it is, among thousands of objects, with many channels, and
/// of an older version.
fn small_world(kind: usize) -> Vec<u8> {
    let mut w = W::new(if kind == 3 { (868, 20, 2) } else { LAST_VER }, &[name_of(Tag::Byte), name_of(Tag::ActiveActor)]);
    w.rep.objects.push(t("Archetypes.Ball.Ball_Default"));
    w.rep.objects.push(t("TAGame.RBActor_TA"));
    match kind {
        1 => w.rep.objects.extend((0..2100).map(|i| t(&format!("F{i}")))),
        2 => {
            w.max_ch = 5000;
            w.rep.props.push(k("MaxChannels", P::Int(5000)));
        }
        _ => {}
    }
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(1, 4, 0).upd(1).attr(1, w.largest).w.u8(77);
    n.end_upd().new_actor(200, 5, 9).vec(3, 1, 2, 3).rot([Some(1), None, Some(2)]).end_frame();
    n.frame(1.5, 0.5).upd(1).attr(2, w.largest).w.put(0x55, 33);
    n.end_upd().del(200).end_frame();
    w.file(2, n.bytes())
}

/// Boundary values at every bit of the network data.
fn k_bitwords(ch: &mut Ch, cx: &mut Cx) {
    let plain = small_world(ch.pick(4));
    let mut d = plain.clone();
    if !matches!(imp::parse(&d, CrcCheck::Always, NetworkParse::Always), Got::Ok(_)) {
        cx.fail("rejected");
    }
    let (at, len) = network(&d);
    let i = ch.pick(len * 8 - 7);
    let put = |d: &mut Vec<u8>, v: u64, n: usize| {
        for b in 0..n.min(len * 8 - i) {
            let (byte, bit) = (at + (i + b) / 8, (i + b) % 8);
            d[byte] = d[byte] & !(1 << bit) | ((v >> b & 1) as u8) << bit;
        }
    };
    let mut try_it = |cx: &mut Cx, v: u64, n: usize| {
        put(&mut d, v, n);
        consistent(cx, &d, CrcCheck::Never, NetworkParse::Always);
        d.copy_from_slice(&plain);
    };
    for v in 0..=255 {
        try_it(cx, v, 8);
    }
    let near = |x: i64| (-12..=12).map(move |y| (x + y) as u32);
    for v in [0i64, 64, 128, 255, 1024, 2106, 65_536, 1 << 24, 1 << 31].into_iter().flat_map(near) {
        try_it(cx, v as u64, 32);
    }
    let mut ends: Vec<u32> = vec![0, 1 << 31, 1, 0x8000_0001, 0x3f80_0000, 0xbf80_0000, 0x7fc0_0000, 0xff80_0000, 0x2edb_e6ff, 0x2edb_e6fe, 0x0080_0000];
    ends.dedup();
    for a in &ends {
        for b in &ends {
            try_it(cx, *a as u64 | (*b as u64) << 32, 64);
        }
    }
}

/// Real replays, whole and with one bit of their network data turned.
fn k_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    let i = ch.pick(if cx.thorough { 60 } else { 4 });
    let mut d = d.clone();
    if i > 0 {
        // network data is by far the largest part
        let n = d.len() * 8 / 10;
        let b = n / 60 * i * 6 + i * 7919;
        let b = b % (d.len() * 6) + d.len();
        d[b / 8] ^= 1 << (b % 8);
    }
    consistent(cx, &d, CrcCheck::Never, NetworkParse::Always);
}

pub fn c27() -> Vec<Fam> {
    vec![
        f("bytes", 0, k_bytes),
        f("words", 0, k_words),
        f("worlds", 1, k_worlds),
        f("kinds", 1, k_kinds),
        f("pairs", 0, k_pairs),
        f("bitwords", 0, k_bitwords),
        f("real", 0, k_real),
    ]
}

// ---------------------------------------------------------------- C28

/// All questions a property can be asked.
fn ask(cx: &mut Cx, p: &boxcars::HeaderProp) {
    use boxcars::HeaderProp as H;
    cx.compared += 1;
    let bits = |x: Option<f32>| x.map(f32::to_bits);
    let want_arr = if let H::Array(x) = p { Some(x) } else { None };
    let want_str = if let H::Name(x) | H::Str(x) = p { Some(x.as_str()) } else { None };
    let checks = [
        ("as_array", p.as_array().map(|x| x as *const _) == want_arr.map(|x| x as *const _)),
        ("as_bool", p.as_bool() == if let H::Bool(x) = p { Some(*x) } else { None }),
        ("as_float", bits(p.as_float()) == if let H::Float(x) = p { Some(x.to_bits()) } else { None }),
        ("as_u64", p.as_u64() == if let H::QWord(x) = p { Some(*x) } else { None }),
        ("as_i32", p.as_i32() == if let H::Int(x) = p { Some(*x) } else { None }),
        ("as_string", p.as_string() == want_str),
        ("is_byte", p.is_byte() == matches!(p, H::Byte { .. })),
    ];
    for (what, ok) in checks {
        if !ok {
            cx.fail(format!("{what} of {p:?}"));
        }
    }
    // equal to its copy, and to nothing of another kind
    let nan = !crate::shape::finite(p) && format!("{p:?}").contains("NaN");
    if (*p == p.clone()) == nan {
        cx.fail(format!("{p:?} and its copy"));
    }
    cx.outcome(&crate::shape::canon(p));
}

fn all_ways(cx: &mut Cx, p: boxcars::HeaderProp) {
    use boxcars::HeaderProp as H;
    ask(cx, &p);
    // what is inside answers for itself
    ask(cx, &H::Array(vec![vec![], vec![("k".into(), p.clone())]]));
    ask(cx, &H::Struct { name: "k".into(), fields: vec![("k".into(), p)] });
}

fn a_numbers(ch: &mut Ch, cx: &mut Cx) {
    use boxcars::HeaderProp as H;
    let hi = ch.pick(if cx.thorough { 1 << 16 } else { 1 << 11 }) as u32;
    let hi = if cx.thorough { hi } else { hi << 5 | (hi & 31) };
    for lo in 0..if cx.thorough { 256u32 } else { 64 } {
        for x in [hi << 16 | lo, hi << 16 | lo << 8 | 0xff, hi << 16 | (0xffff - lo)] {
            ask(cx, &H::Int(x as i32));
            ask(cx, &H::Float(f32::from_bits(x)));
            let q = (x as u64) << 32 | (x as u64).rotate_left(7);
            ask(cx, &H::QWord(q));
            ask(cx, &H::QWord(x as u64));
        }
    }
}

/// Every number there is, of 32 bits (quick: a 32nd of them); those of 64 bits by halves.
fn a_every(ch: &mut Ch, cx: &mut Cx) {
    use boxcars::HeaderProp as H;
    let hi = (ch.pick(1 << 16) as u32) << 16;
    let step = if cx.thorough { 1 } else { 32 };
    for lo in ((hi >> 16) % step..1 << 16).step_by(step as usize) {
        let x = hi | lo;
        let (i, f) = (H::Int(x as i32), H::Float(f32::from_bits(x)));
        let none = |p: &H| p.as_u64().is_none() && p.as_bool().is_none() && p.as_string().is_none() && p.as_array().is_none() && !p.is_byte();
        let ok = i.as_i32() == Some(x as i32) && i.as_float().is_none() && none(&i) && i == i.clone();
        let ok = ok && f.as_float().map(f32::to_bits) == Some(x) && f.as_i32().is_none() && none(&f) && (f == f.clone()) != f32::from_bits(x).is_nan();
        let wide = |q: u64| {
            let q = H::QWord(q);
            q.as_i32().is_none() && q.as_float().is_none() && q.as_bool().is_none() && q.as_string().is_none() && q.as_array().is_none() && !q.is_byte()
        };
        let (p, q) = (x as u64, (x as u64) << 32 | 0xffff);
        let ok = ok && H::QWord(p).as_u64() == Some(p) && H::QWord(q).as_u64() == Some(q) && wide(p) && wide(q) && H::QWord(p) == H::QWord(p) && H::QWord(p) != H::QWord(!p);
        if !ok {
            cx.fail(format!("number {x:#x}"));
        }
    }
    cx.compared += (1 << 16) / step as u64;
    cx.outcome(&hi.to_le_bytes());
}

const TEXTS: [&str; 30] = [
    "", "None", "0", "1", "-1", "true", "false", "1.5", "NaN", "null", "250", "18446744073709551615", "Name", "Str", "IntProperty",
    "ByteProperty", "OnlinePlatform", "OnlinePlatform_Steam", "a", " ", "\0", "\n", "\u{e9}", "\u{4e2d}", "\u{1f600}", "\u{fffd}", "Lan",
    "\u{feff}", "\"", "\\",
];

fn a_texts(ch: &mut Ch, cx: &mut Cx) {
    use boxcars::HeaderProp as H;
    let s = ch.of(&TEXTS);
    let long = ch.of(&[0usize, 1, 15, 16, 23, 24, 255, 5000]);
    let s = format!("{s}{}", "x".repeat(long));
    all_ways(cx, H::Name(s.clone()));
    all_ways(cx, H::Str(s.clone()));
    for o in TEXTS.iter().map(|x| Some(x.to_string())).chain([None, Some(s.clone())]) {
        all_ways(cx, H::Byte { kind: s.clone(), value: o });
    }
    for b in [true, false] {
        all_ways(cx, H::Bool(b));
    }
    for n in 0..4 {
        let fields: Vec<(String, H)> = (0..n).map(|i| (s.clone(), H::Int(i))).collect();
        all_ways(cx, H::Array(vec![fields.clone(); n as usize]));
        all_ways(cx, H::Struct { name: s.clone(), fields });
    }
}

/// Sequences of up to `n` out of `of`.
fn seqs<T: Clone>(of: &[T], n: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|x: &Vec<T>| of.iter().map(move |y| [&x[..], &[y.clone()]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

/// Arrays and structures of all small shapes.
fn shapes() -> Vec<boxcars::HeaderProp> {
    use boxcars::HeaderProp as H;
    let props: Vec<(String, H)> = ["a", "b"].iter().flat_map(|x| [H::Int(0), H::Int(1), H::Str("a".into())].map(|p| (x.to_string(), p))).collect();
    let few = &props[..3];
    let elems: Vec<_> = seqs(few, 2);
    let mut v: Vec<H> = seqs(&elems, 2).into_iter().map(H::Array).collect();
    v.extend(seqs(&seqs(&few[..1], 1), 5).into_iter().map(H::Array));
    v.extend(seqs(&props, 2).into_iter().map(|fields| H::Struct { name: "a".into(), fields }));
    let inner = [H::Array(vec![]), H::Array(vec![vec![]]), H::Struct { name: "a".into(), fields: vec![] }];
    v.extend(inner.iter().map(|x| H::Array(vec![vec![("a".into(), x.clone())]])));
    v.extend(inner.iter().map(|x| H::Struct { name: "a".into(), fields: vec![("a".into(), x.clone())] }));
    v
}

fn a_shapes(ch: &mut Ch, cx: &mut Cx) {
    let v = shapes();
    all_ways(cx, v[ch.pick(v.len())].clone());
}

/// Values of different kinds are never equal, those of one kind are if what they hold is.
fn a_equal(ch: &mut Ch, cx: &mut Cx) {
    use boxcars::HeaderProp as H;
    let all = || -> Vec<H> {
        let mut v = vec![];
        for i in [0i32, 1, -1, 250, i32::MAX, i32::MIN] {
            v.push(H::Int(i));
            v.push(H::QWord(i as u64));
            v.push(H::Float(i as f32));
        }
        v.extend([H::Bool(true), H::Bool(false), H::Float(1.5), H::Float(f32::INFINITY), H::QWord(1 << 40), H::QWord(1 << 40 | 1)]);
        for s in ["", "0", "a", "A", "a ", "None", "250"] {
            v.push(H::Name(s.into()));
            v.push(H::Str(s.into()));
            v.push(H::Byte { kind: s.into(), value: None });
            for t in ["", "a", "None"] {
                v.push(H::Byte { kind: s.into(), value: Some(t.into()) });
            }
            v.push(H::Struct { name: s.into(), fields: vec![] });
            v.push(H::Struct { name: s.into(), fields: vec![("a".into(), H::Int(0))] });
            v.push(H::Struct { name: s.into(), fields: vec![("a".into(), H::QWord(0))] });
            v.push(H::Array(vec![vec![(s.into(), H::Int(0))]]));
        }
        v.extend(shapes());
        v
    };
    let v = all();
    let i = ch.pick(v.len());
    for (j, b) in all().iter().enumerate() {
        cx.compared += 1;
        let same = crate::shape::canon(&v[i]) == crate::shape::canon(b);
        if (v[i] == *b) != same {
            cx.fail(format!("{:?} and {b:?} equal: {}", v[i], !same));
        }
        if i == j && !same {
            cx.fail(format!("{b:?} differs from itself"));
        }
    }
}

/// What a header holds answers as what was written, in every place.
fn a_parsed(ch: &mut Ch, cx: &mut Cx) {
    let kinds: Vec<P> = vec![
        P::Bool(0), P::Bool(1), P::Bool(2), P::Bool(255), P::Byte(b"OnlinePlatform".to_vec(), b"OnlinePlatform_Steam".to_vec()),
        P::Byte(b"".to_vec(), b"".to_vec()), P::Float(0), P::Float(0x8000_0000), P::Float(0x7fc0_0001), P::Float(1), P::Int(0), P::Int(-1), P::Int(i32::MIN),
        P::QWord(0), P::QWord(u64::MAX), P::QWord(1 << 31), P::Name(t("")), P::Name(t("250")), P::Str(t("true")), P::Str(Txt::U(vec![0x4e2d])),
        P::Arr(vec![]), P::Arr(vec![vec![], vec![k("a", P::Int(9))]]), P::Struct("x".into(), vec![]), P::Struct("x".into(), vec![k("y", P::QWord(7))]),
    ];
    let p = kinds[ch.pick(kinds.len())].clone();
    let old = ch.flip();
    let place = ch.pick(3);
    let quirky = old && matches!(p, P::Struct(..));
    let mut r = Rep::new();
    if old {
        r = r.with_ver((0, 0, 0));
    }
    if quirky {
        return;
    }
    let inner = p.clone();
    r.props = match place {
        0 => vec![k("a", p)],
        1 => vec![k("z", P::Int(4)), k("a", P::Arr(vec![vec![k("a", inner)]]))],
        _ if old => vec![k("a", p.clone()), k("a", p)],
        _ => vec![k("a", P::Struct("s".into(), vec![k("a", inner)]))],
    };
    match imp::parse(&r.bytes(), CrcCheck::Always, NetworkParse::Never) {
        Got::Ok(got) => {
            fn visit(cx: &mut Cx, p: &boxcars::HeaderProp) {
                ask(cx, p);
                match p {
                    boxcars::HeaderProp::Array(v) => v.iter().flatten().for_each(|x| visit(cx, &x.1)),
                    boxcars::HeaderProp::Struct { fields, .. } => fields.iter().for_each(|x| visit(cx, &x.1)),
                    _ => {}
                }
            }
            got.properties.iter().for_each(|x| visit(cx, &x.1));
        }
        _ => cx.fail("rejected"),
    }
}

/// Ids convert to numbers and print as what they are.
fn a_ids(ch: &mut Ch, cx: &mut Cx) {
    use boxcars::{ActorId, ObjectId, StreamId};
    let hi = ch.pick(1 << 12) as u32;
    for lo in 0..256u32 {
        for x in [hi << 8 | lo, hi << 20 | lo, hi << 20 | lo << 12 | 0xfff, !(hi << 8 | lo)] {
            let x = x as i32;
            cx.compared += 1;
            let (a, o, s) = (ActorId(x), ObjectId(x), StreamId(x));
            let ok = i32::from(a) == x && i32::from(o) == x && i32::from(s) == x;
            let ok = ok && [usize::from(a), usize::from(o), usize::from(s)].iter().all(|y| *y == x as usize);
            let ok = ok && a.0 == x && o.0 == x && s.0 == x;
            let text = x.to_string();
            let ok = ok && a.to_string() == text && o.to_string() == text && s.to_string() == text;
            let y = x.wrapping_add(1);
            let ord = x.cmp(&y);
            let ok = ok && a.cmp(&ActorId(y)) == ord && o.cmp(&ObjectId(y)) == ord && s.cmp(&StreamId(y)) == ord;
            let ok = ok && a == ActorId(x) && o == ObjectId(x) && s == StreamId(x) && a != ActorId(y) && o != ObjectId(y) && s != StreamId(y);
            if !ok {
                cx.fail(format!("id {x}"));
            }
        }
    }
    cx.outcome(&hi.to_le_bytes());
}

pub fn c28() -> Vec<Fam> {
    vec![
        f("numbers", 0, a_numbers),
        f("every", 0, a_every),
        f("texts", 0, a_texts),
        f("shapes", 0, a_shapes),
        f("equal", 0, a_equal),
        f("parsed", 0, a_parsed),
        f("ids", 0, a_ids),
    ]
}

// ---------------------------------------------------------------- C29

/// What stands for a class in a level, and the class.
const PLACED: [(&str, &str); 6] = [
    ("CrowdActor_TA", "TAGame.CrowdActor_TA"),
    ("CrowdManager_TA", "TAGame.CrowdManager_TA"),
    ("VehiclePickup_Boost_TA", "TAGame.VehiclePickup_Boost_TA"),
    ("InMapScoreboard_TA", "TAGame.InMapScoreboard_TA"),
    ("BreakOutActor_Platform_TA", "TAGame.BreakOutActor_Platform_TA"),
    ("PlayerStart_Platform_TA", "TAGame.PlayerStart_Platform_TA"),
];
const LEVEL: &str = "TheWorld:PersistentLevel.";

/// A replay in which an object of this name is spawned and its class' and its class' parents'
/// properties are updated; accepted only if the name is recognized.
fn placed_file(name: Txt, class: &str, depth: usize, at: usize) -> Vec<u8> {
    let parents = crate::refdec::parents();
    let mut line = vec![class];
    while let Some(p) = parents.get(line[line.len() - 1]) {
        line.push(p);
    }
    line.truncate(depth.max(1));
    let marks = [Tag::Byte, Tag::Enum, Tag::Int];
    let mut objs: Vec<Txt> = line.iter().map(|x| t(x)).collect();
    let mark0 = objs.len() as i32;
    objs.extend(marks.iter().map(|m| t(name_of(*m))));
    let mut rep = Rep::new();
    rep.cache = (0..line.len().min(3)).map(|i| (i as i32, 0, i as i32, vec![(mark0 + i as i32, 3 * i as i32 + 1)])).collect();
    let id = if at == 0 {
        objs.insert(0, name);
        for c in &mut rep.cache {
            c.0 += 1;
            c.3.iter_mut().for_each(|p| p.0 += 1);
        }
        0
    } else {
        objs.push(name);
        objs.len() as i32 - 1
    };
    let n = rep.cache.len();
    let largest = 3 * (n as i32 - 1) + 1;
    rep.objects = objs;
    let mut net = Net::new(1023, rep.ver(), false);
    net.frame(1.0, 0.5).new_actor(7, 1, id).upd(7);
    for (i, bits) in [8, 11, 32].iter().enumerate().take(n) {
        net.attr(3 * i as u32 + 1, largest).w.put(0x15, *bits);
    }
    net.end_upd().end_frame();
    rep.props.push(k("NumFrames", P::Int(1)));
    rep.network = net.bytes();
    rep.bytes()
}

fn placed(cx: &mut Cx, name: Txt, class: &str, depth: usize, at: usize) {
    crate::cmp::net_check(cx, &placed_file(name, class, depth, at), crate::cmp::Lvl::Any);
}

/// Every kind of object in levels of all kinds of names, with all kinds of numbers.
fn n_names(ch: &mut Ch, cx: &mut Cx) {
    let (kind, class) = ch.of(&PLACED);
    let levels = [
        "", "st.", "stadium_foggy_p.", ".", "a.b.", "Stadium_P.", "\u{e9}\u{df}.", "TheWorld.", "TheWorld:PersistentLevel.", "x:y.", " .", "..",
        "stadium", "stadium.TheWorld:", "0.", "-.",
    ];
    let level = ch.of(&levels);
    let prefix = ch.of(&[LEVEL, "TheWorld:PersistentLevel", "theworld:persistentlevel.", "TheWorld.PersistentLevel.", "PersistentLevel.", "TheWorld:Level.", ""]);
    let ends = ["", "_0", "_7", "_12", "_1234567", "0", ".x", "_", "_TA", ":p", "_\u{e9}", " ", "_TA_1.TheWorld:PersistentLevel.CrowdActor_TA_3", "A"];
    for end in ends {
        let s = format!("{level}{prefix}{kind}{end}");
        let enc = |s: &str| if s.is_ascii() { t(s) } else { Txt::U(s.encode_utf16().collect()) };
        for depth in [1, 2, 3] {
            placed(cx, enc(&s), class, depth, depth % 2);
        }
        // the same as UTF-16
        placed(cx, Txt::U(s.encode_utf16().collect()), class, 2, 0);
    }
}

/// Every name one edit away.
fn n_edits(ch: &mut Ch, cx: &mut Cx) {
    let (kind, class) = ch.of(&PLACED);
    let level = ch.of(&["", "st_p."]);
    let end = ch.of(&["", "_1"]);
    let base = format!("{level}{LEVEL}{kind}{end}").into_bytes();
    let i = ch.pick(base.len() + 1);
    for c in [b'a', b'A', b'_', b'.', b':', b'0', b' ', 0x80, b'T', b'z'] {
        let mut s = base.clone();
        s.insert(i, c);
        placed(cx, Txt::W(s), class, 2, 0);
        if i < base.len() {
            let mut s = base.clone();
            s[i] = c;
            placed(cx, Txt::W(s), class, 2, 0);
        }
    }
    if i < base.len() {
        let mut s = base.clone();
        s.remove(i);
        placed(cx, Txt::W(s), class, 2, 0);
        let mut s = base.clone();
        s[i] ^= 0x20;
        placed(cx, Txt::W(s), class, 2, 0);
        placed(cx, Txt::W(base[..i].to_vec()), class, 2, 0);
        placed(cx, Txt::W(base[i..].to_vec()), class, 2, 0);
    }
}

/// Level names and numbers of every length.
fn n_lengths(ch: &mut Ch, cx: &mut Cx) {
    let (kind, class) = ch.of(&PLACED);
    let n = ch.pick(70);
    let c = ch.of(&[b's', b'_', b'0', 0xe9]);
    let lv: Vec<u8> = vec![c; n];
    let mid = format!("{LEVEL}{kind}").into_bytes();
    placed(cx, Txt::W([&lv[..], b".", &mid].concat()), class, 2, 0);
    placed(cx, Txt::W([&lv[..], &mid].concat()), class, 2, 0);
    placed(cx, Txt::W([&mid[..], &lv].concat()), class, 2, 0);
    placed(cx, Txt::W([b"st.", &mid[..], b"_", &lv].concat()), class, 2, 0);
    placed(cx, Txt::W([&lv[..], b".", &mid, b"_", &lv].concat()), class, 2, 1);
    // only the class itself, without its place in a level
    placed(cx, Txt::W([kind.as_bytes(), &lv].concat()), class, 2, 0);
}

/// Several placed objects at once: each is its own object of its own class.
fn n_many(ch: &mut Ch, cx: &mut Cx) {
    let (a, b, c) = (ch.pick(6), ch.pick(6), ch.pick(6));
    let order = ch.pick(3);
    let kinds = [a, b, c];
    let mut objs: Vec<String> = vec![];
    let names: Vec<String> = kinds.iter().enumerate().map(|(i, x)| format!("{}{LEVEL}{}_{}", ["", "st_p.", "other_p."][(i + a) % 3], PLACED[*x].0, i / 2)).collect();
    let mut classes: Vec<&str> = kinds.iter().map(|x| PLACED[*x].1).collect();
    classes.sort();
    classes.dedup();
    if order == 0 {
        objs.extend(names.iter().cloned());
    }
    let first = objs.len() as i32;
    objs.extend(classes.iter().map(|x| x.to_string()));
    if order == 1 {
        objs.extend(names.iter().cloned());
    }
    let mark = objs.len() as i32;
    let marks = [Tag::Byte, Tag::Enum, Tag::Int];
    objs.extend(marks.iter().map(|m| name_of(*m).to_string()));
    if order == 2 {
        objs.extend(names.iter().rev().cloned());
    }
    let at = |s: &str| objs.iter().position(|o| o == s).unwrap() as i32;
    let mut rep = Rep::new().objs(&objs);
    rep.cache = (0..classes.len() as i32).map(|i| (first + i, 0, i, vec![(mark + i, 2)])).collect();
    let mut net = Net::new(1023, rep.ver(), false);
    net.frame(1.0, 0.5);
    for (i, n) in names.iter().enumerate() {
        net.new_actor(i as u32, 0, at(n));
    }
    for (i, x) in kinds.iter().enumerate() {
        let which = classes.iter().position(|c| *c == PLACED[*x].1).unwrap();
        net.upd(i as u32).attr(2, 2).w.put(0x25 + i as u64, [8, 11, 32][which]);
        net.end_upd();
    }
    net.end_frame();
    rep.props.push(k("NumFrames", P::Int(1)));
    rep.network = net.bytes();
    crate::cmp::net_exact(cx, &rep.bytes());
}

/// All objects of real replays, by name.
fn n_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    let Got::Ok(r) = imp::parse(d, CrcCheck::Never, NetworkParse::Never) else { return };
    let mut seen = std::collections::HashSet::new();
    for o in r.objects.iter().filter(|o| o.contains("TheWorld") && seen.insert(*o)) {
        for (_, class) in PLACED {
            placed(cx, Txt::U(o.encode_utf16().collect()), class, 2, 0);
        }
    }
}

pub fn c29() -> Vec<Fam> {
    vec![
        f("names", 0, n_names),
        f("edits", 0, n_edits),
        f("lengths", 0, n_lengths),
        f("many", 0, n_many),
        f("real", 0, n_real),
    ]
}

// ---------------------------------------------------------------- C30

/// Replays whose frames are to stay as they are.
const SUBJECTS: usize = 4;
fn subject(i: usize) -> Rep {
    match i {
        0 => seed(0),
        1 => seed(2),
        2 => {
            let mut w = W::new((868, 14, 0), &[name_of(Tag::Byte), name_of(Tag::UniqueId), name_of(Tag::RigidBody), name_of(Tag::CamSettings)]);
            w.max_ch = 700;
            w.rep.props.push(k("MaxChannels", P::Int(700)));
            w.rep.props.push(k("NumFrames", P::Int(3)));
            w.rep.props.push(k("BuildVersion", P::Str(t("221120.42953.406184"))));
            w.rep.names = vec![t("n0"), t("n1")];
            let mut n = w.net();
            n.frame(1.0, 0.5).new_actor(1, 1, 0).upd(1);
            for (i, tag) in [Tag::Byte, Tag::UniqueId, Tag::RigidBody, Tag::CamSettings].iter().enumerate() {
                n.attr(i as u32 + 1, w.largest).w.append(&default_attr(*tag, w.rep.ver(), w.product0, true));
            }
            n.end_upd().end_frame();
            n.frame(1.5, 0.5).new_actor(300, 0, 0).end_frame();
            n.frame(2.0, 0.5).upd(300).attr(1, w.largest).w.u8(9);
            n.end_upd().del(1).end_frame();
            w.rep.network = n.bytes();
            w.rep
        }
        // nothing said about match type or build: names of actors, texts and vectors of old
        _ => {
            let tags = [Tag::QWordString, Tag::Location, Tag::RigidBody, Tag::LoadoutOnline, Tag::Reservation];
            let mut w = W::new((868, 14, 0), &tags.map(name_of));
            w.rep.props.push(k("NumFrames", P::Int(5)));
            w.rep.objects.extend([t("Archetypes.Ball.Ball_Default"), t("TAGame.Ball_TA"), t("TAGame.RBActor_TA")]);
            let ball = w.rep.objects.len() as i32 - 3;
            w.rep.cache.push((ball + 1, 0, 1, vec![(2, 2)]));
            let mut n = w.net();
            n.frame(1.0, 0.5).new_actor(1, 1, 0).upd(1);
            for (i, tag) in tags.iter().enumerate() {
                n.attr(i as u32 + 1, w.largest).w.append(&default_attr(*tag, w.rep.ver(), w.product0, false));
            }
            n.end_upd().end_frame();
            n.frame(1.5, 0.5).new_actor(2, 0, ball).vec(11, 100, 200, 300).rot([Some(3), None, Some(-4)]);
            n.upd(2).attr(2, 2).w.append(&default_attr(Tag::Location, w.rep.ver(), w.product0, false));
            n.end_upd().end_frame();
            // the end marker, and zeros behind it
            n.frame(0.0, 0.0);
            n.w.u64(0);
            n.w.u64(0);
            w.rep.network = n.bytes();
            w.rep
        }
    }
}

fn frames_of(g: &Got) -> Result<Vec<u8>, String> {
    match g {
        Got::Ok(r) => Ok(crate::cmp::part_bytes(r, crate::cmp::Part::Frames)),
        Got::Err(e) => Err(format!("rejected: {e}")),
        Got::Panic(m) => Err(format!("panicked: {m}")),
    }
}

fn same_frames(cx: &mut Cx, i: usize, d: &[u8]) {
    cx.compared += 1;
    let want = frames_of(&imp::parse(&subject(i).bytes(), CrcCheck::Always, NetworkParse::Always)).expect("subject");
    let got = imp::parse(d, CrcCheck::Never, NetworkParse::Always);
    if let Got::Ok(r) = &got {
        cx.outcome(&r.header_crc.to_le_bytes());
    }
    match frames_of(&got) {
        Ok(x) if x == want => cx.accepted += 1,
        Ok(_) => cx.fail("other frames"),
        Err(e) => cx.fail(e),
    }
}

/// Header properties that mean nothing to the network data.
fn stray(i: usize) -> (Vec<u8>, P) {
    const KEYS: [&str; 26] = [
        "numframes", "NUMFRAMES", "NumFrames ", " NumFrames", "NumFrame", "NumFramesX", "Num_Frames", "maxchannels", "MaxChannel", "MaxChannelsX", "MatchTyp",
        "matchtype", "MatchTypes", "BuildVersio", "buildversion", "BuildVersions", "BuildID", "Changelist", "ReplayVersion", "RecordFPS", "MajorVersion",
        "NetVersion", "", "Id", "TeamSize", "UnfairTeamSize",
    ];
    let vals = [
        P::Int(0), P::Int(1), P::Int(-1), P::Int(i32::MAX), P::Str(t("Lan")), P::Name(t("Lan")), P::Str(t("3")), P::Bool(1), P::QWord(7), P::Float(0x3f80_0000),
        P::Byte(b"OnlinePlatform".to_vec(), b"OnlinePlatform_PS4".to_vec()), P::ByteNone(3), P::Arr(vec![vec![k("NumFrames", P::Int(0)), k("MaxChannels", P::Int(3))]]),
        P::Struct("NumFrames".into(), vec![k("NumFrames", P::Int(0)), k("MatchType", P::Name(t("Lan")))]), P::Arr(vec![]),
    ];
    k(KEYS[i % KEYS.len()], vals[i / KEYS.len()].clone())
}
const STRAYS: usize = 26 * 15;

/// Properties after the first of their name.
fn repeats() -> Vec<(Vec<u8>, P)> {
    vec![
        k("NumFrames", P::Int(0)), k("NumFrames", P::Int(-1)), k("NumFrames", P::Str(t("1"))), k("MaxChannels", P::Int(5)), k("MaxChannels", P::Name(t("5"))),
        k("MatchType", P::Int(1)), k("MatchType", P::Name(t("lan"))), k("MatchType", P::Name(t("LAN"))), k("MatchType", P::Str(t("Lan "))), k("MatchType", P::Str(t("Online"))),
    ]
}

/// All that a file holds and frames do not depend on, in up to a few places at once.
fn i_edits(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(SUBJECTS);
    let mut r = subject(i);
    let texts = |n: usize| -> Vec<Txt> {
        match n {
            1 => vec![],
            2 => vec![t("")],
            3 => vec![t("NumFrames"), t("x")],
            4 => vec![Txt::U(vec![0x4e2d; 50]); 30],
            5 => (0..300).map(|i| t(&format!("t{i}"))).collect(),
            _ => vec![Txt::W(vec![0xff]), t("None"), t("TAGame.Car_TA")],
        }
    };
    let n = ch.dev(4);
    if n > 0 {
        r.game = [t(""), t("TAGame.Replay_Season_TA"), Txt::U(vec![0x4e2d])][n - 1].clone();
    }
    let n = ch.dev(STRAYS + 1);
    if n > 0 {
        r.props.insert(0, stray(n - 1));
    }
    let rep = repeats();
    // those subjects that say which match type it is say it first
    let n = ch.dev(rep.len() + 1);
    if n > 0 {
        let p = rep[n - 1].clone();
        let has = r.props.iter().any(|x| x.0 == p.0);
        if has || p.0 == b"MatchType" {
            r.props.push(p);
        }
    }
    let n = ch.dev(7);
    if n > 0 {
        r.levels = texts(n);
    }
    let n = ch.dev(5);
    if n > 0 {
        r.keyframes = [vec![], vec![(0, 0, 0)], vec![(0xffff_ffff, -1, i32::MIN)], (0..100).map(|i| (i, i as i32, 7)).collect()][n - 1].clone();
    }
    let n = ch.dev(4);
    if n > 0 {
        r.debug = [vec![], vec![(-1, t(""), t("x"))], vec![(7, t("NumFrames"), Txt::U(vec![9])); 20]][n - 1].clone();
    }
    let n = ch.dev(4);
    if n > 0 {
        r.ticks = [vec![], vec![(t("Team0Goal"), -1)], vec![(t("x"), 1); 40]][n - 1].clone();
    }
    let n = ch.dev(7);
    if n > 0 {
        r.packages = texts(n);
    }
    let n = ch.dev(7);
    if n > 0 {
        r.names = texts(n);
    }
    let n = ch.dev(6);
    if n > 0 {
        let o = r.objects.len() as i32;
        r.classes = match n {
            1 => vec![],
            2 => vec![(b"".to_vec(), -1)],
            3 => vec![(b"TAGame.Car_TA".to_vec(), 0), (b"TAGame.Car_TA".to_vec(), o - 1)],
            4 => (0..o).map(|i| (format!("c{i}").into_bytes(), o - 1 - i)).collect(),
            _ => vec![(b"Engine.Actor".to_vec(), i32::MAX); 20],
        };
    }
    // who is whose parent is in the names of classes, not in these numbers
    let n = ch.dev(7);
    if n > 0 {
        let m = r.cache.len();
        for (j, c) in r.cache.iter_mut().enumerate() {
            (c.1, c.2) = [(0, 0), (-1, -1), (j as i32, j as i32), (m as i32 - j as i32, j as i32), (i32::MAX, i32::MIN), (7, 7)][n - 1];
        }
    }
    match ch.dev(5) {
        0 => {}
        1 => r.cache.reverse(),
        2 => {
            // what nobody is spawned as
            r.objects.push(t("Verif.Nobody_TA"));
            let o = r.objects.len() as i32 - 1;
            r.cache.push((o, 1, 99, vec![(0, 3), (o, 4)]));
        }
        3 => r.cache.insert(0, (i32::MAX, 0, 0, vec![(0, 1)])),
        // lists of a class in two pieces
        _ => {
            let c = &mut r.cache[0];
            let tail = c.3.split_off(c.3.len() / 2);
            let c = (c.0, c.1, c.2, tail);
            r.cache.push(c);
        }
    }
    match ch.dev(4) {
        0 => {}
        1 => r.objects.extend((0..400).map(|i| t(&format!("Extra.{i}")))),
        2 => r.objects.push(t("")),
        _ => {
            let again: Vec<Txt> = r.objects.clone();
            r.objects.extend(again);
        }
    }
    let n = ch.dev(4);
    if n > 0 {
        r.size = Some([0, 1, u32::MAX][n - 1]);
    }
    let n = ch.dev(3);
    if n > 0 {
        r.pad = [1, u32::MAX][n - 1];
    }
    let n = ch.dev(5);
    if n > 0 {
        r.network.extend(vec![[0u8, 0xff, 0x55, 0xaa][n - 1]; 40]);
    }
    let mut d = r.bytes();
    match ch.dev(4) {
        0 => {}
        1 => d[4] ^= 1,
        2 => {
            let h = r.head_bytes().len();
            d[8 + h + 4] ^= 0x80;
        }
        _ => d.extend_from_slice(&[0xff; 33]),
    }
    same_frames(cx, i, &d);
}
fn i_edits_deep(ch: &mut Ch, cx: &mut Cx) {
    if cx.thorough {
        i_edits(ch, cx)
    }
}

/// Header properties of real replays, none of which frames depend on.
const REAL_KEYS: [&str; 54] = [
    "TeamSize", "UnfairTeamSize", "bUnfairBots", "bForfeit", "Team0Score", "Team1Score", "TotalSecondsPlayed", "MatchStartEpoch", "WinningTeam", "frame",
    "PlayerName", "PlayerTeam", "Goals", "CarName", "BallName", "GoalActorName", "HighLights", "PlayerID", "Uid", "NpId", "EpicAccountId", "Platform", "Name",
    "OnlineID", "Team", "Score", "Assists", "Saves", "Shots", "bBot", "PlayerStats", "ReplayName", "ReplayVersion", "ReplayLastSaveVersion", "GameVersion",
    "BuildID", "Changelist", "ReserveMegabytes", "RecordFPS", "KeyframeDelay", "MaxReplaySizeMB", "Id", "MatchGUID", "MapName", "Date", "PrimaryPlayerTeam",
    "MatchGuid", "bIsUnfinishedMatchReplay", "GameType", "EngineVersion", "LicenseeVersion", "NetVersion", "bLan", "Lan",
];

/// Texts that mean something to the decoding of frames where they are looked for.
const MAGIC: [&str; 30] = [
    "Stadium_LAN", "Lan_Arena_p", "stadium_p_Lan", "Replay_Lan.upk",
    "Lan", "lan", "LAN", "None", "NumFrames", "MaxChannels", "MatchType", "BuildVersion", "221120.42953.406184", "999999.99999.999999", "TAGame.Replay_Lan_TA",
    "TAGame.ProductAttribute_TitleID_TA", "TAGame.ProductAttribute_TitleID", "TAGame.ProductAttribute_Painted_TA", "TAGame.ProductAttribute_UserColor_TA",
    "Engine.Actor", "TAGame.PRI_TA", "TAGame.Ball_TA", "TAGame.Car_TA", "Archetypes.Ball.Ball_Default", "Core.Object", "TAGame.Default__PRI_TA",
    "Engine.GameReplicationInfo:bMatchIsOver", "TAGame.RBActor_TA:ReplicatedRBState", "Team0Goal", "Online",
];

fn real_values() -> Vec<P> {
    let mut v: Vec<P> = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 19, 20, 30, 255, 868, 1023, 1024, 0x7fff, 0xffff, 221120, i32::MAX, -1, -2, i32::MIN].map(P::Int).into();
    v.extend([0u32, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x41f0_0000, 0x7fc0_0000, 0x7f80_0000, 0x4b80_0000].map(P::Float));
    v.extend([0u64, 1, 1 << 32, u64::MAX].map(P::QWord));
    v.extend([P::Bool(0), P::Bool(1), P::Bool(255)]);
    for m in MAGIC {
        v.push(P::Str(t(m)));
        v.push(P::Name(t(m)));
        if m != "None" {
            v.push(P::Byte(m.as_bytes().to_vec(), b"Lan".to_vec()));
        }
    }
    v.extend([P::Str(t("")), P::Name(t("")), P::ByteNone(1), P::Arr(vec![]), P::Struct("Lan".into(), vec![])]);
    v
}

/// One thing at a time, over what real replays hold there.
fn i_values(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(SUBJECTS);
    let mut r = subject(i);
    let frames = [3i32, 2, 3, 2][i];
    let numbers: Vec<i32> = (-1..=frames + 2).chain([16, 17, 255, 1000, i32::MAX, i32::MIN]).collect();
    match ch.pick(9) {
        // every real property
        0 => {
            let key = ch.of(&REAL_KEYS);
            let vals = real_values();
            let p = k(key, vals[ch.pick(vals.len())].clone());
            if ch.flip() {
                r.props.push(p)
            } else {
                r.props.insert(0, p)
            }
        }
        1 => r.game = t(ch.of(&MAGIC)),
        // texts of the body
        2 => {
            let m = t(ch.of(&MAGIC));
            let n = ch.of(&[1usize, 2, 16, 17, 40]);
            let list = match ch.pick(3) {
                0 => &mut r.levels,
                1 => &mut r.packages,
                _ => &mut r.names,
            };
            if ch.flip() {
                list.clear();
            }
            for j in 0..n {
                list.insert(j, m.clone());
            }
        }
        3 => {
            let text = ch.of(&["", "Team0Goal", "Team1Goal", "Team0Save", "User", "None"]);
            let n = ch.of(&[1usize, 2, 20]);
            let frame = numbers[ch.pick(numbers.len())];
            if ch.flip() {
                r.ticks.clear();
            }
            r.ticks.extend(vec![(t(text), frame); n]);
        }
        4 => {
            let frame = numbers[ch.pick(numbers.len())];
            let at = ch.of(&[0i32, 1, 7, 64, 1000, 100_000, i32::MAX, -1]);
            let time = ch.of(&[0u32, 0x3f80_0000, 0x3fc0_0000, 0xbf80_0000, 0x7fc0_0000]);
            let n = ch.of(&[1usize, 20]);
            if ch.flip() {
                r.keyframes.clear();
            }
            r.keyframes.extend(vec![(time, frame, at); n]);
        }
        5 => {
            let frame = numbers[ch.pick(numbers.len())];
            let text = ch.of(&MAGIC);
            let n = ch.of(&[1usize, 16, 17, 64, 300]);
            if ch.flip() {
                r.debug.clear();
            }
            r.debug.extend(vec![(frame, t(text), t(text)); n]);
        }
        // a class of that name at every object
        6 => {
            let o = r.objects.len() as i32;
            let name = ch.of(&MAGIC).as_bytes().to_vec();
            let at = ch.pick(o as usize + 2) as i32 - 1;
            match ch.pick(3) {
                0 => r.classes.push((name, at)),
                1 => r.classes.insert(0, (name, at)),
                _ => r.classes = vec![(name, at)],
            }
        }
        // ids of the cache
        7 => {
            let j = ch.pick(r.cache.len());
            let ids = [-1, 0, 1, 2, 7, 255, 256, 65535, 65536, 65537, 1 << 20, i32::MAX, i32::MIN];
            (r.cache[j].1, r.cache[j].2) = (ch.of(&ids), ch.of(&ids));
        }
        // two lists of one object that declare one number: which is first in the file decides
        _ => {
            let o = r.objects.len() as i32;
            r.objects.extend([t("Engine.Actor:bHidden"), t("Engine.Actor:Role")]);
            let ids = [-1, 0, 1, 2, 7, 255, 65536, i32::MAX];
            let (a, b) = (ch.of(&ids), ch.of(&ids));
            let j = ch.pick(r.cache.len());
            let mut c = r.cache[j].clone();
            let mut other = c.clone();
            (c.1, c.2) = (ch.of(&ids), a);
            other.2 = b;
            // every number of the other list names something else
            let stream = c.3.clone();
            other.3 = stream.iter().map(|x| (o + 1, x.1)).collect();
            // what is declared last holds
            r.cache[j] = other;
            r.cache.insert(j + 1, c);
        }
    }
    same_frames(cx, i, &r.bytes());
}

/// What is in the network data changes nothing else, whether it decodes or not.
fn i_network(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(SUBJECTS);
    let mut r = subject(i);
    let at = ch.pick(r.network.len());
    let Got::Ok(want) = imp::parse(&r.bytes(), CrcCheck::Always, NetworkParse::Always) else { return cx.fail("subject") };
    let rest = |g: &boxcars::Replay| {
        let mut x = g.clone();
        x.network_frames = None;
        x.content_crc = 0;
        crate::shape::canon(&x)
    };
    let want = rest(&want);
    for v in 0..=255 {
        r.network[at] = v;
        for net in imp::NETS {
            cx.compared += 1;
            match imp::parse(&r.bytes(), CrcCheck::Always, net) {
                Got::Ok(g) => {
                    cx.accepted += 1;
                    if rest(&g) != want {
                        return cx.fail("something else has changed");
                    }
                }
                Got::Err(_) if net == NetworkParse::Always => cx.rejected += 1,
                Got::Err(e) => return cx.fail(format!("rejected under {net:?}: {e}")),
                Got::Panic(m) => return cx.fail(format!("panicked: {m}")),
            }
        }
    }
}

/// Lists of the body are decoded for themselves: what one holds changes no other.
fn i_lists(ch: &mut Ch, cx: &mut Cx) {
    let which = ch.pick(9);
    let n = ch.of(&[0usize, 1, 2, 3, 7, 64, 255, 256, 1000]);
    let text = ch.of(&["", "a", "None", "\0", "abcdefgh", "TAGame.Replay_Soccar_TA"]);
    let e = if ch.flip() { t(text) } else { Txt::U(text.encode_utf16().collect()) };
    let mut r = subject(2);
    let mut want = {
        let Got::Ok(g) = imp::parse(&r.bytes(), CrcCheck::Always, NetworkParse::Always) else { return cx.fail("subject") };
        *g
    };
    let s = text.to_string();
    match which {
        0 => {
            r.levels = vec![e; n];
            want.levels = vec![s; n];
        }
        1 => {
            r.keyframes = vec![(0x3f80_0000, 7, text.len() as i32); n];
            want.keyframes = vec![boxcars::KeyFrame { time: 1.0, frame: 7, position: text.len() as i32 }; n];
        }
        2 => {
            r.debug = vec![(3, e.clone(), e); n];
            want.debug_info = vec![boxcars::DebugInfo { frame: 3, user: s.clone(), text: s }; n];
        }
        3 => {
            r.ticks = vec![(e, 3); n];
            want.tick_marks = vec![boxcars::TickMark { description: s, frame: 3 }; n];
        }
        4 => {
            r.packages = vec![e; n];
            want.packages = vec![s; n];
        }
        5 => {
            let all = (0..n).map(|_| s.clone());
            r.objects.extend((0..n).map(|_| e.clone()));
            want.objects.extend(all);
        }
        6 => {
            r.names = vec![e; n];
            want.names = vec![s; n];
        }
        7 => {
            r.classes = vec![(text.as_bytes().to_vec(), n as i32); n];
            want.class_indices = vec![boxcars::ClassIndex { class: s, index: n as i32 }; n];
        }
        _ => {
            // properties of a class nothing is
            let o = r.objects.len() as i32 + 5;
            r.cache.push((o, 1, 2, (0..n as i32).map(|i| (0, i)).collect()));
            want.net_cache.push(boxcars::ClassNetCache {
                object_ind: o,
                parent_id: 1,
                cache_id: 2,
                properties: (0..n as i32).map(|i| boxcars::CacheProp { object_ind: 0, stream_id: i }).collect(),
            });
        }
    }
    let b = r.body_bytes();
    want.content_size = b.len() as i32;
    want.content_crc = crate::refdec::crc_ref(&b);
    cx.compared += 1;
    match imp::parse(&r.bytes(), CrcCheck::Always, NetworkParse::Always) {
        Got::Ok(g) => {
            cx.accepted += 1;
            cx.outcome(&want.content_crc.to_le_bytes());
            if crate::shape::canon(&*g) != crate::shape::canon(&want) {
                cx.fail(crate::cmp::diff(&g, &want));
            }
        }
        g => cx.fail(frames_of(&g).unwrap_err()),
    }
}

/// Lists as long as they may be, each alone: frames stay as they are.
fn i_long(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(SUBJECTS);
    let mut r = subject(i);
    let which = ch.pick(10);
    let all = [1023usize, 1025, 4096, 10_000, 16_384, 20_000, 24_000, 24_999, 25_000];
    let n = ch.of(if cx.thorough { &all } else { &all[3..] });
    let e = t(ch.of(&["x", "Lan"]));
    let o = r.objects.len() as i32;
    match which {
        0 => r.levels = vec![e; n],
        1 => r.keyframes = vec![(0x3f80_0000, 7, 64); n],
        2 => r.debug = vec![(3, e.clone(), e); n],
        3 => r.ticks = vec![(e, 3); n],
        4 => r.packages = vec![e; n],
        5 => r.objects.resize(n, e),
        6 => r.names = vec![e; n],
        7 => r.classes = vec![(b"Lan".to_vec(), 1); n],
        8 => r.cache.push((o + 5, 1, 2, (0..n as i32).map(|i| (0, i)).collect())),
        _ => {
            let have = r.cache.len();
            r.cache.extend((have..n).map(|i| (o + i as i32, i as i32, i as i32 + 1, vec![])));
        }
    }
    same_frames(cx, i, &r.bytes());
}

/// Only the first property of a name counts, of whatever kind it and the later ones are.
fn i_firsts(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(SUBJECTS);
    let mut r = subject(i);
    let which = ch.pick(4);
    let key = ["NumFrames", "MaxChannels", "MatchType", "BuildVersion"][which];
    r.props.retain(|x| x.0 != key.as_bytes());
    let mut vals = vec![
        P::Bool(1), P::QWord(2), P::Float(0x4000_0000), P::Byte(b"OnlinePlatform".to_vec(), b"Lan".to_vec()), P::Arr(vec![]),
        P::Arr(vec![vec![k(key, P::Int(2))]]), P::Struct("Lan".into(), vec![k(key, P::Str(t("Lan")))]),
    ];
    vals.extend([-1, 0, 1, 2, 3, 5, 255, 700, 1023, 1024, 2047].map(P::Int));
    for x in ["", "Lan", "Online", "lan", "221120.42953.406184", "999999.99999.999999", "2"] {
        vals.extend([P::Str(t(x)), P::Name(t(x))]);
    }
    let first = vals[ch.pick(vals.len())].clone();
    let front = ch.flip();
    if front {
        r.props.insert(0, k(key, first));
    } else {
        r.props.push(k(key, first));
    }
    let want = frames_of(&imp::parse(&r.bytes(), CrcCheck::Always, NetworkParse::Always));
    // what is skipped is no property
    vals.push(P::ByteNone(2));
    for v in vals.iter() {
        // once more, or twice
        for n in 1..=2 {
            let mut r = r.clone();
            for _ in 0..n {
                r.props.push(k(key, v.clone()));
            }
            cx.compared += 1;
            match (&want, frames_of(&imp::parse(&r.bytes(), CrcCheck::Always, NetworkParse::Always))) {
                (Ok(x), Ok(y)) if *x == y => {
                    cx.accepted += 1;
                    cx.outcome(&y);
                }
                (Err(x), Err(y)) if x.starts_with("rejected") && y.starts_with("rejected") => cx.rejected += 1,
                (Ok(_), Err(e)) => return cx.fail(e),
                (_, Err(e)) if e.starts_with("panicked") => return cx.fail(e),
                (Ok(_), Ok(_)) => return cx.fail(format!("a later {key} changes the frames")),
                _ => return cx.fail(format!("a later {key} makes the replay readable")),
            }
        }
    }
}

pub fn c30() -> Vec<Fam> {
    vec![
        f("values", 0, i_values),
        f("firsts", 0, i_firsts),
        f("edits", 2, i_edits),
        f("network", 0, i_network),
        f("lists", 0, i_lists),
        f("long", 0, i_long),
        f("edits_deep", 3, i_edits_deep),
    ]
}
