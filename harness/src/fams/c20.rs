//! Histories and schedules of calls. Every case runs in a process forked for it, from a parent that
//! has never parsed anything, and every answer is compared with that of a process that made no other
//! call.

use super::*;
use crate::gen::*;
use crate::golden::Tag;
use crate::imp;
use crate::rep::*;
use crate::sched::{points, Sched};
use boxcars::{CrcCheck, NetworkParse, ParserBuilder};
use std::error::Error;
use std::fmt::Write;
use std::sync::OnceLock;

type Opt = (CrcCheck, NetworkParse);

const OPTS: [Opt; 9] = [
    (CrcCheck::OnError, NetworkParse::IgnoreOnError),
    (CrcCheck::Never, NetworkParse::Always),
    (CrcCheck::Always, NetworkParse::IgnoreOnError),
    (CrcCheck::Always, NetworkParse::Always),
    (CrcCheck::OnError, NetworkParse::Always),
    (CrcCheck::Never, NetworkParse::IgnoreOnError),
    (CrcCheck::Never, NetworkParse::Never),
    (CrcCheck::OnError, NetworkParse::Never),
    (CrcCheck::Always, NetworkParse::Never),
];

/// Replays made to collide: same object names with other meanings, same sizes, same stored checksums,
/// other versions, and every way to fail.
fn replays() -> &'static Vec<(&'static str, Vec<u8>)> {
    static R: OnceLock<Vec<(&'static str, Vec<u8>)>> = OnceLock::new();
    R.get_or_init(|| {
        let tags = [Tag::Byte, Tag::Enum, Tag::String, Tag::QWordString, Tag::LoadoutOnline, Tag::CamSettings, Tag::RigidBody];
        let names: Vec<&str> = tags.iter().map(|t| name_of(*t)).collect();
        let build = |ver, order: &dyn Fn(usize) -> usize, text: &str, rl: bool, lan: bool, max: u32| {
            let mut w = W::new(ver, &names);
            let n = names.len();
            w.rep.cache[0].3 = (0..n).map(|i| (order(i) as i32 + 1, i as i32 + 1)).collect();
            w.max_ch = max;
            w.rep.props.push(k("MaxChannels", P::Int(max as i32)));
            w.rep.props.push(k("Id", P::Str(t("ABCDEF"))));
            if rl {
                w.rep.props.push(k("BuildVersion", P::Str(t("221120.42953.406184"))));
            }
            if lan {
                w.rep.props.push(k("MatchType", P::Name(t("Lan"))));
            }
            let mut nt = Net::new(max, w.rep.ver(), lan);
            nt.frame(1.0, 0.5).new_actor(1, 4, 0).new_actor(200, 5, 0);
            for id in [200u32, 1] {
                nt.upd(id);
                for (i, _) in tags.iter().enumerate() {
                    nt.attr(i as u32 + 1, w.largest);
                    let tag = tags[order(i)];
                    if tag == Tag::String {
                        t(text).bits(&mut nt.w);
                    } else {
                        nt.w.append(&default_attr(tag, ver, w.product0, rl));
                    }
                }
                nt.end_upd();
            }
            nt.end_frame();
            nt.frame(1.5, 0.5).del(1).upd(200).attr(order(0) as u32 + 1, w.largest).w.put(77, 8);
            nt.end_upd().end_frame();
            w.rep.props.push(k("NumFrames", P::Int(2)));
            w.rep.network = nt.bytes();
            w.rep.levels = vec![t("lev")];
            w
        };
        let same = |i: usize| i;
        let swap = |i: usize| if i < 2 { 1 - i } else { i };
        let base = build(LAST_VER, &same, "some text", false, false, 1023);
        let mut v: Vec<(&'static str, Vec<u8>)> = vec![("base", base.rep.bytes())];
        v.push(("streams swapped", build(LAST_VER, &swap, "some text", false, false, 1023).rep.bytes()));
        v.push(("older", build((868, 20, 5), &same, "some text", false, false, 1023).rep.bytes()));
        v.push(("legacy", build((868, 10, 0), &same, "some text", false, false, 1023).rep.bytes()));
        v.push(("lan", build((868, 14, 0), &same, "some text", false, true, 1023).rep.bytes()));
        v.push(("not lan", build((868, 14, 0), &same, "some text", false, false, 1023).rep.bytes()));
        v.push(("newer build", build(LAST_VER, &same, "some text", true, false, 1023).rep.bytes()));
        v.push(("channels", build(LAST_VER, &same, "some text", false, false, 2047).rep.bytes()));
        v.push(("long text", build(LAST_VER, &same, &"long".repeat(200), false, false, 1023).rep.bytes()));
        {
            // same names, objects in another order: product classes first
            let mut r = base.rep.clone();
            let n = r.objects.len();
            r.objects.rotate_left(n - 6);
            let m = |i: i32| (i + 6) % n as i32;
            r.cache[0].0 = m(0);
            r.cache[0].3.iter_mut().for_each(|p| p.0 = m(p.0));
            v.push(("objects turned", r.bytes()));
        }
        {
            let mut r = base.rep.clone();
            r.props.retain(|p| p.0 != b"NumFrames");
            v.push(("no frames", r.bytes()));
        }
        // same sizes and stored checksums, other content
        let (h, b) = (base.rep.head_bytes(), base.rep.body_bytes());
        let crc = |x: &[u8]| crate::refdec::crc_ref(x);
        {
            let mut r = base.rep.clone();
            r.levels = vec![t("LEV")];
            r.props[1] = k("Id", P::Str(t("FEDCBA")));
            let (h2, b2) = (r.head_bytes(), r.body_bytes());
            v.push(("stale sums", file_with(&h2, h2.len() as i32, crc(&h), &b2, b2.len() as i32, crc(&b))));
        }
        {
            // network data swapped for another of its length
            let mut r = base.rep.clone();
            r.network.reverse();
            let b2 = r.body_bytes();
            v.push(("bad network", file(&h, &b2)));
            v.push(("bad network, stale sum", file_with(&h, h.len() as i32, crc(&h), &b2, b2.len() as i32, crc(&b))));
        }
        {
            let mut r = base.rep.clone();
            let mut n = base.net();
            n.frame(1.0, 0.5).new_actor(1, 4, 0).upd(1).attr(1, base.largest).w.put(9, 8);
            n.end_upd().upd(200).attr(1, base.largest).w.put(1, 8);
            r.network = n.bytes();
            v.push(("missing actor", r.bytes()));
            let mut n = base.net();
            n.frame(1.0, 0.5).new_actor(1, 4, 0).upd(1).attr(3, base.largest).w.i32(5000);
            r.network = n.bytes();
            v.push(("text too big", r.bytes()));
            let mut n = base.net();
            n.frame(-1.0, 0.5);
            n.w.u64(0);
            r.network = n.bytes();
            v.push(("bad time", r.bytes()));
        }
        {
            let d = base.rep.bytes();
            v.push(("cut", d[..d.len() - 9].to_vec()));
            v.push(("cut header", d[..40].to_vec()));
        }
        {
            let mut r = base.rep.clone();
            r.props[1] = k("Id", P::Raw(b"OddProperty".to_vec(), vec![]));
            v.push(("odd kind", r.bytes()));
            let mut r = Rep::new();
            r.props.push((vec![b'I', 0xff], P::Int(4)));
            v.push(("bad key", r.bytes()));
            let mut r = seed(1);
            r.levels = vec![t("lev")];
            v.push(("quirks", r.bytes()));
        }
        v.push(("classes", seed(2).bytes()));
        v.push(("everything", seed(0).bytes()));
        {
            // no limit on channels declared
            let mut r = base.rep.clone();
            r.props.retain(|p| p.0 != b"MaxChannels");
            v.push(("channels left out", r.bytes()));
            let mut n = base.net();
            n.frame(1.0, 0.5).new_actor(1, 4, 0).upd(1).attr(3, base.largest).w.put(7, 5);
            r.network = n.bytes();
            v.push(("cut in an attribute", r.bytes()));
            let mut r = base.rep.clone();
            r.objects.truncate(8);
            v.push(("fewer objects", r.bytes()));
        }
        v
    })
}

/// Everything that can be seen of an answer.
fn seen(r: &Result<boxcars::Replay, boxcars::ParseError>) -> String {
    match r {
        Ok(r) => {
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            for b in crate::shape::canon(r) {
                h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
            format!("{h:x} {}", serde_json::to_string(r).unwrap_or_else(|e| e.to_string()))
        }
        Err(e) => {
            let mut s = e.to_string();
            let mut c = e.source();
            while let Some(x) = c {
                let _ = write!(s, " <- {x}");
                c = x.source();
            }
            s
        }
    }
}

fn ask(d: &[u8], o: Opt) -> String {
    imp::call(|| seen(&ParserBuilder::new(d).with_crc_check(o.0).with_network_parse(o.1).parse()))
        .unwrap_or_else(|m| format!("panic: {m}"))
}

type Handler = fn(&mut Ch, &mut Cx);

unsafe fn write_all(fd: i32, b: &[u8]) {
    let mut i = 0;
    while i < b.len() {
        let n = libc::write(fd, b[i..].as_ptr() as *const _, b.len() - i);
        if n <= 0 {
            libc::_exit(3);
        }
        i += n as usize;
    }
}

unsafe fn read_all(fd: i32, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0u8; n];
    let mut i = 0;
    while i < n {
        let r = libc::read(fd, b[i..].as_mut_ptr() as *mut _, n - i);
        if r > 0 {
            i += r as usize;
        } else if r == 0 || *libc::__errno_location() != libc::EINTR {
            return None;
        }
    }
    Some(b)
}

/// Runs `f` in a process forked here and now.
fn fork_now(f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(100);
            OUT.with(|o| o.set(p[1]));
            write_all(p[1], f().as_bytes());
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n > 0 {
                out.extend_from_slice(&buf[..n as usize]);
            } else if n == 0 || *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if st != 0 {
            return Err(format!("the process ended with status {st:#x}"));
        }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
}

thread_local! {
    /// Connection to this worker's server process.
    static SERVER: std::cell::Cell<i32> = const { std::cell::Cell::new(-1) };
    static OUT: std::cell::Cell<i32> = const { std::cell::Cell::new(-1) };
    /// In a process forked for a case: how many bodies are still to be skipped.
    static CHILD: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) };
}

/// Forks a process for each case it is sent. It has one thread and little memory, so that forks are
/// cheap, and never parses anything itself.
unsafe fn serve(fd: i32) -> ! {
    loop {
        let Some(head) = read_all(fd, 32) else { libc::_exit(0) };
        let w = |i: usize| u64::from_ne_bytes(head[i * 8..i * 8 + 8].try_into().unwrap());
        let Some(body) = read_all(fd, w(3) as usize) else { libc::_exit(0) };
        let choices: Vec<u32> = body.chunks(4).map(|c| u32::from_ne_bytes(c.try_into().unwrap())).collect();
        let h: Handler = std::mem::transmute::<usize, Handler>(w(0) as usize);
        let r = fork_now(|| {
            CHILD.with(|c| c.set(Some(w(1) as u32)));
            let mut ch = Ch::new(&choices, 0);
            h(&mut ch, &mut Cx { thorough: w(2) == 1, ..Cx::default() });
            panic!("no body");
        });
        let (ok, s) = match &r {
            Ok(s) => (1u64, s),
            Err(s) => (0, s),
        };
        write_all(fd, &ok.to_ne_bytes());
        write_all(fd, &(s.len() as u64).to_ne_bytes());
        write_all(fd, s.as_bytes());
    }
}

/// Runs the `nth` body of the case that `h` makes of the choices so far, in a process of its own, and
/// returns what it says.
fn forked(ch: &Ch, cx: &Cx, h: Handler, nth: u32, f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        match CHILD.with(|c| c.get()) {
            Some(0) => {
                write_all(OUT.with(|o| o.get()), f().as_bytes());
                libc::_exit(0)
            }
            Some(n) => {
                CHILD.with(|c| c.set(Some(n - 1)));
                return Ok(String::new());
            }
            None => {}
        }
        if SERVER.with(|s| s.get()) < 0 {
            base(0, 0);
            forward();
            let mut p = [0i32; 2];
            assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()), 0, "socketpair");
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                serve(p[1]);
            }
            libc::close(p[1]);
            SERVER.with(|s| s.set(p[0]));
        }
        let fd = SERVER.with(|s| s.get());
        let mut m = vec![];
        for x in [h as usize as u64, nth as u64, cx.thorough as u64, ch.log.len() as u64 * 4] {
            m.extend(x.to_ne_bytes());
        }
        for (c, _) in &ch.log {
            m.extend(c.to_ne_bytes());
        }
        write_all(fd, &m);
        let head = read_all(fd, 16).expect("server");
        let n = u64::from_ne_bytes(head[8..].try_into().unwrap());
        let s = String::from_utf8_lossy(&read_all(fd, n as usize).expect("server")).into_owned();
        if head[0] == 1 {
            Ok(s)
        } else {
            Err(s)
        }
    }
}

struct Base {
    answer: String,
    points: u64,
}

/// What processes say that make one call only.
fn base(r: usize, o: usize) -> &'static Base {
    static B: OnceLock<Vec<Vec<Base>>> = OnceLock::new();
    let one = |r: usize, o: usize| {
        let d = &replays()[r].1;
        let s = fork_now(|| {
            let a = points();
            let s = ask(d, OPTS[o]);
            format!("{} {s}", points() - a)
        })
        .unwrap_or_else(|e| format!("0 {e}"));
        let (n, s) = s.split_once(' ').unwrap();
        Base { answer: s.to_string(), points: n.parse().unwrap() }
    };
    &B.get_or_init(|| (0..replays().len()).map(|r| (0..OPTS.len()).map(|o| one(r, o)).collect()).collect())[r][o]
}

/// Everything that is made once, see `super::prepare`.
pub fn prepare() {
    corpus_paths();
    replays();
    many();
    base(0, 0);
    forward();
}

fn name(r: usize, o: usize) -> String {
    format!("{} {:?}", replays()[r].0, OPTS[o])
}

fn wrong(which: &str, r: usize, o: usize, got: &str, want: &str) -> String {
    let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let cut = |s: &str| s.chars().skip(at.saturating_sub(40)).take(120).collect::<String>();
    format!("{which}: \"{}\" answers ..{}.., alone ..{}..", name(r, o), cut(got), cut(want))
}

/// Judges what a forked history said: empty is fine.
fn verdict(cx: &mut Cx, calls: &[(usize, usize)], r: Result<String, String>) {
    cx.compared += calls.len() as u64;
    for (r, o) in calls {
        if base(*r, *o).answer.starts_with("panic") {
            return cx.fail(format!("{}: {}", name(*r, *o), base(*r, *o).answer));
        }
        cx.outcome(base(*r, *o).answer.as_bytes());
    }
    match r {
        Ok(s) if s.is_empty() => {}
        Ok(s) => cx.fail(s),
        Err(s) => cx.fail(s),
    }
}

/// Options that matter: what is checked when, what is demanded.
const FEW: usize = 3;

fn call(ch: &mut Ch, opts: usize) -> (usize, usize) {
    let n = replays().len();
    let i = ch.pick(n * opts);
    (i / opts, i % opts)
}

/// Those that differ most from one another.
const MIXED: [&str; 14] = [
    "base", "streams swapped", "lan", "objects turned", "stale sums", "bad network", "bad network, stale sum", "missing actor",
    "text too big", "cut", "odd kind", "classes", "channels", "channels left out",
];

/// Histories of calls one after the other, each input at an address of its own.
fn h_calls(ch: &mut Ch, cx: &mut Cx) {
    let calls: Vec<_> = if cx.thorough {
        (0..3).map(|_| call(ch, FEW)).collect()
    } else {
        (0..3).map(|_| mixed(ch, 2)).collect()
    };
    run_calls(ch, cx, h_calls, calls, 0);
}

/// Longer ones.
fn h_long(ch: &mut Ch, cx: &mut Cx) {
    let n = if cx.thorough { 5 } else { 4 };
    let calls: Vec<_> = (0..n).map(|i| if i == 0 { mixed(ch, 2) } else { mixed(ch, 1) }).collect();
    run_calls(ch, cx, h_long, calls, 2);
}

fn mixed(ch: &mut Ch, opts: usize) -> (usize, usize) {
    let name = ch.of(&MIXED);
    (replays().iter().position(|x| x.0 == name).expect("name"), ch.pick(opts))
}

/// Pairs of calls under all options: at the same address, on other threads.
fn h_pairs(ch: &mut Ch, cx: &mut Cx) {
    let how = ch.pick(3);
    let calls: Vec<_> = (0..2).map(|_| call(ch, if cx.thorough { OPTS.len() } else { 6 })).collect();
    run_calls(ch, cx, h_pairs, calls, how);
}

/// `how`: 0 own addresses, 1 one buffer for all, 2 own addresses and every second call on a new thread.
fn run_calls(ch: &Ch, cx: &mut Cx, h: Handler, calls: Vec<(usize, usize)>, how: usize) {
    cx.say(|| calls.iter().map(|(r, o)| name(*r, *o)).collect::<Vec<_>>().join(", "));
    let out = forked(ch, cx, h, 0, || {
        let mut buf = vec![0u8; 8192];
        for (i, (r, o)) in calls.iter().enumerate() {
            let d = &replays()[*r].1;
            let got = match how {
                1 => {
                    buf[..d.len()].copy_from_slice(d);
                    ask(&buf[..d.len()], OPTS[*o])
                }
                2 if i % 2 == 1 => on_thread(d, *o),
                _ => ask(d, OPTS[*o]),
            };
            let want = &base(*r, *o).answer;
            if got != *want {
                return wrong(&format!("call {i}"), *r, *o, &got, want);
            }
            if how == 1 && buf[..d.len()] != d[..] {
                return format!("call {i} changed its input");
            }
        }
        String::new()
    });
    verdict(cx, &calls, out);
}

fn on_thread(d: &'static [u8], o: usize) -> String {
    std::thread::Builder::new().stack_size(crate::STACK).spawn(move || ask(d, OPTS[o])).unwrap().join().unwrap_or_default()
}

/// The same call again and again, alone and with another in between.
fn h_again(ch: &mut Ch, cx: &mut Cx) {
    let a = call(ch, OPTS.len());
    let b = ch.of(&[None, Some(0), Some(11), Some(14)]);
    let n = if cx.thorough { 3000 } else { 400 };
    let out = forked(ch, cx, h_again, 0, || {
        for i in 0..n {
            let got = ask(&replays()[a.0].1, OPTS[a.1]);
            if got != base(a.0, a.1).answer {
                return wrong(&format!("call {i}"), a.0, a.1, &got, &base(a.0, a.1).answer);
            }
            if let Some(b) = b {
                ask(&replays()[b].1, OPTS[i % OPTS.len()]);
            }
        }
        String::new()
    });
    cx.compared += n as u64 - 1;
    verdict(cx, &[a], out);
}

/// One call until whatever might count calls has wrapped around.
fn h_endless(ch: &mut Ch, cx: &mut Cx) {
    const WHICH: [(&str, usize); 8] = [
        ("base", 3), ("legacy", 1), ("missing actor", 1), ("cut in an attribute", 4), ("stale sums", 3), ("cut", 1), ("odd kind", 0), ("no frames", 3),
    ];
    let (which, o) = ch.of(&WHICH);
    let r = replays().iter().position(|x| x.0 == which).expect("name");
    let n = if cx.thorough { 1_200_000 } else { 70_000 };
    let out = forked(ch, cx, h_endless, 0, || {
        let want = &base(r, o).answer;
        for i in 0..n {
            let got = ask(&replays()[r].1, OPTS[o]);
            if got != *want {
                return wrong(&format!("call {i}"), r, o, &got, want);
            }
        }
        String::new()
    });
    cx.compared += n as u64 - 1;
    verdict(cx, &[(r, o)], out);
}

/// Where the input lies and what lies around it.
fn h_places(ch: &mut Ch, cx: &mut Cx) {
    let a = call(ch, FEW);
    let fill = ch.of(&[0u8, 0xff, 0x5a]);
    let out = forked(ch, cx, h_places, 0, || {
        let d = &replays()[a.0].1;
        for at in (0..72).chain([4096 - 7, 4096 - 16]) {
            let mut buf = vec![fill; d.len() + 9000];
            let off = buf.as_ptr().align_offset(4096) + at;
            buf[off..off + d.len()].copy_from_slice(d);
            let got = ask(&buf[off..off + d.len()], OPTS[a.1]);
            if got != base(a.0, a.1).answer {
                return wrong(&format!("at address {at} mod 4096"), a.0, a.1, &got, &base(a.0, a.1).answer);
            }
            let around = buf[..off].iter().chain(&buf[off + d.len()..]).all(|b| *b == fill);
            if buf[off..off + d.len()] != d[..] || !around {
                return "memory in or around the input has changed".into();
            }
        }
        // the input cannot be written to, and there is nothing before or behind it
        unsafe {
            let page = 4096;
            let n = d.len().div_ceil(page) * page;
            for tail in [true, false] {
                let p = libc::mmap(
                    std::ptr::null_mut(), n + 2 * page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0,
                ) as *mut u8;
                let start = p.add(page + if tail { n - d.len() } else { 0 });
                std::ptr::copy_nonoverlapping(d.as_ptr(), start, d.len());
                libc::mprotect(p as *mut _, page, libc::PROT_NONE);
                libc::mprotect(p.add(page) as *mut _, n, libc::PROT_READ);
                libc::mprotect(p.add(page + n) as *mut _, page, libc::PROT_NONE);
                let got = ask(std::slice::from_raw_parts(start, d.len()), OPTS[a.1]);
                if got != base(a.0, a.1).answer {
                    return wrong("read only", a.0, a.1, &got, &base(a.0, a.1).answer);
                }
            }
        }
        String::new()
    });
    cx.compared += 75;
    verdict(cx, &[a], out);
}

/// One builder, cloned and used in every order, with options set before and after.
fn h_builder(ch: &mut Ch, cx: &mut Cx) {
    let r = ch.pick(replays().len());
    let (o1, o2) = (ch.pick(OPTS.len()), ch.pick(OPTS.len()));
    let order = ch.pick(4);
    let out = forked(ch, cx, h_builder, 0, || {
        let d = &replays()[r].1;
        let a = ParserBuilder::new(d).with_crc_check(OPTS[o1].0).with_network_parse(OPTS[o1].1);
        let parse = |b: ParserBuilder| imp::call(|| seen(&b.parse())).unwrap_or_else(|m| format!("panic: {m}"));
        let second = |b: ParserBuilder<'static>| parse(b.with_crc_check(OPTS[o2].0).with_network_parse(OPTS[o2].1));
        let (x, y) = match order {
            0 => {
                let c = a.clone();
                let x = parse(a);
                (x, second(c))
            }
            1 => {
                let c = a.clone();
                let y = second(c);
                (parse(a), y)
            }
            2 => {
                let c = a.clone().clone();
                drop(a.clone());
                let y = second(a);
                (parse(c), y)
            }
            _ => {
                let c = a.clone();
                let y = second(c.clone());
                let x = parse(c);
                let z = parse(a);
                if z != x {
                    return wrong("original after its clones", r, o1, &z, &x);
                }
                (x, y)
            }
        };
        if x != base(r, o1).answer {
            return wrong("builder", r, o1, &x, &base(r, o1).answer);
        }
        if y != base(r, o2).answer {
            return wrong("clone", r, o2, &y, &base(r, o2).answer);
        }
        String::new()
    });
    verdict(cx, &[(r, o1), (r, o2)], out);
}

/// A replay and its error outlive, and do not change with, what is parsed later.
fn h_kept(ch: &mut Ch, cx: &mut Cx) {
    let a = call(ch, FEW);
    let b = call(ch, FEW);
    let out = forked(ch, cx, h_kept, 0, || {
        let parse = |c: (usize, usize)| {
            imp::call(|| ParserBuilder::new(&replays()[c.0].1).with_crc_check(OPTS[c.1].0).with_network_parse(OPTS[c.1].1).parse())
        };
        let (Ok(x), Ok(y)) = (parse(a), parse(b)) else { return "panic".into() };
        let show = |r: &Result<_, _>| imp::call(|| seen(r)).unwrap_or_else(|m| format!("panic: {m}"));
        for (which, r, c) in [("first", &x, a), ("second", &y, b), ("first again", &x, a)] {
            let got = show(r);
            if got != base(c.0, c.1).answer {
                return wrong(which, c.0, c.1, &got, &base(c.0, c.1).answer);
            }
        }
        drop(y);
        let got = show(&x);
        if got != base(a.0, a.1).answer {
            return wrong("after the other is gone", a.0, a.1, &got, &base(a.0, a.1).answer);
        }
        String::new()
    });
    verdict(cx, &[a, b], out);
}

/// Calls whose interleavings are explored: each differs from the others in what it might share.
const RACERS: [(usize, usize); 12] = [
    (0, 1), (1, 1), (3, 1), (6, 1), (9, 1), (8, 0), (11, 4), (12, 2), (14, 1), (15, 1), (18, 2), (19, 0),
];

/// Runs two calls under one schedule.
fn race(ch: &Ch, cx: &mut Cx, h: Handler, a: (usize, usize), b: (usize, usize), first: i32, plan: Vec<u32>) {
    let calls = [a, b];
    cx.say(|| format!("{} against {}, thread {first} first, turns {plan:?}", name(a.0, a.1), name(b.0, b.1)));
    let out = forked(ch, cx, h, 0, || {
        let s: &'static Sched = Box::leak(Box::new(Sched::new(first, plan)));
        let hs: Vec<_> = (0..2usize)
            .map(|i| {
                let (r, o) = calls[i];
                std::thread::Builder::new()
                    .stack_size(crate::STACK)
                    .spawn(move || s.run(i as i32, || ask(&replays()[r].1, OPTS[o])))
                    .unwrap()
            })
            .collect();
        let mut bad = String::new();
        for (i, h) in hs.into_iter().enumerate() {
            let got = h.join().unwrap_or_default();
            let (r, o) = calls[i];
            if got != base(r, o).answer && bad.is_empty() {
                bad = wrong(&format!("thread {i}"), r, o, &got, &base(r, o).answer);
            }
        }
        bad
    });
    verdict(cx, &calls, out);
}

/// All schedules with one switch back and forth: the first runs a while, then the other runs to its
/// end, then the first goes on.
fn r_one(ch: &mut Ch, cx: &mut Cx) {
    let a = ch.of(&RACERS);
    let b = ch.of(&RACERS);
    let n = base(a.0, a.1).points;
    let p = ch.pick(n as usize + 1) as u32;
    race(ch, cx, r_one, a, b, 0, vec![p]);
}

/// All schedules with two preemptions: each is stopped once somewhere.
fn r_two(ch: &mut Ch, cx: &mut Cx) {
    const Q: [(usize, usize); 5] = [(0, 1), (1, 1), (6, 1), (14, 1), (19, 0)];
    let set: &[(usize, usize)] = if cx.thorough { &Q } else { &Q[1..4] };
    let a = ch.of(set);
    let b = ch.of(set);
    let (n, m) = (base(a.0, a.1).points, base(b.0, b.1).points);
    // in the quick tier every third point on either side
    let step = if cx.thorough { 1 } else { 3 };
    let p = ch.pick(n as usize / step + 1) * step;
    let q = ch.pick(m as usize / step + 1) * step;
    race(ch, cx, r_two, a, b, 0, vec![p as u32, q as u32]);
}

/// Three preemptions among short calls.
fn r_three(ch: &mut Ch, cx: &mut Cx) {
    const Q: [(usize, usize); 3] = [(18, 2), (19, 0), (20, 1)];
    let a = ch.of(&Q);
    let b = ch.of(&Q);
    let (n, m) = (base(a.0, a.1).points as usize, base(b.0, b.1).points as usize);
    let p = ch.pick(n + 1);
    let q = ch.pick(m + 1);
    let r = ch.pick(n - p + 1);
    race(ch, cx, r_three, a, b, 0, vec![p as u32, q as u32, r as u32]);
}

/// Threads that run as they please (this one samples; it only supplements the schedules above).
fn r_free(ch: &mut Ch, cx: &mut Cx) {
    let shift = ch.pick(if cx.thorough { 60 } else { 8 });
    let n = replays().len();
    let calls: Vec<_> = (0..n * FEW).map(|i| ((i * 5 + shift) % n, i % FEW)).collect();
    let all: &'static Vec<(usize, usize)> = Box::leak(Box::new(calls));
    let out = forked(ch, cx, r_free, 0, || {
        let hs: Vec<_> = (0..6usize)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(crate::STACK)
                    .spawn(move || {
                        for i in 0..all.len() {
                            let (r, o) = all[(i * (t + 1) + t * 7) % all.len()];
                            let got = ask(&replays()[r].1, OPTS[o]);
                            if got != base(r, o).answer {
                                return wrong("free running thread", r, o, &got, &base(r, o).answer);
                            }
                        }
                        String::new()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).find(|s| !s.is_empty()).unwrap_or_default()
    });
    verdict(cx, all, out);
}

/// The inputs of families of other properties, and the options they are parsed under. They lie in
/// memory that forked processes share, or each fork would copy what describes it.
fn many() -> &'static Vec<(&'static [u8], usize)> {
    static M: OnceLock<Vec<(&'static [u8], usize)>> = OnceLock::new();
    M.get_or_init(|| unsafe {
        const ROOM: usize = 256 << 20;
        let flags = libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let at = libc::mmap(std::ptr::null_mut(), ROOM, libc::PROT_READ | libc::PROT_WRITE, flags, -1, 0) as *mut u8;
        assert_ne!(at as isize, -1, "mmap");
        let list = fork_now(|| {
            let mut n = 0;
            let mut list = String::new();
            for (d, o) in gather() {
                assert!(n + d.len() <= ROOM);
                std::slice::from_raw_parts_mut(at.add(n), d.len()).copy_from_slice(&d);
                n += d.len();
                let _ = write!(list, "{} {o} ", d.len());
            }
            list
        });
        let list = list.expect("inputs of other families");
        let mut w = list.split_ascii_whitespace().map(|x| x.parse::<usize>().expect("number"));
        let mut n = 0;
        let mut v = vec![];
        while let (Some(len), Some(o)) = (w.next(), w.next()) {
            v.push((std::slice::from_raw_parts(at.add(n), len), o));
            n += len;
        }
        v
    })
}

fn gather() -> Vec<(Vec<u8>, usize)> {
    let mut v = vec![];
    let of = |name, bound, run| crate::explore::inputs_of(&f(name, bound, run), false);
    v.extend(of("fields", 1, cross::all).into_iter().enumerate().map(|(i, d)| (d, [1, 3, 4][i % 3])));
    v.extend(of("worlds", 1, cross::plain).into_iter().enumerate().map(|(i, d)| (d, [3, 1, 2][i % 3])));
    v.extend(of("cuts", 0, c17::e_cut).into_iter().step_by(2).map(|d| (d, 1)));
    v.extend(of("files", 1, whole::w_sections).into_iter().enumerate().map(|(i, d)| (d, i % OPTS.len())));
    v.extend(of("errors", 0, c17::e_frames).into_iter().step_by(3).map(|d| (d, 1)));
    v.extend(of("names", 0, |ch, cx| drop(imp::parse(&c17::named(ch, cx.thorough), CrcCheck::Never, NetworkParse::Always))).into_iter().step_by(11).map(|d| (d, 4)));
    v.extend(of("lattice", 0, c21::x_lattice).into_iter().step_by(23).map(|d| (d, 1)));
    v.extend(of("lan", 0, c21::x_lan).into_iter().step_by(5).map(|d| (d, 1)));
    v.extend(of("sizes", 0, sized).into_iter().map(|d| (d, 1)));
    v.retain(|(d, _)| d.len() < 6000);
    v
}

/// Replays in which one number differs: what is remembered of a first call could be any of them.
fn sized(ch: &mut Ch, _: &mut Cx) {
    let what = ch.pick(8);
    let n = ch.pick(64);
    let mut w = W::new(LAST_VER, if what == 1 { &["Engine.Actor:bNetOwner", "Engine.Actor:RemoteRole"][..n.min(2)] } else { &["Engine.Actor:bNetOwner"] });
    let mut max = 1023;
    let mut frames = 1;
    let mut actors = 2;
    match what {
        0 => w.rep.objects.extend((0..n).map(|i| t(&format!("Filler.{i}")))),
        1 => w.rep.objects.truncate(w.rep.objects.len() - n.min(6)),
        2 => w.rep.names = (0..n).map(|i| t(&format!("n{i}"))).collect(),
        3 => w.rep.cache.extend((0..n as i32).map(|i| (1, 1 + i, 1 + i, vec![]))),
        4 => w.rep.cache[0].3.extend((0..n as i32).map(|i| (1, 2 + i))),
        5 => max = n as u32 + 4,
        6 => frames = n + 1,
        _ => actors = n + 1,
    }
    if what == 4 {
        w.largest = 1 + n as i32;
    }
    w.max_ch = max;
    w.rep.props.push(k("MaxChannels", P::Int(max as i32)));
    let mut net = w.net();
    for i in 0..frames {
        net.frame(1.0 + i as f32, 0.5);
        for a in 0..if i == 0 { actors } else { 0 } {
            net.new_actor(a as u32 % (max - 1), 4, 0);
        }
        if !w.rep.cache[0].3.is_empty() {
            net.upd(1).attr(1, w.largest).w.bit(true);
            net.end_upd();
        }
        net.end_frame();
    }
    let d = w.file(frames as i32, net.bytes());
    drop(imp::parse(&d, CrcCheck::Never, NetworkParse::Always));
}

/// Answers to all of them, in an order.
fn sweep(order: usize) -> Result<String, String> {
    let n = many().len();
    let at: Vec<usize> = match order {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        k => {
            // a stride that visits all
            let gcd = |mut a: usize, mut b: usize| {
                while b > 0 {
                    (a, b) = (b, a % b);
                }
                a
            };
            let mut s = n / (k + 1) + k;
            while gcd(s, n) != 1 {
                s += 1;
            }
            (0..n).map(|i| i * s % n).collect()
        }
    };
    let mut h = vec![0u64; n];
    for i in at {
        let (d, o) = &many()[i];
        h[i] = hash(&ask(d, OPTS[*o]));
    }
    Ok(h.iter().map(|x| format!("{x:016x}")).collect())
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// Those in the order they are in.
fn forward() -> &'static Result<String, String> {
    static S: OnceLock<Result<String, String>> = OnceLock::new();
    S.get_or_init(|| fork_now(|| sweep(0).unwrap_or_default()))
}

/// All of many inputs in one process, in different orders.
fn h_sweep(ch: &mut Ch, cx: &mut Cx) {
    let order = 1 + ch.pick(if cx.thorough { 40 } else { 8 });
    let out = forked(ch, cx, h_sweep, 0, || sweep(order).unwrap_or_default());
    cx.compared += many().len() as u64;
    match (forward(), out) {
        (Ok(a), Ok(b)) => {
            if let Some(i) = (0..many().len()).find(|i| a.get(i * 16..i * 16 + 16) != b.get(i * 16..i * 16 + 16)) {
                cx.fail(format!("input {i} of {} answers differently in another order ({order}) of calls", many().len()));
            }
        }
        (Err(e), _) => cx.fail(e.clone()),
        (_, Err(e)) => cx.fail(e),
    }
}

/// Each of them alone, three times in a row, again behind the next, and others behind it.
fn h_alone(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(many().len());
    let out = forked(ch, cx, h_alone, 0, || {
        let (d, o) = &many()[i];
        let a = ask(d, OPTS[*o]);
        for k in 0..4 {
            if k == 2 {
                let (d, o) = &many()[(i + 1) % many().len()];
                ask(d, OPTS[*o]);
            }
            let b = ask(d, OPTS[*o]);
            if a != b {
                return format!("answers ..{b:.300}.. in call {}, ..{a:.300}.. at first", k + 2);
            }
        }
        for (r, (_, d)) in replays().iter().enumerate() {
            let got = ask(d, OPTS[1]);
            if got != base(r, 1).answer {
                return wrong(&format!("after input {i}"), r, 1, &got, &base(r, 1).answer);
            }
        }
        format!("{:016x}", hash(&a))
    });
    cx.compared += 5 + replays().len() as u64;
    match (forward(), out) {
        (Ok(a), Ok(b)) if b.len() == 16 => {
            cx.outcome(b.as_bytes());
            if a.get(i * 16..i * 16 + 16) != Some(&b) {
                cx.fail(format!("input {i} answers differently alone and behind others"));
            }
        }
        (Err(e), _) => cx.fail(e.clone()),
        (_, Ok(e) | Err(e)) => cx.fail(e),
    }
}

/// A real replay before, after and next to the others.
fn h_real(ch: &mut Ch, cx: &mut Cx) {
    let path = &corpus_paths()[ch.pick(corpus_paths().len())];
    let file = path.file_name().unwrap().to_string_lossy().into_owned();
    cx.say(|| file.clone());
    let a = [(0usize, 1usize), (1, 1), (9, 1), (14, 1), (21, 0)];
    let o = OPTS[0];
    let hash = |s: String| s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
    let alone = forked(ch, cx, h_real, 0, || hash(ask(&std::fs::read(path).unwrap(), o)).to_string());
    let out = forked(ch, cx, h_real, 1, || {
        let d = &std::fs::read(path).unwrap();
        for (r, p) in a {
            ask(&replays()[r].1, OPTS[p]);
        }
        let x = hash(ask(d, o)).to_string();
        for (r, p) in a {
            let got = ask(&replays()[r].1, OPTS[p]);
            if got != base(r, p).answer {
                return wrong(&format!("after {file}"), r, p, &got, &base(r, p).answer);
            }
        }
        let y = hash(ask(d, o)).to_string();
        if x != y {
            return format!("{file}: answers differ");
        }
        format!("answer {x}")
    });
    let out = match (alone, out) {
        (Ok(x), Ok(y)) if y.strip_prefix("answer ") == Some(&x) => Ok(String::new()),
        (Ok(_), Ok(y)) if y.starts_with("answer ") => Ok(format!("{file}: answers differently after other calls")),
        (Err(e), _) => Err(e),
        (_, y) => y,
    };
    cx.compared += 3;
    verdict(cx, &a, out);
}

pub fn c20() -> Vec<Fam> {
    vec![
        f("calls", 0, h_calls),
        f("long", 0, h_long),
        f("pairs", 0, h_pairs),
        f("again", 0, h_again),
        f("endless", 0, h_endless),
        f("sweep", 0, h_sweep),
        f("alone", 0, h_alone),
        f("places", 0, h_places),
        f("builder", 0, h_builder),
        f("kept", 0, h_kept),
        f("race1", 0, r_one),
        f("race2", 0, r_two),
        f("race3", 0, r_three),
        f("free", 0, r_free),
        f("real", 0, h_real),
    ]
}
