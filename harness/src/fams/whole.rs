//! Everything that shapes a file at once: one case is a replay with one default for each of its
//! aspects, and all files with up to a number of deviations from the defaults are tried.

use super::c02::{alphabet, set_list};
use super::*;
use crate::cmp::{check, Lvl, Part};
use crate::gen::*;
use crate::golden::Tag;
use crate::imp::{CRCS, NETS};
use crate::refdec::{crc_ref, Ver};
use crate::rep::*;
use boxcars::{CrcCheck, NetworkParse};

const VERS: [Ver; 12] = [
    LAST_VER, (0, 0, 0), (0, 1, 0), (1, 0, 0), (865, 20, 0), (866, 17, 0), (866, 18, 0), (867, 18, 2), (868, 12, 0), (868, 20, -1), (-1, 32, 0),
    (868, 24, i32::MAX),
];

fn text(i: usize) -> Txt {
    match i {
        0 => t(""),
        1 => Txt::Raw(0, vec![]),
        2 => Txt::U(vec![0x3a9, 0x41, 0xd83d, 0xde00]),
        3 => Txt::W(vec![0x80, b'a', 0xe9, 0x81]),
        4 => Txt::Raw(2, vec![b'a', b'b']),
        5 => Txt::Raw(-2, vec![b'a', 0, b'b', 0]),
        6 => Txt::U(vec![0xdc00, b'x' as u16]),
        7 => t("None"),
        8 => Txt::W(vec![b' '; 9_999]),
        9 => Txt::Raw(10_001, vec![b'a'; 10_001]),
        10 => Txt::Raw(-10_001, vec![b'a'; 20_002]),
        11 => Txt::Raw(i32::MIN, vec![]),
        _ => Txt::Raw(1, vec![0]),
    }
}
const TEXTS: usize = 13;

/// The file, and whether the stored checksums are right.
pub fn make(ch: &mut Ch) -> (Vec<u8>, bool) {
    let ver = ch.devof(&VERS);
    let mut r = Rep::new().with_ver(ver);
    if let i @ 1.. = ch.dev(TEXTS + 1) {
        r.game = text(i - 1);
    }
    // properties
    let a = alphabet();
    r.props = vec![
        k("TeamSize", P::Int(3)),
        k("Goals", P::Arr(vec![vec![k("PlayerName", P::Str(t("x"))), k("frame", P::Int(9))], vec![k("frame", P::Int(10))]])),
        k("Id", P::Str(t("0A1B"))),
        k("Kind", P::Byte(b"OnlinePlatform".to_vec(), b"OnlinePlatform_Steam".to_vec())),
    ];
    for i in 0..4 {
        if let v @ 1.. = ch.dev(a.len() + 1) {
            r.props[i].1 = a[v - 1].clone();
        }
        match ch.dev(8) {
            0 => {}
            1 => r.props[i].0 = b"TeamSize".to_vec(),
            2 => r.props[i].0 = vec![],
            3 => r.props[i].0 = "\u{e9}\u{4e2d}".as_bytes().to_vec(),
            4 => r.props[i].0 = b"none".to_vec(),
            5 => r.props[i].0 = b"None".to_vec(),
            6 => r.props[i].0 = vec![b'k', 0xff],
            _ => r.props[i].0 = vec![b'k'; 10_001],
        }
    }
    match ch.dev(TEXTS + 1) {
        0 => {}
        i => r.props[2].1 = if i % 2 == 0 { P::Str(text(i - 1)) } else { P::Name(text(i - 1)) },
    }
    let inside = match ch.dev(5) {
        0 => None,
        1 => Some(P::Struct("S".into(), vec![])),
        2 => Some(P::Bool(1)),
        3 => Some(P::ByteNone(4)),
        _ => Some(P::Arr(vec![vec![k("z", P::QWord(u64::MAX))], vec![]])),
    };
    if let (Some(x), P::Arr(v)) = (inside, &mut r.props[1].1) {
        if let Some(e) = v.first_mut() {
            e.push(k("more", x));
        }
    }
    let more = ch.devof(&[0usize, 1, 28, 60, 124, 1000]);
    for i in 0..more {
        r.props.push(k(&format!("p{i}"), P::Int(i as i32)));
    }
    r.size = ch.devof(&[None, Some(0), Some(1), Some(u32::MAX), Some(1 << 31)]);
    r.pad = ch.devof(&[0, 1, u32::MAX]);

    // lists
    r.levels = vec![t("lev"), t("el")];
    r.keyframes = vec![(0x3f80_0000, 1, 2), (0x4000_0000, -3, 4)];
    r.debug = vec![(1, t("user"), t("text"))];
    r.ticks = vec![(t("Team0Goal"), 77), (t("Team1Goal"), 78)];
    r.packages = vec![t("Core"), t("Engine")];
    r.names = vec![t("n0"), t("n1"), t("n2")];
    r.objects = vec![t(PRI), t(name_of(Tag::Byte)), t("Engine.Actor"), t("Other")];
    r.classes = vec![(b"TAGame.PRI_TA".to_vec(), 0), (b"Engine.Actor".to_vec(), 2)];
    r.cache = vec![(2, 0, 0, vec![]), (0, 0, 5, vec![(1, 1)])];
    let mut n = Net::new(1023, r.ver(), false);
    n.frame(1.0, 0.5).new_actor(3, 1, 0).upd(3).attr(1, 1).w.u8(42);
    n.end_upd().end_frame();
    let good = n.bytes();
    r.network = match ch.dev(12) {
        0 => good,
        1 => vec![],
        2 => vec![0; 8],
        3 => vec![0; 300],
        4 => vec![0xff; 9],
        5 => good[..good.len() - 2].to_vec(),
        6 => good[..1].to_vec(),
        7 => [&good[..], &good[..]].concat(),
        8 => [&good[..], &[0; 100]].concat(),
        9 => {
            let mut n = Net::new(1023, r.ver(), false);
            n.frame(1.0, 0.5).upd(7).attr(1, 1).w.u8(1);
            n.end_upd().end_frame();
            n.bytes()
        }
        10 => {
            let mut n = Net::new(1023, r.ver(), false);
            n.frame(1.0, 0.5).new_actor(3, 1, 9);
            [n.bytes(), vec![0; 12]].concat()
        }
        _ => {
            let mut n = Net::new(1023, r.ver(), false);
            n.frame(1.0, 0.5).new_actor(3, 1, 3).end_frame();
            [n.bytes(), vec![0; 12]].concat()
        }
    };
    for which in [0usize, 1, 3, 4, 5, 6, 7, 8, 9, 10] {
        if let i @ 1.. = ch.dev(7) {
            set_list(&mut r, which, [0, 0, 1, 3, 65, 300, 25_001][i]);
        }
    }
    if let i @ 1.. = ch.dev(TEXTS * 8 + 1) {
        let x = text((i - 1) / 8);
        match (i - 1) % 8 {
            0 => r.levels.push(x),
            1 => r.debug.push((7, x, t("a"))),
            2 => r.debug.insert(0, (7, t("a"), x)),
            3 => r.ticks.push((x, 8)),
            4 => r.packages.insert(0, x),
            5 => r.objects.push(x),
            6 => r.names.push(x),
            _ => r.classes.push((x.enc().1, 3)),
        }
    }
    match ch.dev(7) {
        0 => {}
        1 => {
            if let Some(c) = r.cache.first_mut() {
                c.0 = 99
            }
        }
        2 => r.cache.reverse(),
        3 => r.cache.push((3, -1, i32::MIN, vec![(99, 2)])),
        4 => r.cache.push((0, 5, 5, vec![(1, 1)])),
        5 => r.cache.push((3, 1, 1, vec![(1, -1)])),
        _ => r.cache.push((3, 1, 1, vec![(1, i32::MAX)])),
    }
    match ch.dev(9) {
        0 => r.props.push(k("NumFrames", P::Int(1))),
        1 => {}
        2 => r.props.insert(0, k("NumFrames", P::Int(1))),
        3 => r.props.push(k("NumFrames", P::Str(t("1")))),
        i => r.props.push(k("NumFrames", P::Int([0, 2, -1, 50, i32::MAX][i - 4]))),
    }
    match ch.dev(7) {
        0 => {}
        1 => r.props.push(k("MaxChannels", P::Int(1023))),
        i => r.props.push(k("MaxChannels", P::Int([5, 0, -1, i32::MIN, 1 << 20][i - 2]))),
    }

    // how it is put in a file
    let (mut h, mut b) = (r.head_bytes(), r.body_bytes());
    // rest of a section behind what is read
    match ch.dev(5) {
        0 => {}
        1 => b.push(0),
        2 => b.extend([0xff; 40]),
        3 => h.truncate(h.len() - 9),
        _ => b.truncate(b.len() - 4),
    }
    let size = |ch: &mut Ch, n: usize| {
        let n = n as i32;
        ch.devof(&[n, n - 1, n + 1, 0, -1, i32::MAX, i32::MIN, 4])
    };
    let (hs, bs) = (size(ch, h.len()), size(ch, b.len()));
    let (rh, rb) = (sum_of(&h, hs), sum_of(&b, bs));
    let (hc, bc) = (ch.devof(&[rh, 0, !rh, rh ^ 1, rh ^ 0x8000_0000, rb]), ch.devof(&[rb, 0, !rb, rb ^ 1, rb ^ 0x8000_0000, rh]));
    let mut d = file_with(&h, hs, hc, &b, bs, bc);
    match ch.dev(9) {
        0 => {}
        1 => d.push(0),
        2 => d.extend([0xee; 300]),
        3 => d.truncate(d.len() - 1),
        4 => d.truncate(d.len() - 5),
        5 => d.truncate(8 + h.len()),
        6 => d.truncate(16 + h.len()),
        7 => d.truncate(20 + h.len()),
        _ => d.truncate(h.len()),
    }
    (d, hc == rh && bc == rb && (hs, bs) == (h.len() as i32, b.len() as i32))
}

fn sum_of(d: &[u8], n: i32) -> u32 {
    crc_ref(&d[..(n.max(0) as usize).min(d.len())])
}

fn w_total(ch: &mut Ch, cx: &mut Cx) {
    let (d, _) = make(ch);
    c01::all9(cx, &d);
}
fn w_header(ch: &mut Ch, cx: &mut Cx) {
    let (d, _) = make(ch);
    check(cx, &d, CrcCheck::Never, NetworkParse::Never, Part::Header, Lvl::Any);
}
pub fn w_sections(ch: &mut Ch, cx: &mut Cx) {
    let (d, _) = make(ch);
    check(cx, &d, CrcCheck::Never, NetworkParse::Never, Part::Sections, Lvl::Any);
}
fn w_options(ch: &mut Ch, cx: &mut Cx) {
    let (d, _) = make(ch);
    for c in CRCS {
        for n in NETS {
            check(cx, &d, c, n, Part::Sections, Lvl::Kind);
        }
    }
}
fn w_relate(ch: &mut Ch, cx: &mut Cx) {
    let (d, ok) = make(ch);
    c05::relate(cx, &d, ok);
}
fn w_says(ch: &mut Ch, cx: &mut Cx) {
    let (d, _) = make(ch);
    c17::says_file(cx, &d, NetworkParse::IgnoreOnError);
}
fn w_errors(ch: &mut Ch, cx: &mut Cx) {
    let (d, _) = make(ch);
    for c in CRCS {
        for n in NETS {
            c17::full(cx, &d, c, n);
        }
    }
}

macro_rules! deeper { ($($d:ident $of:ident),*) => {$(
    fn $d(ch: &mut Ch, cx: &mut Cx) {
        if cx.thorough {
            $of(ch, cx)
        }
    }
)*}}
deeper!(d_total w_total, d_header w_header, d_sections w_sections, d_options w_options, d_relate w_relate, d_says w_says, d_errors w_errors);

pub fn of(prop: &str) -> Vec<Fam> {
    let pair = |a, b| vec![f("whole", 2, a), f("whole_deep", 3, b)];
    match prop {
        "C01" => pair(w_total, d_total),
        "C02" => pair(w_header, d_header),
        "C03" | "C04" => pair(w_sections, d_sections),
        "C06" => pair(w_options, d_options),
        "C09" => pair(w_relate, d_relate),
        "C18" => pair(w_says, d_says),
        "C19" => pair(w_errors, d_errors),
        _ => vec![],
    }
}
