//! Checksums, truncation, options.

use super::*;
use crate::cmp::{check, part_bytes, Lvl, Part};
use crate::gen::*;
use crate::imp::{self, Got, CRCS, NETS};
use crate::refdec::{self, crc_ref};
use crate::rep::*;
use boxcars::crc::calc_crc;
use boxcars::{CrcCheck, NetworkParse, ParseError, ParserBuilder};

// ---------------------------------------------------------------- C05

fn crc(cx: &mut Cx, d: &[u8], want: u32) {
    cx.compared += 1;
    match imp::call(|| calc_crc(d)) {
        Ok(got) if got == want => {}
        Ok(got) => cx.fail(format!("crc of {} bytes: got {got:#010x}, want {want:#010x}", d.len())),
        Err(m) => cx.fail(format!("panicked: {m}")),
    }
}

fn bg(which: usize, n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match which {
            0 => 0,
            1 => 0xff,
            _ => (mix(i as u64) >> 13) as u8,
        })
        .collect()
}

fn crc_short(ch: &mut Ch, cx: &mut Cx) {
    let mut d = vec![];
    let n = ch.pick(if cx.thorough { 4 } else { 3 });
    for _ in 0..n.saturating_sub(1) {
        d.push(ch.pick(256) as u8);
    }
    if n == 0 {
        crc(cx, &d, crc_ref(&d));
        return;
    }
    d.push(0);
    for b in 0..=255u8 {
        d[n - 1] = b;
        let w = crc_ref(&d);
        crc(cx, &d, w);
        cx.outcome(&w.to_le_bytes());
    }
}

/// Every length, every position, every byte value there.
fn crc_pos(ch: &mut Ch, cx: &mut Cx) {
    let n = 1 + ch.pick(if cx.thorough { 512 } else { 130 });
    let mut d = bg(ch.pick(3), n);
    let i = ch.pick(n);
    let keep = d[i];
    for b in 0..=255u8 {
        d[i] = b;
        let w = crc_ref(&d);
        crc(cx, &d, w);
        if b == keep.wrapping_add(1) {
            cx.outcome(&w.to_le_bytes());
        }
    }
}

fn crc_lens(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.pick(if cx.thorough { 70_000 } else { 5000 });
    let d = bg(ch.pick(3), n);
    let w = crc_ref(&d);
    cx.outcome(&w.to_le_bytes());
    crc(cx, &d, w);
}

/// The same bytes at every alignment, with different neighbours.
fn crc_slices(ch: &mut Ch, cx: &mut Cx) {
    let off = ch.pick(65);
    let n = ch.pick(130);
    let mut d = bg(2, off + n + 64);
    for edge in [0u8, 0xff] {
        d[..off].fill(edge);
        d[off + n..].fill(edge);
        let w = crc_ref(&d[off..off + n]);
        cx.outcome(&w.to_le_bytes());
        crc(cx, &d[off..off + n], w);
    }
}

fn crc_large(ch: &mut Ch, cx: &mut Cx) {
    let e = 12 + ch.pick(if cx.thorough { 16 } else { 14 }) as u32;
    let n = (1i64 << e) + ch.range(-17, 17);
    let d = bg(2, n as usize);
    let w = crc_ref(&d);
    cx.outcome(&w.to_le_bytes());
    crc(cx, &d, w);
}

/// What the checksum of data is before it is inverted, as the word the next four bytes meet.
fn state(d: &[u8]) -> u32 {
    (!crc_ref(d)).swap_bytes()
}

/// Words that meet the running checksum in a chosen way, once or again and again.
fn crc_steered(ch: &mut Ch, cx: &mut Cx) {
    let lead = ch.pick(if cx.thorough { 70 } else { 34 });
    let delta = match ch.pick(60) {
        i @ 0..=31 => 1u32 << i,
        i @ 32..=46 => {
            let m = i as u32 - 31;
            (0..4).filter(|b| m >> b & 1 == 1).fold(0, |a, b| a | 0xff << (8 * b))
        }
        47 => 0,
        48 => 0x8080_8080,
        49 => 0x0101_0101,
        50 => 0x7fff_ffff,
        51 => 0x5555_5555,
        52 => 0xaaaa_aaaa,
        i => mix(i as u64) as u32,
    };
    let times = ch.of(&[1usize, 2, 9]);
    let gap = ch.of(&[0usize, 12]);
    let mut d = bg(ch.pick(3), lead);
    for _ in 0..times {
        let s = state(&d) ^ delta;
        d.extend(s.to_le_bytes());
        d.extend(bg(2, gap));
    }
    for tail in [0usize, 1, 4, 12, 28, 44] {
        let keep = d.len();
        d.extend(bg(2, tail));
        let w = crc_ref(&d);
        cx.outcome(&w.to_le_bytes());
        crc(cx, &d, w);
        d.truncate(keep);
    }
}

/// Changes the word at `at` so that the checksum of `lo..hi` becomes `goal`: it is affine in it.
fn solve(d: &mut [u8], lo: usize, hi: usize, at: usize, goal: u32) {
    d[at..at + 4].copy_from_slice(&[0; 4]);
    let zero = crc_ref(&d[lo..hi]);
    let mut rows: Vec<(u32, u32)> = (0..32)
        .map(|i| {
            d[at..at + 4].copy_from_slice(&(1u32 << i).to_le_bytes());
            (crc_ref(&d[lo..hi]) ^ zero, 1u32 << i)
        })
        .collect();
    let (mut left, mut word) = (goal ^ zero, 0u32);
    for bit in (0..32).rev() {
        let Some(p) = rows.iter().position(|r| r.0 >> bit & 1 == 1) else { continue };
        let (v, w) = rows.swap_remove(p);
        for r in &mut rows {
            if r.0 >> bit & 1 == 1 {
                *r = (r.0 ^ v, r.1 ^ w);
            }
        }
        if left >> bit & 1 == 1 {
            left ^= v;
            word ^= w;
        }
    }
    assert!(left == 0);
    d[at..at + 4].copy_from_slice(&word.to_le_bytes());
    assert!(crc_ref(&d[lo..hi]) == goal);
}

const GOALS: [u32; 12] = [0, u32::MAX, 1, 0x8000_0000, 0x1034_0dfe, 0xefcb_f201, 0xfe0d_3410, 0x01f2_cbef, 0x04c1_1db7, 0x0000_ffff, 0xffff_0000, 0x7fff_ffff];

/// Data of every length whose checksum is a number with a meaning of its own.
fn crc_goals(ch: &mut Ch, cx: &mut Cx) {
    let goal = ch.of(&GOALS);
    let n = 4 + ch.pick(if cx.thorough { 300 } else { 90 });
    let mut d = bg(ch.pick(3), n);
    let at = ch.of(&[0, (n - 4) / 2, n - 4]);
    solve(&mut d, 0, n, at, goal);
    cx.outcome(&d);
    crc(cx, &d, goal);
    // and goes on from there
    d.extend(bg(2, 21));
    let w = crc_ref(&d);
    crc(cx, &d, w);
}

/// Sections of real replays against their stored checksums.
fn crc_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    for cut in [0, 1, 7, 15, 16] {
        let s = &d[cut..];
        crc(cx, s, crc_ref(s));
    }
}

pub fn c05() -> Vec<Fam> {
    vec![
        f("short", 0, crc_short),
        f("pos", 0, crc_pos),
        f("lens", 0, crc_lens),
        f("slices", 0, crc_slices),
        f("large", 0, crc_large),
        f("steered", 0, crc_steered),
        f("goals", 0, crc_goals),
        f("real", 0, crc_real),
    ]
}

// ---------------------------------------------------------------- C06

/// Header bytes: 0 good, the others malformed in different ways.
fn head_of(kind: usize) -> Vec<u8> {
    let good = Rep::new().prop("NumFrames", P::Int(1)).prop("TeamSize", P::Int(3));
    let mut h = good.head_bytes();
    match kind {
        0 => {}
        // unknown kind
        1 => h = Rep::new().prop("x", P::Raw(b"Weird".to_vec(), vec![])).head_bytes(),
        // text too large
        2 => {
            let mut r = Rep::new();
            r.game = Txt::Raw(20_000, vec![]);
            h = r.head_bytes();
        }
        // invalid key
        3 => h = Rep { props: vec![(vec![0xff], P::Int(1))], ..Rep::new() }.head_bytes(),
        // array too large
        4 => h = Rep::new().prop("a", P::ArrRaw(25_001, vec![])).head_bytes(),
        // text that reaches beyond everything
        _ => h = Rep::new().prop("s", P::Str(Txt::Raw(9_999, vec![]))).head_bytes(),
    }
    h
}

fn body_of(kind: usize, net: usize) -> Vec<u8> {
    let mut w = W::new(LAST_VER, &[name_of(crate::golden::Tag::Byte)]);
    let mut n = w.net();
    match net {
        0 => {
            n.frame(1.0, 0.5).new_actor(1, 0, 0).end_frame();
        }
        // unknown actor
        1 => {
            n.frame(1.0, 0.5).upd(5).end_upd().end_frame();
            n.w.u64(0);
        }
        // cut
        _ => {
            n.frame(1.0, 0.5);
        }
    }
    w.rep.network = n.bytes();
    match kind {
        0 => w.rep.body_bytes(),
        // list too large
        1 => {
            let mut b = w.rep.body_bytes();
            b[..4].copy_from_slice(&25_001i32.to_le_bytes());
            b
        }
        // text too large
        2 => {
            w.rep.names = vec![Txt::Raw(-10_001, vec![])];
            w.rep.body_bytes()
        }
        // invalid class name
        3 => {
            w.rep.classes = vec![(vec![0xc0], 1)];
            w.rep.body_bytes()
        }
        // ends early
        _ => {
            let mut b = w.rep.body_bytes();
            b.truncate(b.len() - 3);
            b
        }
    }
}

/// Stored checksum: right, or wrong in some way.
fn sum(ch: &mut Ch, right: u32) -> u32 {
    let v = [right, 0, u32::MAX, right ^ 1, !right, right.wrapping_add(0x8000_0000), right.swap_bytes(), 1];
    ch.of(&v)
}

/// Sections whose checksum is a number with a meaning of its own, readable or not, and stored
/// checksums that are it or another of those.
fn o_goals(ch: &mut Ch, cx: &mut Cx) {
    let mut r = Rep::new().prop("Pad", P::Int(0)).prop("NumFrames", P::Int(0));
    r.keyframes = vec![(0, 0, 0)];
    let (mut h, mut b) = (r.head_bytes(), r.body_bytes());
    let (hg, bg) = (ch.of(&GOALS), ch.of(&GOALS));
    let bad = ch.pick(3);
    let at = h.windows(3).position(|w| w == b"Pad").unwrap() + 4 + 4 + 12 + 9;
    if bad == 1 {
        // an unknown kind
        let p = h.windows(9).position(|w| w == b"NumFrames").unwrap() + 10 + 4;
        h[p] = b'i';
    }
    if bad == 2 {
        let n = b.len();
        b[n - 1] = 0x7f;
    }
    let hl = h.len();
    solve(&mut h, 0, hl, at, hg);
    let bl = b.len();
    solve(&mut b, 0, bl, 8, bg);
    let stored = ch.of(&GOALS);
    let which = ch.pick(3);
    let hc = if which == 1 { stored } else { hg };
    let bc = if which == 2 { stored } else { bg };
    let d = file_with(&h, hl as i32, hc, &b, bl as i32, bc);
    for c in CRCS {
        check(cx, &d, c, NetworkParse::Always, Part::All, Lvl::Kind);
    }
}

fn o_product(ch: &mut Ch, cx: &mut Cx) {
    let h = head_of(ch.pick(6));
    let b = body_of(ch.pick(5), ch.pick(3));
    let hc = sum(ch, crc_ref(&h));
    let bc = sum(ch, crc_ref(&b));
    let d = file_with(&h, h.len() as i32, hc, &b, b.len() as i32, bc);
    for c in CRCS {
        for n in NETS {
            check(cx, &d, c, n, Part::All, Lvl::Kind);
        }
    }
}

/// Sizes that do not match the section content, with checksums of what they do cover.
fn o_sizes(ch: &mut Ch, cx: &mut Cx) {
    let h = head_of(ch.of(&[0usize, 1]));
    let b = body_of(ch.of(&[0usize, 1]), 0);
    let deltas = [0i32, 1, -1, 2, -2, 7, -7, 16, 100_000, -100_000];
    let hs = h.len() as i32 + ch.of(&deltas);
    let bs = b.len() as i32 + ch.of(&deltas);
    // checksum of what the declared size covers in the file, where there is that much
    let all = file(&h, &b);
    let cover = |at: usize, n: i32| -> u32 {
        if n >= 0 && at + n as usize <= all.len() {
            // the words after the header change below, so only sizes within the section count
            crc_ref(&all[at..at + n as usize])
        } else {
            0
        }
    };
    let wrong = ch.of(&[0u32, 1]);
    let hc = cover(8, hs) ^ wrong;
    let bc = cover(16 + h.len(), bs) ^ ch.of(&[0u32, 1]);
    let d = file_with(&h, hs, hc, &b, bs, bc);
    for c in CRCS {
        check(cx, &d, c, NetworkParse::Always, Part::All, Lvl::Kind);
    }
}

/// Sections of a megabyte and more, readable or not, with right and wrong checksums, also such as
/// would be right for a part of them only.
fn o_large(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(if cx.thorough { &[1usize << 20, (1 << 20) + 1, 1 << 16, 1 << 22, (1 << 24) + 3][..] } else { &[(1 << 20) + 9, 1 << 16, 1 << 22] });
    let in_body = ch.flip();
    let broken = ch.flip();
    let mut r = seed(0);
    let fill = ch.of(&[0u8, 0x5a]);
    if in_body {
        r.network.resize(n, fill);
    } else {
        let long = || P::Arr(vec![vec![k("a", P::Str(t(&"y".repeat(9000))))]; 110]);
        for i in 0..(n / (1 << 20)).max(1) {
            r.props.insert(0, k(&format!("big{i}"), long()));
        }
    }
    let (mut h, mut b) = (r.head_bytes(), r.body_bytes());
    if broken {
        let x = if in_body { &mut b } else { &mut h };
        let at = x.len() - ch.of(&[1usize, 9]);
        // the end is missing
        x.truncate(at);
        if !in_body {
            b.clear();
        }
    }
    let sect = if in_body { &b } else { &h };
    let half = sect.len() / 2;
    let sum = match ch.pick(5) {
        0 => crc_ref(sect),
        1 => crc_ref(sect) ^ 1,
        2 => crc_ref(&sect[..half]),
        3 => crc_ref(&sect[..(1 << 20).min(sect.len())]),
        _ => crc_ref(&sect[half..]),
    };
    let (hc, bc) = if in_body { (crc_ref(&h), sum) } else { (sum, crc_ref(&b)) };
    let d = file_with(&h, h.len() as i32, hc, &b, b.len() as i32, bc);
    for c in CRCS {
        check(cx, &d, c, NetworkParse::Never, Part::All, Lvl::Kind);
    }
}

const BUILD: usize = 12;

fn apply<'a>(b: ParserBuilder<'a>, op: usize, crc: &mut CrcCheck, net: &mut NetworkParse) -> ParserBuilder<'a> {
    match op {
        0..=5 => *crc = CRCS[op % 3],
        _ => *net = NETS[op % 3],
    }
    match op {
        0 => b.never_check_crc(),
        1 => b.on_error_check_crc(),
        2 => b.always_check_crc(),
        3..=5 => b.with_crc_check(CRCS[op - 3]),
        6 => b.must_parse_network_data(),
        7 => b.ignore_network_data_on_error(),
        8 => b.never_parse_network_data(),
        _ => b.with_network_parse(NETS[op - 9]),
    }
}

/// Every sequence of builder calls: the last of each kind wins, and there are defaults.
fn o_builder(ch: &mut Ch, cx: &mut Cx) {
    let (h, b) = match ch.pick(6) {
        0 => (head_of(0), body_of(0, 0)),
        1 => (head_of(0), body_of(0, 1)),
        2 | 3 => (head_of(0), body_of(1, 0)),
        _ => (head_of(1), body_of(0, 0)),
    };
    let bad = ch.pick(3);
    let d = file_with(
        &h,
        h.len() as i32,
        crc_ref(&h) ^ (bad == 1) as u32,
        &b,
        b.len() as i32,
        crc_ref(&b) ^ (bad == 2) as u32,
    );
    let n = ch.pick(if cx.thorough { 5 } else { 4 });
    let (mut crc, mut net) = (CrcCheck::OnError, NetworkParse::IgnoreOnError);
    let mut pb = ParserBuilder::new(&d);
    for _ in 0..n {
        pb = apply(pb, ch.pick(BUILD), &mut crc, &mut net);
    }
    cx.say(|| format!("{crc:?} {net:?}"));
    let got = match imp::call(|| pb.parse()) {
        Ok(Ok(r)) => Got::Ok(Box::new(r)),
        Ok(Err(e)) => Got::Err(Box::new(e)),
        Err(m) => Got::Panic(m),
    };
    let want = refdec::parse(&d, crc, net);
    crate::cmp::judge(cx, &got, &want, Part::All, Lvl::Kind);
}

/// Every value of single bits of the stored checksums, on good and bad sections.
fn o_bits(ch: &mut Ch, cx: &mut Cx) {
    let h = head_of(ch.pick(2));
    let b = body_of(ch.pick(2), 0);
    let which = ch.pick(2);
    let flip = match ch.pick(33) {
        0 => 0,
        i => 1u32 << (i - 1),
    };
    let hc = crc_ref(&h) ^ if which == 0 { flip } else { 0 };
    let bc = crc_ref(&b) ^ if which == 1 { flip } else { 0 };
    let d = file_with(&h, h.len() as i32, hc, &b, b.len() as i32, bc);
    for c in CRCS {
        check(cx, &d, c, NetworkParse::Always, Part::All, Lvl::Kind);
    }
}

/// Every one-byte change of a small replay: what is reported follows from the rule.
fn o_bytes(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.of(&[3usize, 2])).bytes();
    let i = ch.pick(d.len());
    let x = ch.of(&[1u8, 0x80, 0xff, 0x10]);
    d[i] ^= x;
    for c in CRCS {
        check(cx, &d, c, NetworkParse::IgnoreOnError, Part::All, Lvl::Kind);
    }
}

fn o_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    for c in CRCS {
        check(cx, d, c, NetworkParse::Never, Part::All, Lvl::Kind);
    }
}

pub fn c06() -> Vec<Fam> {
    vec![
        f("product", 0, o_product),
        f("goals", 0, o_goals),
        f("sizes", 0, o_sizes),
        f("large", 0, o_large),
        f("builder", 0, o_builder),
        f("bits", 0, o_bits),
        f("bytes", 0, o_bytes),
        f("real", 0, o_real),
    ]
}

// ---------------------------------------------------------------- C07

fn rejected(cx: &mut Cx, d: &[u8], what: impl Fn() -> String) {
    cx.compared += 1;
    let net = NETS[(cx.compared % 3) as usize];
    match imp::parse(d, CrcCheck::Always, net) {
        Got::Err(e) => {
            if let ParseError::CrcMismatch(a, b) = *e {
                cx.outcome(&[a.to_le_bytes(), b.to_le_bytes()].concat());
            }
        }
        Got::Ok(_) => cx.fail(format!("accepted with {}", what())),
        Got::Panic(m) => cx.fail(format!("panicked: {m}")),
    }
}

/// Bit positions that belong to a section or to a stored checksum.
fn guarded(d: &[u8]) -> Vec<usize> {
    let hs = i32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    (32..(8 + hs) * 8).chain((8 + hs + 4) * 8..d.len() * 8).collect()
}

/// Seed with an untouched parse first.
fn sound(cx: &mut Cx, d: &[u8]) {
    if !matches!(imp::parse(d, CrcCheck::Always, NetworkParse::Never), Got::Ok(_)) {
        cx.fail("unmodified replay rejected");
    }
}

fn tiny() -> Vec<u8> {
    let mut r = Rep::new().prop("Frames", P::Int(1));
    r.game = t("g");
    r.levels = vec![t("l")];
    r.bytes()
}

fn x_one(ch: &mut Ch, cx: &mut Cx) {
    let mut d = match ch.pick(5) {
        4 => tiny(),
        s => seed(s).bytes(),
    };
    sound(cx, &d);
    let g = guarded(&d);
    // one case: 64 positions
    let c = ch.pick(g.len().div_ceil(64));
    for &i in &g[c * 64..g.len().min(c * 64 + 64)] {
        d[i / 8] ^= 1 << (i % 8);
        rejected(cx, &d, || format!("bit {i} flipped"));
        d[i / 8] ^= 1 << (i % 8);
    }
}

fn x_two(ch: &mut Ch, cx: &mut Cx) {
    let mut d = if cx.thorough && ch.flip() { seed(3).bytes() } else { tiny() };
    sound(cx, &d);
    let g = guarded(&d);
    let a = ch.pick(g.len());
    let i = g[a];
    d[i / 8] ^= 1 << (i % 8);
    for &j in &g[a + 1..] {
        d[j / 8] ^= 1 << (j % 8);
        rejected(cx, &d, || format!("bits {i} and {j} flipped"));
        d[j / 8] ^= 1 << (j % 8);
    }
}

/// Bits of a section in checksum order: most significant first.
fn order(i: usize) -> (usize, u8) {
    (i / 8, 0x80 >> (i % 8))
}

fn x_bursts(ch: &mut Ch, cx: &mut Cx) {
    let mut d = match ch.pick(3) {
        0 => tiny(),
        1 => seed(3).bytes(),
        _ => seed(2).bytes(),
    };
    sound(cx, &d);
    let hs = i32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    let spans = [(4, 8), (8, 8 + hs), (12 + hs, 16 + hs), (16 + hs, d.len())];
    let (lo, hi) = spans[ch.pick(4)];
    let small = if cx.thorough { 12 } else { 8 };
    let n = 2 + ch.pick(31);
    let at = lo * 8 + ch.pick((hi - lo) * 8);
    if at + n > hi * 8 {
        return;
    }
    let inner = n - 2;
    let patterns: Vec<u64> = if n <= small {
        (0..1u64 << inner).collect()
    } else {
        let m = (1u64 << inner) - 1;
        let mut v = vec![0, m, 0x5555_5555_5555_5555 & m, 0xaaaa_aaaa_aaaa_aaaa & m, mix(n as u64) & m];
        v.extend((0..inner).map(|i| 1 << i));
        v
    };
    for p in patterns {
        let pat = 1 | p << 1 | 1 << (n - 1);
        for k in 0..n {
            if pat >> k & 1 == 1 {
                let (b, m) = order(at + k);
                d[b] ^= m;
            }
        }
        rejected(cx, &d, || format!("{n} bits from {at} changed by {pat:#x}"));
        for k in 0..n {
            if pat >> k & 1 == 1 {
                let (b, m) = order(at + k);
                d[b] ^= m;
            }
        }
    }
}

/// Stored checksums replaced by every value with a meaning of its own.
fn x_stored(ch: &mut Ch, cx: &mut Cx) {
    let mut d = match ch.pick(5) {
        4 => tiny(),
        s => seed(s).bytes(),
    };
    sound(cx, &d);
    let hs = i32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    let bs = d.len() - 16 - hs;
    let (a, b) = (4, 12 + hs);
    let word = |d: &[u8], i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
    let (x, y) = (word(&d, a), word(&d, b));
    let at = if ch.flip() { b } else { a };
    let own = word(&d, at);
    let mut v = vec![
        0, 1, u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x1034_0dfe, 0xefcb_f201, 0x04c1_1db7, 0xedb8_8320, x, y, !x, !y, x ^ y, x.swap_bytes(), y.swap_bytes(),
        x.reverse_bits(), y.reverse_bits(), own.wrapping_add(1), own.wrapping_sub(1), own.rotate_left(16), own.wrapping_neg(),
        hs as u32, bs as u32, refdec::crc_ref(&[]), refdec::crc_ref(&d[8..]), refdec::crc_ref(&d[8 + hs..]), refdec::crc_ref(&d[..8 + hs]),
        refdec::crc_ref(&d[12 + hs..]), refdec::crc_ref(&d),
    ];
    // bytes of it kept
    for m in [0xff, 0xff00, 0xff_0000, 0xff00_0000, 0xffff, 0xffff_0000, 0x00ff_ffff, 0xffff_ff00] {
        v.push(own & m);
        v.push(own | m);
    }
    // bits off a constant that has a meaning, and off the right one
    for c in [0, u32::MAX, 0x1034_0dfe] {
        v.extend((0..32).map(|i| c ^ 1 << i));
    }
    for s in v {
        if s != own {
            d[at..at + 4].copy_from_slice(&s.to_le_bytes());
            rejected(cx, &d, || format!("checksum {own:#x} at {at} stored as {s:#x}"));
        }
    }
    d[at..at + 4].copy_from_slice(&own.to_le_bytes());
    sound(cx, &d);
}

/// Data damaged so that the checksum of what is there becomes special.
fn x_forced(ch: &mut Ch, cx: &mut Cx) {
    let mut d = match ch.pick(4) {
        3 => tiny(),
        s => seed(s).bytes(),
    };
    sound(cx, &d);
    let hs = i32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    let (lo, hi) = if ch.flip() { (16 + hs, d.len()) } else { (8, 8 + hs) };
    let own = u32::from_le_bytes(d[lo - 4..lo].try_into().unwrap());
    let other = {
        let at = if lo == 8 { 12 + hs } else { 4 };
        u32::from_le_bytes(d[at..at + 4].try_into().unwrap())
    };
    let goal = ch.of(&[0, u32::MAX, 1, 0x8000_0000, 0x1034_0dfe, !own, own.swap_bytes(), own ^ 1, own ^ 0x8000_0000, other]);
    let at = lo + (hi - lo - 4) * ch.pick(9) / 8;
    if goal == own {
        return;
    }
    let keep: [u8; 4] = d[at..at + 4].try_into().unwrap();
    solve(&mut d, lo, hi, at, goal);
    // at most 32 bits in a row differ
    if d[at..at + 4] != keep {
        rejected(cx, &d, || format!("word at {at} changed, checksum is now {goal:#x}"));
    }
}

fn x_bytes(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.pick(3)).bytes();
    sound(cx, &d);
    let hs = i32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    let i = 4 + ch.pick(d.len() - 4);
    if (8 + hs..12 + hs).contains(&i) {
        return;
    }
    let keep = d[i];
    for x in 1..=255u8 {
        d[i] = keep ^ x;
        rejected(cx, &d, || format!("byte {i} changed by {x:#x}"));
    }
}

/// Real replays: positions all over each section.
fn x_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    if !matches!(imp::parse(d, CrcCheck::Always, NetworkParse::Never), Got::Ok(_)) {
        cx.count("real replay with wrong checksum");
        return;
    }
    let hs = i32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
    let bs = i32::from_le_bytes(d[8 + hs..12 + hs].try_into().unwrap()) as usize;
    let mut e = d.clone();
    let n = if cx.thorough { 64 } else { 8 };
    for (lo, len) in [(8, hs), (16 + hs, bs)] {
        for i in 0..n {
            let at = lo + (len - 1) * i / (n - 1);
            e[at] ^= 1 << (i % 8);
            rejected(cx, &e, || format!("byte {at} damaged"));
            e[at] ^= 1 << (i % 8);
        }
    }
}

pub fn c07() -> Vec<Fam> {
    vec![
        f("one", 0, x_one),
        f("two", 0, x_two),
        f("bursts", 0, x_bursts),
        f("stored", 0, x_stored),
        f("forced", 0, x_forced),
        f("bytes", 0, x_bytes),
        f("real", 0, x_real),
    ]
}

// ---------------------------------------------------------------- C08

fn cut(ch: &mut Ch, cx: &mut Cx) {
    let d = match ch.pick(5) {
        4 => tiny(),
        s => seed(s).bytes(),
    };
    let n = ch.pick(d.len());
    for c in CRCS {
        for net in NETS {
            cx.compared += 1;
            match imp::parse(&d[..n], c, net) {
                Got::Err(e) => cx.outcome(format!("{e:?}").as_bytes()),
                Got::Ok(_) => cx.fail(format!("first {n} of {} bytes accepted under {c:?}, {net:?}", d.len())),
                Got::Panic(m) => cx.fail(format!("panicked: {m}")),
            }
        }
    }
}

/// Cut and then filled up with other bytes so that only the size words tell.
fn cut_size(ch: &mut Ch, cx: &mut Cx) {
    let r = seed(ch.pick(4));
    let (h, b) = (r.head_bytes(), r.body_bytes());
    // the size claims more than there is
    let more = ch.of(&[1i32, 2, 3, 4, 15, 16, 17, 1000, i32::MAX - 100_000]);
    let d = match ch.pick(2) {
        0 => file_with(&h, h.len() as i32, crc_ref(&h), &b, b.len() as i32 + more, crc_ref(&b)),
        _ => {
            let more = more.max(b.len() as i32 + 9);
            file_with(&h, h.len() as i32 + more, crc_ref(&h), &b, b.len() as i32, crc_ref(&b))
        }
    };
    for c in CRCS {
        for net in NETS {
            cx.compared += 1;
            match imp::parse(&d, c, net) {
                Got::Err(e) => cx.outcome(format!("{e:?}").as_bytes()),
                Got::Ok(_) => cx.fail(format!("accepted though a section claims {more} bytes too many, under {c:?}, {net:?}")),
                Got::Panic(m) => cx.fail(format!("panicked: {m}")),
            }
        }
    }
}

fn same(cx: &mut Cx, a: &Got, b: &Got, what: impl Fn() -> String) {
    cx.compared += 1;
    match (a, b) {
        (Got::Panic(m), _) | (_, Got::Panic(m)) => cx.fail(format!("panicked: {m}")),
        (Got::Ok(x), Got::Ok(y)) => {
            let (p, q) = (part_bytes(x, Part::All), part_bytes(y, Part::All));
            cx.outcome(&p);
            if p != q {
                cx.fail(format!("{}: {}", what(), crate::cmp::diff(y, x)));
            }
        }
        (Got::Err(x), Got::Err(y)) => {
            let (p, q) = (format!("{x:?}"), format!("{y:?}"));
            cx.outcome(p.as_bytes());
            if p != q {
                cx.fail(format!("{}: {q} instead of {p}", what()));
            }
        }
        (x, _) => cx.fail(format!("{}: {}", what(), if matches!(x, Got::Ok(_)) { "rejected" } else { "accepted" })),
    }
}

fn trailing(ch: &mut Ch, cx: &mut Cx) {
    let d = match ch.pick(5) {
        4 => tiny(),
        s => seed(s).bytes(),
    };
    let tail: Vec<u8> = match ch.pick(5) {
        0 => vec![ch.pick(256) as u8],
        1 => vec![0; ch.pick(70)],
        2 => vec![0xff; ch.pick(70)],
        3 => vec![ch.pick(256) as u8, ch.of(&[0u8, 1, 0xff])],
        _ => d[..ch.pick(d.len() + 1)].to_vec(),
    };
    let mut e = d.clone();
    e.extend_from_slice(&tail);
    for c in CRCS {
        for net in NETS {
            let (a, b) = (imp::parse(&d, c, net), imp::parse(&e, c, net));
            if !matches!(a, Got::Ok(_)) {
                cx.fail("well formed replay rejected");
            }
            same(cx, &a, &b, || format!("{} bytes appended, under {c:?}, {net:?}", tail.len()));
        }
    }
}

/// As above with a body that has no room between its end and the end of the file.
fn trailing_large(ch: &mut Ch, cx: &mut Cx) {
    let d = seed(ch.pick(4)).bytes();
    let n = ch.of(&[255usize, 256, 4096, 65_535, 65_536, 1 << 20]);
    let fill = ch.of(&[0u8, 1, 0xff]);
    let mut e = d.clone();
    e.resize(d.len() + n, fill);
    for c in CRCS {
        let (a, b) = (imp::parse(&d, c, NetworkParse::Always), imp::parse(&e, c, NetworkParse::Always));
        same(cx, &a, &b, || format!("{n} bytes appended, under {c:?}"));
    }
}

fn cut_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    // a file with its own checksums right is whole
    let whole = imp::parse(d, CrcCheck::Always, NetworkParse::Never);
    let Got::Ok(w) = &whole else { return };
    let end = 16 + (w.header_size + w.content_size) as usize;
    let n = if cx.thorough { 400 } else { 25 };
    // a grid of cuts, and the last ones
    let cuts = (0..n).map(|i| end * i / n).chain(end - 20.min(end)..end);
    for at in cuts {
        cx.compared += 1;
        // without its footer no replay is whole
        match imp::parse(&d[..at], CrcCheck::OnError, NetworkParse::Never) {
            Got::Err(e) => cx.outcome(format!("{e:?}").as_bytes()),
            Got::Ok(_) => cx.fail(format!("first {at} of {end} bytes accepted")),
            Got::Panic(m) => cx.fail(format!("panicked: {m}")),
        }
    }
    let mut e = d[..end].to_vec();
    let a = imp::parse(&e, CrcCheck::Never, NetworkParse::Never);
    e.extend_from_slice(&[0xff; 33]);
    let b = imp::parse(&e, CrcCheck::Never, NetworkParse::Never);
    same(cx, &whole, &a, || "without what follows".into());
    same(cx, &whole, &b, || "with other bytes behind".into());
}

pub fn c08() -> Vec<Fam> {
    vec![
        f("cut", 0, cut),
        f("cut_size", 0, cut_size),
        f("trailing", 0, trailing),
        f("trailing_large", 0, trailing_large),
        f("real", 0, cut_real),
    ]
}

// ---------------------------------------------------------------- C09

/// The relations between the answers under the nine option pairs. `ok_sums`: checksums are right.
pub fn relate(cx: &mut Cx, d: &[u8], ok_sums: bool) {
    let mut sections: Option<Vec<u8>> = None;
    let mut frames: Option<Vec<u8>> = None;
    for c in CRCS {
        let got: Vec<Got> = NETS.iter().map(|n| imp::parse(d, c, *n)).collect();
        cx.compared += 3;
        for g in &got {
            match g {
                Got::Panic(m) => return cx.fail(format!("panicked: {m}")),
                Got::Ok(r) => {
                    let s = part_bytes(r, Part::Sections);
                    cx.outcome(&s);
                    if *sections.get_or_insert_with(|| s.clone()) != s {
                        return cx.fail(format!("sections differ under {c:?}"));
                    }
                }
                Got::Err(_) => {}
            }
        }
        let sec_fail = |g: &Got| matches!(g, Got::Err(e) if !matches!(**e, ParseError::NetworkError(_)));
        let [always, ignore, never] = &got[..] else { unreachable!() };
        match never {
            Got::Ok(r) => {
                if r.network_frames.is_some() {
                    return cx.fail("frames though network data is skipped");
                }
                let Got::Ok(i) = ignore else {
                    return cx.fail(format!("ignoring network errors fails, skipping does not, under {c:?}"));
                };
                match always {
                    Got::Ok(a) => {
                        let (Some(x), Some(y)) = (&a.network_frames, &i.network_frames) else {
                            return cx.fail(format!("no frames though they are readable, under {c:?}"));
                        };
                        let (x, y) = (crate::shape::canon(x), crate::shape::canon(y));
                        cx.outcome(&x);
                        if x != y || *frames.get_or_insert_with(|| x.clone()) != x {
                            return cx.fail(format!("frames differ under {c:?}"));
                        }
                        cx.count("network good");
                    }
                    Got::Err(e) => {
                        if !matches!(**e, ParseError::NetworkError(_)) {
                            return cx.fail(format!("requiring network data fails with {e:?} under {c:?}"));
                        }
                        if i.network_frames.is_some() || frames.is_some() {
                            return cx.fail("frames though network data is bad");
                        }
                        cx.count("network bad");
                    }
                    _ => unreachable!(),
                }
                if ok_sums && c != CrcCheck::Never && sections.is_none() {
                    return cx.fail("accepted under some checks only");
                }
            }
            Got::Err(e) => {
                for g in [always, ignore] {
                    if !sec_fail(g) {
                        return cx.fail(format!("skipping network data fails with {e:?}, {} does not", if std::ptr::eq(g, always) { "requiring" } else { "ignoring" }));
                    }
                    let Got::Err(x) = g else { unreachable!() };
                    if x != e {
                        return cx.fail(format!("different section errors: {x:?} and {e:?}"));
                    }
                }
                if sections.is_some() && ok_sums {
                    return cx.fail(format!("accepted under some checks, but {e:?} under {c:?}"));
                }
                cx.count("section bad");
            }
            Got::Panic(_) => unreachable!(),
        }
    }
}

fn right_sums(d: &[u8]) -> bool {
    match refdec::parse(d, CrcCheck::Always, NetworkParse::Never) {
        Err(refdec::E::Crc(..)) => false,
        _ => true,
    }
}

fn r_network(ch: &mut Ch, cx: &mut Cx) {
    let mut r = seed(ch.of(&[0usize, 2]));
    match ch.pick(3) {
        0 => {
            let n = ch.pick(r.network.len() + 1);
            r.network.truncate(n);
        }
        1 => {
            let i = ch.pick(r.network.len());
            r.network[i] ^= 1 << ch.pick(8);
        }
        _ => {
            let i = ch.pick(r.network.len());
            r.network[i] = ch.of(&[0u8, 0xff]);
        }
    }
    relate(cx, &r.bytes(), true);
}

/// The network data means something else, or nothing, when the tables change.
fn r_tables(ch: &mut Ch, cx: &mut Cx) {
    let r = seed(ch.of(&[0usize, 2, 1]));
    let mut b = r.body_bytes();
    let h = r.head_bytes();
    let i = ch.pick(b.len() - 3);
    let v = ch.of(&[0i32, 1, -1, i32::MAX, i32::MIN, 5]);
    b[i..i + 4].copy_from_slice(&v.to_le_bytes());
    relate(cx, &file(&h, &b), true);
}

fn r_header(ch: &mut Ch, cx: &mut Cx) {
    let r = seed(ch.pick(3));
    let mut h = r.head_bytes();
    let i = ch.pick(h.len());
    h[i] ^= ch.of(&[1u8, 2, 0x80, 0xff]);
    relate(cx, &file(&h, &r.body_bytes()), true);
}

/// Checksums wrong: under never and on-error that changes nothing for what can be read.
fn r_sums(ch: &mut Ch, cx: &mut Cx) {
    let r = seed(ch.pick(4));
    let (h, b) = (r.head_bytes(), r.body_bytes());
    let (x, y) = (ch.of(&[0u32, 1, u32::MAX]), ch.of(&[0u32, 1, u32::MAX]));
    let d = file_with(&h, h.len() as i32, crc_ref(&h) ^ x, &b, b.len() as i32, crc_ref(&b) ^ y);
    let base = file(&h, &b);
    relate(cx, &d, x == 0 && y == 0);
    for net in NETS {
        for c in [CrcCheck::Never, CrcCheck::OnError] {
            let (a, g) = (imp::parse(&base, c, net), imp::parse(&d, c, net));
            match (&a, &g) {
                (Got::Ok(a), Got::Ok(g)) => {
                    let mut a = a.clone();
                    a.header_crc = g.header_crc;
                    a.content_crc = g.content_crc;
                    if part_bytes(&a, Part::All) != part_bytes(g, Part::All) {
                        cx.fail("result depends on the stored checksum");
                    }
                }
                _ => cx.fail(format!("wrong checksum of readable sections matters under {c:?}")),
            }
        }
    }
}

/// Header values that steer the network data, with tables that are and are not in order.
fn r_world(ch: &mut Ch, cx: &mut Cx) {
    let mut r = Rep::new().objs(&[PRI, name_of(crate::golden::Tag::Byte), "Engine.Actor"]);
    r.cache = match ch.pick(8) {
        0 => vec![(0, 0, 0, vec![(1, 1)])],
        1 => vec![],
        2 => vec![(0, 0, 0, vec![(99, 1)])],
        3 => vec![(0, 0, 0, vec![(-1, 1)])],
        4 => vec![(77, 0, 0, vec![(1, 1)])],
        5 => vec![(0, 0, 0, vec![(1, -1)])],
        6 => vec![(0, 0, 0, vec![(1, i32::MAX)])],
        _ => vec![(2, 9, 9, vec![(1, 1)]), (0, 5, 9, vec![(1, 2)])],
    };
    match ch.pick(9) {
        0 => {}
        1 => r.props.push(k("NumFrames", P::Str(t("1")))),
        i => r.props.push(k("NumFrames", P::Int([0, 1, 2, -1, 100, i32::MAX, i32::MIN][i - 2]))),
    }
    let max = match ch.pick(6) {
        0 => 1023,
        i => {
            let n = [1, 0, -1, i32::MAX, 1023][i - 1];
            r.props.push(k("MaxChannels", P::Int(n)));
            n
        }
    };
    let mut n = Net::new(max.max(1) as u32, r.ver(), false);
    n.frame(1.0, 1.0).new_actor(0, 0, 0).end_frame();
    r.network = match ch.pick(6) {
        0 => n.bytes(),
        1 => vec![],
        2 => vec![0; 8],
        3 => vec![0; 300],
        4 => vec![0xff; 300],
        _ => {
            let mut b = n.bytes();
            b.pop();
            b
        }
    };
    relate(cx, &r.bytes(), true);
}

fn r_counts(ch: &mut Ch, cx: &mut Cx) {
    let mut r = seed(ch.of(&[0usize, 2]));
    let n = ch.of(&I32S);
    for (key, p) in &mut r.props {
        if key == b"NumFrames" {
            *p = P::Int(n);
        }
    }
    if ch.flip() {
        r.props.retain(|x| x.0 != b"NumFrames");
    }
    relate(cx, &r.bytes(), true);
}

/// Much network data, much of a body, few and many frames, good and bad.
fn r_large(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(if cx.thorough { &[65_535usize, 65_537, 1 << 20, (1 << 20) + 1, 1 << 22, (1 << 24) + 1][..] } else { &[65_537, (1 << 20) + 1, 1 << 22] });
    let mut r = seed(ch.of(&[0usize, 2]));
    let fill = ch.of(&[0u8, 0xff, 0x21]);
    match ch.pick(3) {
        0 => r.network.resize(n, fill),
        1 => r.network = vec![fill; n],
        _ => {
            r.names = vec![t("some name of an actor"); n.min(25_000)];
            let keep = r.network.len() - ch.pick(3);
            r.network.truncate(keep);
        }
    }
    match ch.pick(5) {
        0 => {}
        1 => r.props.retain(|x| x.0 != b"NumFrames"),
        i => {
            let m = [0, n as i32 - 1, i32::MAX][i - 2];
            r.props.retain(|x| x.0 != b"NumFrames");
            r.props.push(k("NumFrames", P::Int(m)));
        }
    }
    relate(cx, &r.bytes(), true);
}

fn r_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    let ok = right_sums(d);
    relate(cx, d, ok);
    if cx.thorough {
        // damaged in the middle of the network data
        for i in 1..16 {
            let mut e = d.clone();
            let at = d.len() * i / 16;
            e[at] ^= 0x40;
            relate(cx, &e, false);
        }
    }
}

pub fn c09() -> Vec<Fam> {
    vec![
        f("network", 0, r_network),
        f("tables", 0, r_tables),
        f("header", 0, r_header),
        f("sums", 0, r_sums),
        f("counts", 0, r_counts),
        f("world", 0, r_world),
        f("large", 0, r_large),
        f("real", 0, r_real),
    ]
}
