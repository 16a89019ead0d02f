//! Totality and memory.

use super::*;
use crate::cmp::{part_bytes, Part};
use crate::gen::*;
use crate::imp::{self, Got, CRCS, NETS};
use crate::refdec::crc_ref;
use crate::rep::*;
use boxcars::{CrcCheck, NetworkParse};
use std::error::Error;

/// Parse, then show the error in every way it can be shown.
fn total(cx: &mut Cx, d: &[u8], crc: CrcCheck, net: NetworkParse) {
    cx.compared += 1;
    match imp::parse(d, crc, net) {
        Got::Panic(m) => cx.fail(format!("panicked: {m}")),
        Got::Ok(r) => {
            cx.count("accepted");
            cx.outcome(&part_bytes(&r, Part::All));
        }
        Got::Err(e) => {
            cx.count("rejected");
            let shown = imp::call(|| {
                let mut s = format!("{e}");
                let mut n = 0;
                let mut src: Option<&dyn Error> = Some(&*e);
                while let Some(x) = src {
                    s.push_str(&x.to_string());
                    src = x.source();
                    n += 1;
                    assert!(n < 1000, "endless source chain");
                }
                if s.len() < 20_000 {
                    s.push_str(&format!("{e:?}"));
                }
                s
            });
            match shown {
                Ok(s) => cx.outcome(s.as_bytes()),
                Err(m) => cx.fail(format!("formatting the error panicked: {m}")),
            }
        }
    }
}

fn both(cx: &mut Cx, d: &[u8]) {
    total(cx, d, CrcCheck::Never, NetworkParse::Always);
    total(cx, d, CrcCheck::OnError, NetworkParse::IgnoreOnError);
}

pub fn all9(cx: &mut Cx, d: &[u8]) {
    for c in CRCS {
        for n in NETS {
            total(cx, d, c, n);
        }
    }
}

fn short(ch: &mut Ch, cx: &mut Cx) {
    let len = ch.pick(if cx.thorough { 4 } else { 3 });
    let d: Vec<u8> = (0..len).map(|_| ch.pick(256) as u8).collect();
    cx.say(|| format!("{d:?}"));
    if len < 3 {
        all9(cx, &d);
    } else {
        total(cx, &d, CrcCheck::OnError, NetworkParse::IgnoreOnError);
    }
}

/// Files made of 32-bit words from a small alphabet, sections sized to fit.
fn words(ch: &mut Ch, cx: &mut Cx) {
    const A: [i32; 9] = [0, 1, 5, -1, 868, i32::MAX, i32::MIN, 0x656e_6f4e /* None */, 25_000];
    let n = ch.pick(if cx.thorough { 8 } else { 6 });
    let mut h = vec![];
    for _ in 0..n {
        let x = ch.of(&A);
        i32le(&mut h, x);
    }
    let d = match ch.pick(2) {
        // as a whole file
        0 => h,
        // as the header
        _ => {
            let mut o = vec![];
            i32le(&mut o, h.len() as i32);
            o.extend_from_slice(&crc_ref(&h).to_le_bytes());
            o.extend_from_slice(&h);
            o
        }
    };
    total(cx, &d, CrcCheck::OnError, NetworkParse::Always);
}

/// Body made of words, behind a good header.
fn body_words(ch: &mut Ch, cx: &mut Cx) {
    const A: [i32; 7] = [0, 1, -1, 25_000, i32::MAX, i32::MIN, 2];
    let r = Rep::new().prop("NumFrames", P::Int(1));
    let n = ch.pick(if cx.thorough { 9 } else { 7 });
    let mut b = vec![];
    for _ in 0..n {
        let x = ch.of(&A);
        i32le(&mut b, x);
    }
    both(cx, &file(&r.head_bytes(), &b));
}

fn bytes(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.pick(4)).bytes();
    let i = ch.pick(d.len());
    let v = ch.pick(256) as u8;
    cx.say(|| format!("{} bytes, byte {i} = {v}", d.len()));
    d[i] = v;
    total(cx, &d, CrcCheck::Never, NetworkParse::Always);
    if cx.thorough {
        total(cx, &d, CrcCheck::OnError, NetworkParse::IgnoreOnError);
    }
}

fn word_at(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.pick(4)).bytes();
    let i = ch.pick(d.len() - 3);
    let v = ch.of(&I32S);
    d[i..i + 4].copy_from_slice(&v.to_le_bytes());
    both(cx, &d);
}

fn two_words(ch: &mut Ch, cx: &mut Cx) {
    const A: [i32; 4] = [0, -1, i32::MAX, 1];
    let mut d = seed(1 + ch.pick(2)).bytes();
    let step = if cx.thorough { 1 } else { 4 };
    let n = (d.len() - 3) / step;
    let i = ch.pick(n);
    let j = i + 1 + ch.pick(n - i);
    for p in [i, j] {
        let v = ch.of(&A);
        let p = (p * step).min(d.len() - 4);
        d[p..p + 4].copy_from_slice(&v.to_le_bytes());
    }
    total(cx, &d, CrcCheck::Never, NetworkParse::Always);
}

fn trunc(ch: &mut Ch, cx: &mut Cx) {
    let mut r = seed(ch.pick(4));
    if ch.flip() {
        // cut the network data, sections still consistent
        let n = ch.pick(r.network.len() + 1);
        r.network.truncate(n);
        all9(cx, &r.bytes());
    } else {
        let d = r.bytes();
        let n = ch.pick(d.len() + 1);
        all9(cx, &d[..n]);
    }
}

/// Every bit pattern at the start of every attribute kind, near and far from the end.
fn net_bits(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let ver = ch.of(&[LAST_VER, (868, 10, 0), (868, 20, 5)]);
    let w = W::new(ver, &[name_of(tag)]);
    let bits = if cx.thorough { 16 } else { 10 };
    let hi = ch.of(&[0u64, u64::MAX]);
    let tail = ch.of(&[0usize, 3, 40]);
    let low = ch.pick(1 << bits) as u64;
    let mut n = w.net();
    n.frame(1.0, 1.0).new_actor(0, 0, 0);
    n.upd(0).attr(1, 1);
    n.w.put(low, bits).put(hi, 24);
    for i in 0..tail {
        n.w.u8(if hi == 0 { 0 } else { 0xff ^ (i as u8 & 1) });
    }
    total(cx, &w.file(2, n.bytes()), CrcCheck::Never, NetworkParse::Always);
}

fn nest(ch: &mut Ch, cx: &mut Cx) {
    let depth = ch.of(&[1usize, 2, 8, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 20_000, 100_000, 400_000]);
    let kind = ch.pick(3);
    let close = ch.flip();
    let quirks = ch.flip();
    cx.say(|| format!("depth {depth} kind {kind}"));
    // written by hand: building the tree would recurse
    let mut o = vec![];
    for d in 0..depth {
        str_(&mut o, "k");
        if kind == 0 || (kind == 2 && d % 2 == 0) {
            str_(&mut o, "StructProperty");
            o.extend_from_slice(&[0; 8]);
            str_(&mut o, "s");
        } else {
            str_(&mut o, "ArrayProperty");
            o.extend_from_slice(&[0; 8]);
            i32le(&mut o, 1);
        }
    }
    if close {
        for _ in 0..=depth {
            str_(&mut o, "None");
        }
    }
    let r = if quirks { Rep::new().with_ver((0, 0, 0)) } else { Rep::new() };
    let mut h = r.head_bytes();
    h.truncate(h.len() - 9);
    h.extend_from_slice(&o);
    let d = file(&h, &r.body_bytes());
    // Deep results are dropped here too, and must not overflow either.
    cx.compared += 1;
    match imp::parse(&d, CrcCheck::Never, NetworkParse::Always) {
        Got::Panic(m) => cx.fail(format!("panicked: {m}")),
        Got::Ok(r) => {
            cx.outcome(b"ok");
            if let Err(m) = imp::call(|| (serde_json::to_string(&*r).map(|s| s.len()).ok(), format!("{r:?}").len(), r.clone() == r)) {
                cx.fail(format!("using the result panicked: {m}"));
            }
        }
        Got::Err(e) => {
            let m = imp::call(|| format!("{e} {e:?}"));
            match m {
                Ok(s) => cx.outcome(s.as_bytes()),
                Err(m) => cx.fail(format!("formatting the error panicked: {m}")),
            }
        }
    }
}

const NUMS: [i32; 18] = [1, 0, -1, 2, 3, 63, 64, 65, 199, 200, 201, 1023, 1024, 65_535, 1 << 30, i32::MAX - 1, i32::MAX, i32::MIN];

/// Odd numbers in the tables that drive the network decoding.
fn world(ch: &mut Ch, cx: &mut Cx) {
    let frames = ch.devof(&NUMS);
    let max_ch = ch.devof(&[1023, 0, 1, 2, 3, -1, 255, 256, 1 << 30, i32::MAX, i32::MIN]);
    let stream = ch.devof(&NUMS);
    let prop_obj = ch.devof(&NUMS);
    let cls = ch.devof(&[0, 1, 2, -1, 1 << 30, i32::MAX, i32::MIN]);
    let parent = ch.devof(&[0, -1, i32::MAX, i32::MIN]);
    let act = ch.devof(&[0i32, 1, 2, 3, -1, i32::MAX, i32::MIN]);
    let second = ch.devof(&[None, Some(0), Some(1), Some(-1), Some(i32::MAX), Some(i32::MIN)]);
    let net_len = ch.devof(&[99usize, 0, 1, 7, 8, 9, 12, 13, 20, 40]);
    let ones = ch.dev(2) == 1;
    let mut r = Rep::new().objs(&[PRI, "TAGame.PRI_TA:ClientLoadout", "Engine.Actor:bNetOwner"]);
    r.props.push(k("NumFrames", P::Int(frames)));
    r.props.push(k("MaxChannels", P::Int(max_ch)));
    let mut ps = vec![(prop_obj, stream)];
    if let Some(s) = second {
        ps.push((2, s));
    }
    r.cache = vec![(cls, parent, 0, ps)];
    let mut n = Net::new(max_ch.max(1) as u32, r.ver(), false);
    n.frame(1.0, 1.0).new_actor(0, 0, act);
    n.upd(0).w.bit(true);
    for i in 0..70u32 {
        n.w.u8(if ones { 0xff } else { (i * 37) as u8 });
    }
    let mut b = n.bytes();
    b.truncate(net_len);
    r.network = b;
    both(cx, &r.bytes());
}

fn versions(ch: &mut Ch, cx: &mut Cx) {
    const M: [i32; 10] = [0, 1, -1, 865, 866, 867, 868, 869, i32::MAX, i32::MIN];
    const N: [i32; 16] = [0, 1, -1, 11, 12, 14, 17, 18, 20, 23, 24, 25, 32, 1000, i32::MAX, i32::MIN];
    const K: [i32; 12] = [0, 1, -1, 2, 6, 7, 8, 9, 10, 11, i32::MAX, i32::MIN];
    let mut r = seed(ch.pick(3));
    r.major = ch.of(&M);
    r.minor = ch.of(&N);
    r.net = ch.of(&K);
    total(cx, &r.bytes(), CrcCheck::Never, NetworkParse::Always);
}

fn real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    if cx.thorough {
        // cut in 40 places, and one byte damaged in 40 places
        let i = ch.pick(40);
        let at = d.len() * (i + 1) / 40;
        if ch.flip() {
            let mut e = d.clone();
            e[at - 1] ^= 1 << (i % 8);
            both(cx, &e);
        } else {
            both(cx, &d[..at]);
        }
    } else {
        both(cx, d);
    }
}

/// Properties the parser itself looks at, of every kind and with every sort of value.
fn special(ch: &mut Ch, cx: &mut Cx) {
    const KEYS: [&str; 4] = ["NumFrames", "MaxChannels", "MatchType", "BuildVersion"];
    let key = ch.of(&KEYS);
    let mut v: Vec<P> = vec![
        P::Bool(1), P::ByteNone(0), P::Byte(b"Lan".to_vec(), b"".to_vec()), P::Float(0x4040_0000), P::QWord(5), P::QWord(u64::MAX),
        P::Arr(vec![]), P::Arr(vec![vec![k(key, P::Int(1))]]), P::Struct("".into(), vec![k(key, P::Int(1))]),
    ];
    v.extend([0, 1, 2, 3, -1, 1023, i32::MAX, i32::MIN].map(P::Int));
    let mut tx = super::c02::texts();
    for s in [
        "Lan", "lan", "Online", "221120.42953.406184", "221120", "22112", "2", ".", "..", "221120.", ".221120", "221120.42953.40618", "221120.42953.4061841",
        "999999.99999.999999", "99999999999999999999.1.1", "-1.2.3", "a.b.c", "+22112.1.1", " 221120.1.1",
    ] {
        tx.push(t(s));
    }
    for n in 0..12 {
        tx.push(Txt::U((0..n).map(|i| 0x661 + i as u16).collect()));
        tx.push(Txt::U((0..n).map(|i| if i % 2 == 0 { b'2' as u16 } else { 0x4e2d }).collect()));
    }
    for x in tx {
        v.push(P::Str(x.clone()));
        v.push(P::Name(x));
    }
    let p = v[ch.pick(v.len())].clone();
    let mut r = seed(ch.of(&[0usize, 2]));
    match ch.pick(3) {
        // in its place, before it, or alone
        0 => r.props.retain(|x| x.0 != key.as_bytes()),
        1 => {}
        _ => r.props.clear(),
    }
    r.props.insert(0, k(key, p));
    if ch.flip() {
        r.props.push(k("NumFrames", P::Int(1)));
    }
    both(cx, &r.bytes());
}

/// Long trailers behind the frames.
fn trailers(ch: &mut Ch, cx: &mut Cx) {
    const RUN: [usize; 12] = [0, 1, 3, 4, 7, 8, 64, 512, 513, 1000, 5000, 70_000];
    let mut w = W::new(LAST_VER, &[name_of(Tag::Byte)]);
    let mut n = w.net();
    n.frame(1.0, 1.0).new_actor(0, 0, 0).end_frame();
    if ch.flip() {
        // the marker that ends the list
        n.w.u64(0);
    }
    let mut b = n.bytes();
    for _ in 0..2 {
        b.extend(ch.of(&[&[][..], &[1, 0, 0, 0], &[0x80], &[0, 0, 0, 0x80], &[0xff; 9]]));
        let fill = ch.of(&[0u8, 0xff, 0x55]);
        b.extend(vec![fill; ch.of(&RUN)]);
    }
    w.rep.network = vec![];
    let frames = ch.of(&[1, 2, 3]);
    total(cx, &w.file(frames, b), CrcCheck::Never, NetworkParse::Always);
}

fn names(ch: &mut Ch, cx: &mut Cx) {
    let d = super::c17::named(ch, cx.thorough);
    total(cx, &d, CrcCheck::OnError, NetworkParse::Always);
}

/// Inputs beyond 2 GiB: positions no longer fit 31 bits.
fn huge(ch: &mut Ch, cx: &mut Cx) {
    let net = ch.of(&[i32::MAX, i32::MAX - 100, i32::MAX - 200]);
    let extra = ch.of(&[4096usize, 0, 40]);
    let r = Rep::new();
    let h = r.head_bytes();
    let b = {
        let mut b = vec![];
        i32le(&mut b, 0);
        i32le(&mut b, 0);
        i32le(&mut b, net);
        b
    };
    let start = file_with(&h, h.len() as i32, 0, &b, 12, 0);
    let mut d = vec![0u8; start.len() + net as usize + extra];
    d[..start.len()].copy_from_slice(&start);
    for n in NETS {
        total(cx, &d, CrcCheck::Never, n);
    }
}

pub fn c01() -> Vec<Fam> {
    vec![
        f("short", 0, short),
        f("words", 0, words),
        f("body_words", 0, body_words),
        f("bytes", 0, bytes),
        f("word_at", 0, word_at),
        f("two_words", 0, two_words),
        f("trunc", 0, trunc),
        f("net_bits", 0, net_bits),
        f("nest", 0, nest),
        f("world", 3, world),
        f("versions", 0, versions),
        f("special", 0, special),
        f("trailers", 0, trailers),
        f("names", 0, names),
        f("real", 0, real),
        f("huge", 0, huge),
    ]
}

// ---------------------------------------------------------------- C15

/// Bytes a parse may hold per input byte, and regardless of the input.
const PER_BYTE: i64 = 256;
/// The same where network data holds nothing but the shortest records: an update of two bits is kept
/// in some 80 bytes, in a list that doubles and is set aside for another of its size.
const PER_BYTE_DENSE: i64 = 1536;
const FLAT: i64 = 48 << 20;

fn mem(cx: &mut Cx, d: &[u8], net: NetworkParse) {
    mem_of(cx, d, net, PER_BYTE)
}

fn mem_of(cx: &mut Cx, d: &[u8], net: NetworkParse, per_byte: i64) {
    cx.compared += 1;
    let (g, peak) = imp::peak_of(|| imp::parse(d, CrcCheck::OnError, net));
    let o: &[u8] = match &g {
        Got::Panic(m) => return cx.fail(format!("panicked: {m}")),
        Got::Ok(_) => b"ok",
        Got::Err(_) => b"err",
    };
    let mut o = o.to_vec();
    o.extend_from_slice(&(peak >> 10).to_le_bytes());
    cx.outcome(&o);
    let allowed = FLAT + per_byte * d.len() as i64;
    if peak > allowed {
        cx.fail(format!("{} bytes of input, peak of {peak} bytes allocated, allowed {allowed}", d.len()));
    }
    cx.say(|| format!("{} bytes of input, peak of {peak} bytes", d.len()));
    drop(g);
}

fn m_words(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.pick(4)).bytes();
    let i = ch.pick(d.len() - 3);
    let v = ch.of(&[25_000, i32::MAX, -1, i32::MIN, 24_999, 10_000, 1 << 20, 0x00ff_ffff]);
    d[i..i + 4].copy_from_slice(&v.to_le_bytes());
    mem(cx, &d, NetworkParse::Always);
}

fn m_bytes(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seed(ch.pick(3)).bytes();
    let i = ch.pick(d.len());
    d[i] = ch.of(&[0xff, 0x7f, 0x80]);
    mem(cx, &d, NetworkParse::Always);
}

/// Arrays of arrays that all claim to be long, with next to no data.
fn m_nest(ch: &mut Ch, cx: &mut Cx) {
    let depth = ch.of(&[1usize, 2, 3, 8, 16, 32, 64, 65, 128, 500]);
    let n = ch.of(&[25_000, 24_999, 1000]);
    let mut h = Rep::new().head_bytes();
    h.truncate(h.len() - 9);
    for _ in 0..depth {
        str_(&mut h, "");
        str_(&mut h, "ArrayProperty");
        h.extend_from_slice(&[0; 8]);
        i32le(&mut h, n);
    }
    mem(cx, &file(&h, &[]), NetworkParse::Never);
}

/// Declared frame counts against real network sizes.
fn m_frames(ch: &mut Ch, cx: &mut Cx) {
    let len = ch.of(&[0usize, 1, 2, 8, 12, 13, 100, 1000, 10_000, 100_000, 600_000, 2_097_153]);
    let frames = ch.of(&[0i64, 1, -1, -2, i32::MIN as i64, i32::MAX as i64, -3, -4, -5, -6]);
    // negative small ones: around the length
    let frames = match frames {
        -3 => len as i64,
        -4 => len as i64 + 1,
        -5 => len as i64 - 1,
        -6 => len as i64 * 8,
        x => x,
    } as i32;
    let fill = ch.of(&[0u8, 0xff, 0x3f]);
    let mut r = Rep::new().prop("NumFrames", P::Int(frames)).objs(&[PRI]);
    r.network = vec![fill; len];
    let d = r.bytes();
    mem(cx, &d, NetworkParse::Always);
    let g = imp::parse(&d, CrcCheck::Never, NetworkParse::Always);
    if (frames < 0 || frames as usize > len) && !matches!(g, Got::Err(_)) {
        cx.fail(format!("{frames} frames accepted with {len} bytes of network data"));
    }
}

/// As much as fits into every bit: the shortest records there are, many of them.
fn m_dense(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(&[1000usize, 100_000, 1_000_000, 1_400_000]);
    let kind = ch.pick(6);
    let mut w = W::new(LAST_VER, &[name_of(Tag::Boolean)]);
    let max = if kind == 1 { 2 } else { 1023 };
    w.rep.props.push(k("MaxChannels", P::Int(max)));
    w.max_ch = max as u32;
    w.rep.cache[0].3 = vec![(1, 0)];
    let mut net = w.net();
    let mut frames = 1;
    match kind {
        0 => {
            net.frame(1.0, 1.0).new_actor(0, 0, 0).upd(0);
            for _ in 0..n {
                net.attr(0, 0);
                net.w.bit(true);
            }
            net.end_upd().end_frame();
        }
        1 => {
            net.frame(1.0, 1.0);
            for _ in 0..n {
                net.del(1);
            }
            net.end_frame();
        }
        2 => {
            net.frame(1.0, 1.0);
            for i in 0..n / 8 {
                net.new_actor(i as u32 % 1023, 0, 0);
            }
            net.end_frame();
        }
        3 => {
            frames = n / 16;
            for _ in 0..frames {
                net.frame(1.0, 1.0).end_frame();
            }
        }
        4 => {
            frames = n / 16;
            for i in 0..frames {
                net.frame(1.0, 1.0);
                if i == 0 {
                    net.new_actor(0, 0, 0);
                }
                net.upd(0).attr(0, 0);
                net.w.bit(true);
                net.end_upd().end_frame();
            }
        }
        _ => {
            frames = n / 16;
            for _ in 0..frames {
                net.frame(1.0, 1.0).del(1).end_frame();
            }
        }
    }
    mem_of(cx, &w.file(frames as i32, net.bytes()), NetworkParse::Always, PER_BYTE_DENSE);
}

/// Counts inside attributes.
fn m_attr(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&[Tag::LoadoutOnline, Tag::LoadoutsOnline, Tag::String, Tag::UniqueId, Tag::PrivateMatchSettings, Tag::Reservation, Tag::RepStatTitle]);
    let w = W::new(LAST_VER, &[name_of(tag)]);
    let reps = ch.of(&[1usize, 10, 300]);
    let fill = ch.of(&[0xffu8, 0x00, 0x7f, 0x0b, 0x10]);
    let mut n = w.net();
    n.frame(1.0, 1.0).new_actor(0, 0, 0);
    n.upd(0);
    for _ in 0..reps {
        n.attr(1, 1);
        // 255 lists, each of no products
        n.w.u8(255);
        for _ in 0..255 {
            n.w.u8(if fill == 0xff { 0 } else { fill });
        }
    }
    mem(cx, &w.file(1, n.bytes()), NetworkParse::Always);
}

/// Channel limits and largest stream ids, which size per-actor and per-class tables.
fn m_ids(ch: &mut Ch, cx: &mut Cx) {
    let max_ch = ch.of(&[1023, -1, i32::MAX, i32::MIN, 1 << 24]);
    let stream = ch.of(&[1, 63, 64, 65, 1 << 20, 1 << 28, i32::MAX - 1, i32::MAX, -1]);
    let id = ch.of(&[0u32, 199, 200, 1 << 20, 1 << 29]);
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Boolean)]).prop("NumFrames", P::Int(1)).prop("MaxChannels", P::Int(max_ch));
    r.cache = vec![(0, 0, 0, vec![(1, stream)])];
    let mut n = Net::new(max_ch as u32, r.ver(), false);
    n.frame(1.0, 1.0).new_actor(id % (max_ch as u32).max(1), 0, 0).end_frame();
    r.network = n.bytes();
    mem(cx, &r.bytes(), NetworkParse::Always);
}

/// Many list elements, table rows and objects of every kind: growth stays linear.
fn m_big(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(&[100usize, 2000, 25_000]);
    let which = ch.pick(10);
    let mut r = Rep::new().prop("NumFrames", P::Int(0));
    let e = t("");
    match which {
        0 => r.levels = vec![e; n],
        1 => r.keyframes = vec![(0, 0, 0); n],
        2 => r.debug = vec![(0, e.clone(), e); n],
        3 => r.ticks = vec![(e, 0); n],
        4 => r.objects = vec![e; n],
        5 => r.classes = vec![(vec![], 0); n],
        6 => r.cache = vec![(0, 0, 0, vec![]); n],
        7 => {
            r.objects = vec![t(PRI)];
            r.cache = vec![(0, 0, 0, (0..n as i32).map(|i| (0, i)).collect())]
        }
        8 => r.props = (0..n).map(|_| k("k", P::ByteNone(0))).collect(),
        _ => r.objects = (0..n).map(|i| t(&format!("TheWorld:PersistentLevel.VehiclePickup_Boost_TA_{i}"))).collect(),
    }
    mem(cx, &r.bytes(), NetworkParse::Always);
}

/// Every one of many placed objects inherits every one of many properties.
fn m_inherit(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(&[10usize, 50, 100]);
    let (d, _) = inherit(n, n);
    mem(cx, &d, NetworkParse::Always);
}

fn inherit(objects: usize, props: usize) -> (Vec<u8>, usize) {
    let mut r = Rep::new().prop("NumFrames", P::Int(0));
    r.objects = vec![t("TAGame.VehiclePickup_Boost_TA")];
    r.objects.extend((0..objects).map(|i| t(&format!("TheWorld:PersistentLevel.VehiclePickup_Boost_TA_{i}"))));
    r.cache = vec![(0, 0, 0, (0..props as i32).map(|i| (0, i)).collect())];
    let d = r.bytes();
    let n = d.len();
    (d, n)
}

/// The listed finding: memory grows with objects times inherited properties.
fn known_inherit(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(&[5000usize]);
    let (d, _) = inherit(n, n);
    cx.say(|| format!("{n} placed objects of a class with {n} properties, {} bytes", d.len()));
    mem(cx, &d, NetworkParse::Always);
}

fn m_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    mem(cx, d, NetworkParse::Always);
}

pub fn c15() -> Vec<Fam> {
    let mut v = vec![
        f("words", 0, m_words),
        f("bytes", 0, m_bytes),
        f("nest", 0, m_nest),
        f("frames", 0, m_frames),
        f("dense", 0, m_dense),
        f("attr", 0, m_attr),
        f("ids", 0, m_ids),
        f("big", 0, m_big),
        f("inherit", 0, m_inherit),
        f("real", 0, m_real),
        f("known_inherit", 0, known_inherit),
    ];
    v.extend(super::c26::memory_families());
    v
}

use crate::golden::Tag;
