//! Header properties, body lists, text.

use super::*;
use crate::cmp::{net_exact, check, net_check, Lvl, Part};
use crate::gen::{default_attr, name_of, LAST_VER, W};
use crate::golden::Tag;
use crate::refdec::Ver;
use crate::rep::*;
use boxcars::{CrcCheck, NetworkParse};

fn head(cx: &mut Cx, d: &[u8]) {
    check(cx, d, CrcCheck::Never, NetworkParse::Never, Part::Header, Lvl::Any);
}
fn sections(cx: &mut Cx, d: &[u8]) {
    check(cx, d, CrcCheck::Never, NetworkParse::Never, Part::Sections, Lvl::Any);
}

/// Versions with different header layouts.
pub const LAYOUTS: [Ver; 4] = [LAST_VER, (0, 0, 0), (868, 12, 0), (0, 1, 0)];

/// One of each kind of property, and boundary values of some.
pub fn alphabet() -> Vec<P> {
    vec![
        P::Int(7),
        P::Bool(1),
        P::Bool(0),
        P::Byte(b"OnlinePlatform".to_vec(), b"OnlinePlatform_Steam".to_vec()),
        P::ByteNone(0),
        P::ByteNone(5),
        P::Float(0x3f80_0001),
        P::QWord(0x0102_0304_0506_0708),
        P::Name(t(" Nm ")),
        P::Str(t(" St\n")),
        P::Str(Txt::U(vec![0x3a9])),
        P::Str(Txt::Raw(0, vec![])),
        P::Arr(vec![]),
        P::Arr(vec![vec![]]),
        P::Arr(vec![vec![k("a", P::Int(1))], vec![k("a", P::Int(2)), k("b", P::Bool(1))]]),
        P::Struct("Thing".into(), vec![]),
        P::Struct("".into(), vec![k("x", P::Name(t("y"))), k("z", P::ByteNone(1))]),
        P::Struct("S".into(), vec![k("in", P::Arr(vec![vec![k("q", P::QWord(1))]]))]),
        P::Byte(vec![], vec![]),
        P::Raw(b"WeirdProperty".to_vec(), vec![0, 0, 0, 0]),
    ]
}

fn h_lists(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(if cx.thorough { 4 } else { 2 })];
    let a = alphabet();
    let n = ch.pick(4);
    let mut r = Rep::new().with_ver(ver);
    for i in 0..n {
        let key = if i == 2 { "k0".to_string() } else { format!("k{i}") };
        r.props.push(k(&key, a[ch.pick(a.len())].clone()));
    }
    cx.say(|| format!("{ver:?} {:?}", r.props));
    head(cx, &r.bytes());
}

pub const F32S: [u32; 22] = [
    0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 1, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff,
    0xff7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffc1_2345, 0x3dcc_cccd,
    0x4b80_0000, 0x5f00_0000, 0x4f00_0000, 0x2edb_e6fe, 0x2edb_e6ff, 0xffff_ffff,
];

pub fn words() -> Vec<u64> {
    let mut v = vec![0, u64::MAX, 0x0123_4567_89ab_cdef];
    for i in 0..64 {
        v.push(1 << i);
        v.push(!(1 << i));
        v.push((1u64 << i) - 1);
    }
    for i in 0..8 {
        v.push(0xa5 << (8 * i));
    }
    v
}

/// Texts as they may appear anywhere in a file.
pub fn texts() -> Vec<Txt> {
    let mut v = vec![
        t(""),
        t("a"),
        t("None"),
        t("hello world"),
        Txt::Raw(0, vec![]),
        Txt::Raw(1, vec![b'x']),
        Txt::Raw(3, vec![b'a', 0, b'b']),
        Txt::Raw(-1, vec![1, 2]),
        Txt::W((0x80..=0xff).collect()),
        Txt::W((0..0x80).collect()),
        Txt::U(vec![]),
        Txt::U(vec![0x41]),
        Txt::U(vec![0xd83d, 0xde00, 0x20ac]),
        Txt::U(vec![0xd800]),
        Txt::U(vec![0xdc00, 0xd800]),
        Txt::U(vec![0, 0xffff, 0xfeff, 0xfffe]),
        Txt::W(vec![b'q'; 300]),
        Txt::U(vec![0x3b1; 300]),
        Txt::W(vec![b'q'; 9999]),
        Txt::U(vec![0x3b1; 9999]),
    ];
    v.push(Txt::W(vec![b'q'; 10_000]));
    v.push(Txt::U(vec![0x3b1; 10_000]));
    v.push(Txt::Raw(i32::MAX, vec![]));
    v.push(Txt::Raw(i32::MIN, vec![]));
    v
}

fn h_values(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&LAYOUTS);
    let w = words();
    let tx = texts();
    let names: [&[u8]; 8] = [b"", b"a", b"None", b"none", b"None\0", "\u{e9}\u{4e2d}\u{1f600}".as_bytes(), b"OnlinePlatform", b"\xff"];
    let p = match ch.pick(9) {
        0 => P::Bool(ch.pick(256) as u8),
        1 => P::ByteNone(ch.pick(256) as u8),
        2 => P::Byte(names[ch.pick(8)].to_vec(), names[ch.pick(8)].to_vec()),
        3 => P::Float(F32S[ch.pick(F32S.len())]),
        4 => P::Float(w[ch.pick(w.len())] as u32),
        5 => P::Int(w[ch.pick(w.len())] as u32 as i32),
        6 => P::QWord(w[ch.pick(w.len())]),
        7 => P::Name(tx[ch.pick(tx.len())].clone()),
        _ => P::Str(tx[ch.pick(tx.len())].clone()),
    };
    let mut r = Rep::new().with_ver(ver);
    r.props = vec![k("A", P::Int(1)), k("V", p.clone()), k("B", P::Int(2))];
    match ch.pick(3) {
        0 => {}
        1 => r.props[1] = k("S", P::Struct("x".into(), vec![k("V", p)])),
        _ => r.props[1] = k("S", P::Arr(vec![vec![k("V", p.clone()), k("W", p)]])),
    }
    head(cx, &r.bytes());
}

pub fn tree(ch: &mut Ch, depth: u32, budget: &mut u32, n: &mut i32) -> Props {
    let mut v = vec![];
    while *budget > 0 && v.len() < 3 {
        let kinds = if depth > 0 { 5 } else { 2 };
        let p = match ch.pick(kinds) {
            0 => break,
            1 => {
                *budget -= 1;
                *n += 1;
                P::Int(*n)
            }
            2 => {
                *budget -= 1;
                *n += 1;
                P::Struct(format!("S {n} "), tree(ch, depth - 1, budget, n))
            }
            3 => {
                *budget -= 1;
                P::Arr(vec![tree(ch, depth - 1, budget, n)])
            }
            _ => {
                *budget -= 1;
                P::Arr(vec![tree(ch, depth - 1, budget, n), tree(ch, depth - 1, budget, n)])
            }
        };
        *n += 1;
        v.push(k(&format!("k{n}"), p));
    }
    v
}

fn h_trees(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let mut budget = if cx.thorough { 7 } else { 6 };
    let mut r = Rep::new().with_ver(ver);
    r.props = tree(ch, 3, &mut budget, &mut 0);
    cx.say(|| format!("{:?}", r.props));
    head(cx, &r.bytes());
}

fn h_arrays(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let mut lens: Vec<i32> = (0..=300).collect();
    lens.extend([1000, 24_999, 25_000, 25_001, 25_002, 65_536, -1, -2, i32::MIN, i32::MAX]);
    let n = lens[ch.pick(lens.len())];
    let mut v = vec![];
    // as many elements as are declared, up to a limit
    for i in 0..n.clamp(0, 25_010) {
        put_props(&mut v, &vec![k("i", P::Int(i))], &Style { quirks: ver == (0, 0, 0), size: None, pad: 0 });
    }
    let mut r = Rep::new().with_ver(ver);
    r.props = vec![k("A", P::ArrRaw(n, v)), k("after", P::Int(3))];
    head(cx, &r.bytes());
}

/// Arrays inside arrays and structs, many elements, some of them empty.
fn h_nested(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let n = ch.of(&[0usize, 1, 2, 3, 15, 16, 17, 99, 100, 101, 255, 256, 257, 499, 500, 501, 999, 1000, 1023, 1024, 1025, 5000, 12_000]);
    let fill = ch.pick(5);
    let depth = ch.pick(4);
    let of_structs = ch.flip();
    let mut p = P::Arr(
        (0..n)
            .map(|i| match fill {
                0 => vec![],
                1 => vec![k("i", P::Int(i as i32))],
                2 if i % 2 == 0 => vec![],
                3 if i + 1 == n || i == 0 => vec![],
                4 if i % 7 != 0 => vec![],
                _ => vec![k("i", P::Int(i as i32)), k("", P::Str(t("")))],
            })
            .collect(),
    );
    for i in 0..depth {
        let inner = vec![k("p", P::Bool(1)), k("in", p), k("q", P::Bool(0))];
        p = if of_structs { P::Struct(format!("S{i}"), inner) } else { P::Arr(vec![vec![], inner, vec![]]) };
    }
    let mut r = Rep::new().with_ver(ver);
    r.props = vec![k("A", p), k("after", P::Int(3))];
    head(cx, &r.bytes());
}

/// Keys, struct names, and the two texts of a byte, of many lengths, with blanks at their ends.
fn h_ends(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let n = ch.of(&[1usize, 2, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 2000, 2001, 4096, 5000, 5001, 8192, 9_998, 9_999, 10_000]);
    let c = ch.of(&[b' ', b'\n', b'\t', b'"', b'\r', b'_', 0x7f]);
    let at = ch.pick(3);
    let mut x: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    if at != 1 {
        x[0] = c;
    }
    if at != 0 {
        x[n - 1] = c;
    }
    let name = String::from_utf8(x.clone()).expect("ascii");
    let inner = vec![k("z", P::Int(1))];
    let p = match ch.pick(6) {
        0 => (x, P::Int(4)),
        1 => k("s", P::Struct(name, inner)),
        2 => k("b", P::Byte(x, b"v".to_vec())),
        3 => k("b", P::Byte(b"k".to_vec(), x)),
        4 => k("s", P::Struct("S".into(), vec![(x, P::Str(t("v")))])),
        _ => k("a", P::Arr(vec![vec![(x, P::Name(t("v")))], inner])),
    };
    let mut r = Rep::new().with_ver(ver);
    r.props = vec![p, k("after", P::Int(3))];
    head(cx, &r.bytes());
}

fn h_sizes(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&LAYOUTS);
    let a = alphabet();
    let mut r = Rep::new().with_ver(ver);
    r.props = vec![k("p", a[ch.pick(a.len())].clone()), k("q", P::Arr(vec![vec![k("z", a[ch.pick(a.len())].clone())]]))];
    r.size = ch.of(&[None, Some(0), Some(1), Some(4), Some(u32::MAX), Some(0x8000_0000), Some(10_000), Some(9)]);
    r.pad = ch.of(&[0, 1, u32::MAX, 0x8000_0000, 0x656e_6f4e]);
    head(cx, &r.bytes());
}

const KINDS: [&str; 9] = [
    "BoolProperty", "ByteProperty", "ArrayProperty", "FloatProperty", "IntProperty", "NameProperty",
    "StrProperty", "QWordProperty", "StructProperty",
];

/// Every one-byte change, shortening and lengthening of each kind name.
fn h_unknown(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let mut kind = KINDS[ch.pick(9)].as_bytes().to_vec();
    match ch.pick(3) {
        0 => {
            let i = ch.pick(kind.len());
            kind[i] = ch.pick(256) as u8;
        }
        1 => {
            let n = ch.pick(kind.len());
            kind.truncate(n);
        }
        _ => kind.push(ch.pick(256) as u8),
    }
    let fill = ch.of(&[0u8, 1]);
    let mut payload = vec![];
    if fill == 0 {
        payload = vec![0; 16];
    } else {
        str_(&mut payload, "None");
        payload.extend_from_slice(&[1, 5, 0, 0, 0, b'N', b'o', b'n', b'e', 0]);
    }
    let mut r = Rep::new().with_ver(ver);
    r.props = vec![k("x", P::Raw(kind, payload)), k("y", P::Int(4))];
    head(cx, &r.bytes());
}

fn h_keys(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let names: [&[u8]; 20] = [
        b"", b"N", b"none", b"NONE", b"None ", b" None", b"None\0", b"Non", b"Nonee", b"N0ne", b"nONE",
        "\u{e9}".as_bytes(), "\u{4e2d}\u{6587}".as_bytes(), "\u{1f600}".as_bytes(), b"\x80", b"\xc3",
        b"a\0b", b"NumFrames", b"None", b"IntProperty",
    ];
    let mut r = Rep::new().with_ver(ver);
    for i in 0..3 {
        r.props.push((names[ch.pick(20)].to_vec(), P::Int(i)));
    }
    head(cx, &r.bytes());
}

/// Names that are nearly one that means something, where such names are.
fn h_near(ch: &mut Ch, cx: &mut Cx) {
    const WORDS: [&str; 10] = [
        "None", "BoolProperty", "ByteProperty", "FloatProperty", "IntProperty", "QWordProperty", "NameProperty", "StrProperty",
        "ArrayProperty", "StructProperty",
    ];
    let word = ch.pick(10);
    let full = WORDS[word].as_bytes();
    let at = ch.pick(full.len() + 1);
    let mut w = full.to_vec();
    let how = ch.pick(9);
    match how {
        0 => {}
        1 if at < w.len() => w[at] ^= 0x20,
        2 if at < w.len() => {
            w.remove(at);
        }
        3 => w.truncate(at),
        4 if at + 1 < w.len() => w.swap(at, at + 1),
        5..=8 => w.insert(at, [b' ', 0, b'e', b'\n'][how - 5]),
        _ => {}
    }
    let ver = LAYOUTS[ch.pick(2)];
    let place = ch.pick(5);
    cx.say(|| format!("{:?} at {place}, {ver:?}", String::from_utf8_lossy(&w)));
    let mut r = Rep::new().with_ver(ver);
    let p = match place {
        // a key, the kind of a property, the kind of a byte, the value of one, the name of a structure
        0 => (w, P::Int(5)),
        1 => {
            let pay: Vec<u8> = match word {
                1 => vec![1],
                2 => [&[2, 0, 0, 0, b'K', 0][..], &[2, 0, 0, 0, b'V', 0]].concat(),
                6 | 7 => vec![2, 0, 0, 0, b'x', 0],
                5 => vec![7; 8],
                8 => vec![0; 4],
                9 => [&[2, 0, 0, 0, b'S', 0][..], &[5, 0, 0, 0], b"None\0"].concat(),
                _ => vec![3; 4],
            };
            (b"key".to_vec(), P::Raw(w, pay))
        }
        2 => (b"key".to_vec(), P::Byte(w, b"Value".to_vec())),
        3 => (b"key".to_vec(), P::Byte(b"Kind".to_vec(), w)),
        _ => {
            let Ok(s) = String::from_utf8(w) else { return };
            (b"key".to_vec(), P::Struct(s, vec![k("a", P::Int(1))]))
        }
    };
    r.props.push(p);
    r.props.push(k("after", P::Bool(1)));
    head(cx, &r.bytes());
}

/// Raw sizes of keys and kinds, with odd terminators.
fn h_raw_keys(ch: &mut Ch, cx: &mut Cx) {
    let mut o = Rep::new().head_bytes();
    o.truncate(o.len() - 9);
    let enc = |ch: &mut Ch, o: &mut Vec<u8>, s: &[u8]| {
        let (n, b): (i32, Vec<u8>) = match ch.pick(7) {
            0 => (s.len() as i32 + 1, [s, &[0]].concat()),
            1 => (s.len() as i32 + 1, [s, &[b'x']].concat()),
            2 => (s.len() as i32, s.to_vec()),
            3 => (0, vec![]),
            4 => (-1, s.to_vec()),
            5 => (s.len() as i32 + 2, [s, &[0, 0]].concat()),
            _ => (10_001, vec![b'k'; 10_001]),
        };
        i32le(o, n);
        o.extend_from_slice(&b);
    };
    enc(ch, &mut o, b"key");
    enc(ch, &mut o, b"IntProperty");
    o.extend_from_slice(&[4, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4]);
    enc(ch, &mut o, b"None");
    str_(&mut o, "None");
    head(cx, &file(&o, &Rep::new().body_bytes()));
}

fn h_vers(ch: &mut Ch, cx: &mut Cx) {
    const M: [i32; 11] = [0, 1, -1, 2, 864, 865, 866, 867, 868, i32::MAX, i32::MIN];
    const N: [i32; 11] = [0, 1, -1, 16, 17, 18, 19, 20, 32, i32::MAX, i32::MIN];
    let mut r = Rep::new();
    r.major = ch.of(&M);
    r.minor = ch.of(&N);
    r.net = ch.of(&[0, 1, -1, 10, i32::MAX, i32::MIN]);
    r.game = match ch.pick(3) {
        0 => t("TAGame.Replay_Soccar_TA"),
        1 => t(""),
        _ => Txt::U(vec![0x47, 0x4e2d]),
    };
    r.props = vec![k("b", P::Bool(1)), k("e", P::Byte(b"Kind".to_vec(), b"V".to_vec())), k("i", P::Int(1))];
    head(cx, &r.bytes());
}

fn h_many(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let a = alphabet();
    let mut lens: Vec<usize> = (0..=130).collect();
    lens.extend([255, 256, 257, 1000, 5000, 20_000]);
    let n = lens[ch.pick(lens.len())];
    let same = ch.flip();
    let mut r = Rep::new().with_ver(ver);
    for i in 0..n {
        let p = if same { P::Int(i as i32) } else { a[i % (a.len() - 1)].clone() };
        r.props.push(k(if same { "same" } else { "k" }, p));
    }
    head(cx, &r.bytes());
}

fn h_deep(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let depth = ch.pick(72);
    let kind = ch.pick(3);
    let mut ps: Props = vec![k("leaf", P::Int(42))];
    for i in 0..depth {
        let inner = std::mem::take(&mut ps);
        let p = if kind == 0 || (kind == 2 && i % 2 == 0) {
            P::Struct(format!(" S{i} "), inner)
        } else {
            P::Arr(vec![vec![k("Pre ", P::Bool(1))], inner, vec![]])
        };
        ps = vec![k(" A", P::Int(i as i32)), k("d ", p), k("Z\t", P::Str(t(" End "))), k("n", P::Name(t("\tNm "))), k("b", P::Byte(b" B ".to_vec(), b" b\n".to_vec()))];
    }
    let mut r = Rep::new().with_ver(ver);
    r.props = ps;
    head(cx, &r.bytes());
}

/// Every cut of the header, sizes adjusted: a header that ends early is not well formed.
fn h_cut(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let a = alphabet();
    let mut r = Rep::new().with_ver(ver);
    r.props = vec![k("p", a[ch.pick(a.len() - 1)].clone())];
    let h = r.head_bytes();
    let n = ch.pick(h.len());
    // nothing follows the cut
    let mut d = vec![];
    i32le(&mut d, n as i32);
    i32le(&mut d, 0);
    d.extend_from_slice(&h[..n]);
    head(cx, &d);
}

fn real_sections(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    sections(cx, d);
}

pub fn c02() -> Vec<Fam> {
    vec![
        f("lists", 0, h_lists),
        f("values", 0, h_values),
        f("trees", 0, h_trees),
        f("arrays", 0, h_arrays),
        f("nested", 0, h_nested),
        f("ends", 0, h_ends),
        f("sizes", 0, h_sizes),
        f("unknown", 0, h_unknown),
        f("keys", 0, h_keys),
        f("near", 0, h_near),
        f("raw_keys", 0, h_raw_keys),
        f("vers", 0, h_vers),
        f("many", 0, h_many),
        f("deep", 0, h_deep),
        f("cut", 0, h_cut),
        f("real", 0, real_sections),
    ]
}

// ---------------------------------------------------------------- C03

/// A replay with `n` distinct elements in one list.
fn one_list(which: usize, n: usize) -> Rep {
    let mut r = Rep::new();
    set_list(&mut r, which, n);
    r
}

pub fn set_list(r: &mut Rep, which: usize, n: usize) {
    let s = |i: usize| t(&format!("{which}e{i}"));
    match which {
        0 => r.levels = (0..n).map(s).collect(),
        1 => r.keyframes = (0..n).map(|i| (0x3f80_0000 + i as u32, i as i32, -(i as i32) - 1)).collect(),
        2 => r.network = (0..n).map(|i| (i * 7 + 1) as u8).collect(),
        3 => r.debug = (0..n).map(|i| (i as i32 - 3, s(i), t("dbg"))).collect(),
        4 => r.ticks = (0..n).map(|i| (s(i), i as i32 * 11)).collect(),
        5 => r.packages = (0..n).map(s).collect(),
        6 => r.objects = (0..n).map(s).collect(),
        7 => r.names = (0..n).map(s).collect(),
        8 => r.classes = (0..n).map(|i| (format!("c{i}").into_bytes(), i as i32 - 1)).collect(),
        9 => r.cache = (0..n).map(|i| (i as i32, i as i32 + 1, -(i as i32), vec![])).collect(),
        // properties of one class of the cache
        _ => r.cache = vec![(1, 2, 3, (0..n).map(|i| (i as i32, n as i32 - i as i32)).collect())],
    }
}

fn b_lens(ch: &mut Ch, cx: &mut Cx) {
    let which = ch.pick(11);
    let mut lens: Vec<usize> = (0..=if cx.thorough { 1200 } else { 300 }).collect();
    lens.extend([4095, 4096, 4097, 9_999, 10_000, 10_001, 24_999, 25_000, 25_001, 25_002, 30_000]);
    let n = lens[ch.pick(lens.len())];
    cx.say(|| format!("list {which} of {n}"));
    let mut r = one_list(which, n);
    if ch.flip() {
        // something in every other list too
        for j in 0..10 {
            if j != which && !(which == 10 && j == 9) {
                set_list(&mut r, j, 2);
            }
        }
    }
    sections(cx, &r.bytes());
}

/// Elements that repeat, in every arrangement: none is dropped, merged or moved.
fn b_patterns(ch: &mut Ch, cx: &mut Cx) {
    let which = ch.pick(11);
    let mut lens: Vec<usize> = (2..=if cx.thorough { 600 } else { 140 }).collect();
    lens.extend([255, 256, 257, 1000, 1024, 1025, 4097]);
    let n = lens[ch.pick(lens.len())];
    sections(cx, &patterned(ch, which, n).bytes());
}

/// A replay with a list of elements that repeat or are out of order.
pub fn patterned(ch: &mut Ch, which: usize, n: usize) -> Rep {
    let pattern = ch.pick(7);
    let at = |i: usize| match pattern {
        0 => 0,
        1 => i / 2,
        2 => i.min(n - 1 - i),
        3 => n - i,
        4 => i % 2,
        5 => i % 64,
        _ => (i * 7919) % n,
    };
    let s = |i: usize| t(&format!("{}", at(i)));
    let e = |i: usize| at(i) as i32;
    let mut r = Rep::new();
    match which {
        0 => r.levels = (0..n).map(s).collect(),
        1 => r.keyframes = (0..n).map(|i| (0x3f80_0000 + e(i) as u32, e(i), e(i))).collect(),
        2 => r.network = (0..n).map(|i| e(i) as u8).collect(),
        3 => r.debug = (0..n).map(|i| (e(i), s(i), s(i))).collect(),
        4 => r.ticks = (0..n).map(|i| (s(i), e(i))).collect(),
        5 => r.packages = (0..n).map(s).collect(),
        6 => r.objects = (0..n).map(s).collect(),
        7 => r.names = (0..n).map(s).collect(),
        8 => r.classes = (0..n).map(|i| (format!("{}", at(i)).into_bytes(), e(i))).collect(),
        9 => r.cache = (0..n).map(|i| (e(i), e(i), e(i), vec![(e(i), 3); i % 3])).collect(),
        _ => r.cache = vec![(1, 2, 3, (0..n).map(|i| (e(i), e(i))).collect())],
    }
    r
}

/// The words in front of the sections do not decide where they are.
fn b_sizes(ch: &mut Ch, cx: &mut Cx) {
    let mut r = Rep::new().prop("TeamSize", P::Int(3));
    for j in 0..10 {
        set_list(&mut r, j, 2);
    }
    let (h, b) = (r.head_bytes(), r.body_bytes());
    let size = |ch: &mut Ch, own: i32| match ch.pick(I32S.len() + 5) {
        0 => own,
        1 => own + 1,
        2 => own - 1,
        3 => own * 2,
        4 => -own,
        i => I32S[i - 5],
    };
    let hs = size(ch, h.len() as i32);
    let bs = size(ch, b.len() as i32);
    let sum = ch.of(&[0u32, u32::MAX, 0x8000_0000]);
    let mut d = file_with(&h, hs, sum, &b, bs, !sum);
    match ch.pick(3) {
        0 => {}
        1 => d.extend([7; 40]),
        _ => d.truncate(d.len() - ch.of(&[1, 4, 30])),
    }
    sections(cx, &d);
}

/// Declared counts that do not match, and impossible ones.
fn b_counts(ch: &mut Ch, cx: &mut Cx) {
    let which = ch.pick(11);
    let have = ch.of(&[0usize, 1, 3]);
    let n = ch.of(&I32S);
    let b = one_list(which, have).body_bytes();
    // the other lists are empty, four bytes each
    let at = match which {
        10 => 4 * 9 + 4 + 12,
        w => 4 * w,
    };
    let mut b = b;
    b[at..at + 4].copy_from_slice(&n.to_le_bytes());
    let extra = ch.of(&[0usize, 400]);
    b.extend(std::iter::repeat_n(0, extra));
    let h = Rep::new().head_bytes();
    sections(cx, &file(&h, &b));
}

fn b_combo(ch: &mut Ch, cx: &mut Cx) {
    let mut r = Rep::new();
    let lens = [1usize, 0, 2, 3];
    for which in 0..10 {
        let n = ch.devof(&lens);
        set_list(&mut r, which, n);
    }
    if !r.cache.is_empty() {
        let n = ch.devof(&lens);
        r.cache[0].3 = (0..n as i32).map(|i| (i, 10 + i)).collect();
    }
    sections(cx, &r.bytes());
}

/// Element values of each list.
fn b_values(ch: &mut Ch, cx: &mut Cx) {
    let tx = texts();
    let i = |ch: &mut Ch| ch.of(&I32S);
    let mut r = Rep::new();
    let two = ch.flip();
    let sep = |x: Txt| if two { vec![t("first"), x, t("last")] } else { vec![x] };
    match ch.pick(13) {
        0 => r.levels = sep(tx[ch.pick(tx.len())].clone()),
        1 => r.keyframes = vec![(F32S[ch.pick(F32S.len())], i(ch), 3), (1, 2, 3)],
        2 => r.keyframes = vec![(1, 2, 3), (5, 3, i(ch))],
        3 => r.debug = vec![(i(ch), t("u"), t("t")), (1, t("v"), t("w"))],
        4 => r.debug = vec![(1, tx[ch.pick(tx.len())].clone(), tx[ch.pick(tx.len())].clone()), (1, t("v"), t("w"))],
        5 => r.ticks = vec![(tx[ch.pick(tx.len())].clone(), i(ch)), (t("x"), 1)],
        6 => r.packages = sep(tx[ch.pick(tx.len())].clone()),
        7 => r.objects = sep(tx[ch.pick(tx.len())].clone()),
        8 => r.names = sep(tx[ch.pick(tx.len())].clone()),
        9 => {
            let c: [&[u8]; 8] = [b"", b"Core.Object", b"\xff", "\u{20ac}".as_bytes(), b"None", b"a\0", b"x", b"\xc3\x28"];
            r.classes = vec![(c[ch.pick(8)].to_vec(), i(ch)), (b"z".to_vec(), 9)]
        }
        10 => r.cache = vec![(i(ch), i(ch), i(ch), vec![]), (1, 2, 3, vec![(4, 5)])],
        11 => r.cache = vec![(0, 0, 0, vec![(1, 2), (i(ch), i(ch)), (3, 4)])],
        _ => {
            let n = ch.pick(256) as u8;
            r.network = vec![n; ch.of(&[1usize, 2, 8, 100])];
        }
    }
    sections(cx, &r.bytes());
}

/// Several classes with several properties each.
fn b_cache(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.pick(5);
    let mut r = Rep::new();
    for c in 0..n as i32 {
        let p = ch.of(&[0, 1, 2, 5, 64]);
        r.cache.push((c, c + 1, c + 2, (0..p).map(|i| (c * 100 + i, i)).collect()));
    }
    sections(cx, &r.bytes());
}

/// The body with each cut, sections still sized to fit.
fn b_cut(ch: &mut Ch, cx: &mut Cx) {
    let mut r = Rep::new();
    for j in 0..10 {
        set_list(&mut r, j, 2);
    }
    r.cache[1].3 = vec![(1, 2), (3, 4)];
    let b = r.body_bytes();
    let n = ch.pick(b.len() + 1);
    sections(cx, &file(&r.head_bytes(), &b[..n]));
}

pub fn c03() -> Vec<Fam> {
    vec![
        f("lens", 0, b_lens),
        f("patterns", 0, b_patterns),
        f("sizes", 0, b_sizes),
        f("counts", 0, b_counts),
        f("combo", 4, b_combo),
        f("values", 0, b_values),
        f("cache", 0, b_cache),
        f("cut", 0, b_cut),
        f("real", 0, real_sections),
    ]
}

// ---------------------------------------------------------------- C04

pub const PLACES: usize = 10;

/// Puts texts where a file has texts.
pub fn place(r: &mut Rep, place: usize, x: Vec<Txt>) {
    match place {
        0 => r.levels = x,
        1 => r.packages = x,
        2 => r.objects = x,
        3 => r.names = x,
        4 => r.debug = x.into_iter().map(|x| (1, x, t("b"))).collect(),
        5 => r.debug = x.into_iter().map(|x| (1, t("a"), x)).collect(),
        6 => r.ticks = x.into_iter().map(|x| (x, 2)).collect(),
        7 => r.props = x.into_iter().map(|x| k("s", P::Str(x))).collect(),
        8 => r.props = x.into_iter().map(|x| k("n", P::Name(x))).collect(),
        _ => r.game = x.into_iter().next().unwrap(),
    }
}

fn w_bytes(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(PLACES);
    let mut r = Rep::new();
    if p == 9 {
        let b = ch.pick(256) as u8;
        r.game = Txt::W(vec![b'<', b, b'>']);
    } else {
        // every byte, alone and at each end of a longer text
        let around = ch.pick(4);
        let v = (0..=255u8)
            .map(|b| {
                Txt::W(match around {
                    0 => vec![b],
                    1 => vec![b, b'x', b'y'],
                    2 => vec![b'x', 0x80, b],
                    _ => {
                        let mut v = vec![b'a'; 40];
                        v[b as usize % 40] = b;
                        v
                    }
                })
            })
            .collect();
        place(&mut r, p, v);
    }
    sections(cx, &r.bytes());
}

const LONG: [usize; 30] = [
    7, 8, 9, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 34, 47, 63, 64, 65, 66, 95, 127, 128, 129, 130, 255, 256, 257, 300, 511, 1000,
];

/// Every byte at either end, in the middle and next to the ends of uniform texts of many lengths.
fn w_long(ch: &mut Ch, cx: &mut Cx) {
    let p = if cx.thorough { ch.pick(9) } else { ch.of(&[0, 3, 7, 8]) };
    let n = ch.of(&LONG);
    let at = ch.of(&[0, 1, n / 2, n - 2, n - 1]);
    let fill = ch.of(&[b'a', 0xe9, 0x85, 0x9f, 0x20]);
    let mut r = Rep::new();
    let v = (0..=255u8)
        .map(|b| {
            let mut v = vec![fill; n];
            v[at] = b;
            Txt::W(v)
        })
        .collect();
    place(&mut r, p, v);
    sections(cx, &r.bytes());
}

/// Texts in which one byte follows another at every distance.
fn w_apart(ch: &mut Ch, cx: &mut Cx) {
    const B: [u8; 12] = [0, 9, 0x41, 0x7f, 0x80, 0x81, 0x8d, 0x92, 0x9f, 0xa0, 0xc3, 0xff];
    let (a, b) = (ch.of(&B), ch.of(&B));
    let fill = ch.of(&[b'a', 0xe9]);
    let lead = ch.pick(18);
    let mut r = Rep::new();
    r.names = (0..80)
        .map(|gap| {
            let mut v = vec![fill; lead];
            v.push(a);
            v.extend(vec![fill; gap]);
            v.extend([b, fill]);
            Txt::W(v)
        })
        .collect();
    sections(cx, &r.bytes());
}

/// Special units at every place of uniform UTF-16 texts of many lengths.
fn u_long(ch: &mut Ch, cx: &mut Cx) {
    let p = if cx.thorough { ch.pick(9) } else { ch.of(&[0, 3, 7, 8]) };
    let n = ch.of(&LONG);
    let at = ch.of(&[0, 1, n / 2, n - 2, n - 1]);
    let fill = ch.of(&[b'a' as u16, 0xe9, 0x85, 0x4e00, 0xff41]);
    let mut r = Rep::new();
    let mut v = vec![];
    for a in [0, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0xfeff, 0xfffe, 0xfffd, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000] {
        let mut x = vec![fill; n];
        x[at] = a;
        v.push(Txt::U(x.clone()));
        for b in [0xd800, 0xdc00, 0xdfff, 0x41] {
            let mut x = x.clone();
            x[(at + 1) % n] = b;
            v.push(Txt::U(x));
        }
    }
    place(&mut r, p, v);
    sections(cx, &r.bytes());
}

/// Identifiers with one odd sequence at every place of texts of many lengths.
fn utf8_long(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(5);
    let n = ch.of(&LONG);
    let at = ch.of(&[0, 1, n / 2, n - 2, n - 1, n]);
    const SEQ: [&[u8]; 20] = [
        b"\0", b"\x7f", b"\x80", b"\xbf", b"\xc2", b"\xc2\x80", b"\xdf\xbf", b"\xc0\x80", b"\xe0\xa0\x80", b"\xe0\x9f\xbf",
        b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xef\xbb\xbf", b"\xef\xbf\xbd", b"\xf0\x90\x80\x80", b"\xf0\x8f\xbf\xbf",
        b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xff", b"\xf0\x9f\x98",
    ];
    let s = ch.of(&SEQ);
    let fill = ch.of(&["a", "\u{e9}", "\u{4e00}"]);
    let mut b = fill.as_bytes().repeat(at);
    b.extend(s);
    b.extend(fill.as_bytes().repeat(n - at));
    sections(cx, &place8(p, &b));
}

/// Texts of one sequence of units over and over, of which one straddles any place there may be between
/// two parts of a text.
fn u_dense(ch: &mut Ch, cx: &mut Cx) {
    const SEQ: [&[u16]; 12] = [
        &[0xd83d, 0xde00], &[0xd83d, 0xde00, 0x61], &[0x61, 0xd800, 0xdc00, 0xe9], &[0xd800], &[0xdc00], &[0xdc00, 0xd800],
        &[0xdbff, 0xdbff, 0xdfff], &[0xe9, 0xdfff], &[0x4e00], &[0x4e00, 0x61], &[0xfeff], &[0x7ff, 0x800, 0xffff, 0xdbff, 0xdfff],
    ];
    let p = ch.of(&[3, 7, 9]);
    let lens = ch.of(&[[10usize, 100, 1000], [3000, 5001, 9990], [9998, 9999, 10_000], [31, 33, 128], [511, 513, 1026], [2047, 2049, 4097]]);
    let seq = SEQ[ch.pick(SEQ.len())];
    let pad = ch.pick(5);
    let of = |n: usize| Txt::U(std::iter::repeat_n(0x41, pad).chain(seq.iter().copied().cycle()).take(n).collect());
    let mut r = Rep::new();
    place(&mut r, p, lens.map(of).into());
    sections(cx, &r.bytes());
}

/// Texts in windows-1252 whose bytes would be UTF-8 too.
fn w_utf8(ch: &mut Ch, cx: &mut Cx) {
    const SEQ: [&str; 9] = ["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{80}", "\u{7ff}\u{800}", "\u{e9}\u{4e00}\u{1f600}", "\u{feff}", "\u{fffd}", "a\u{301}"];
    let p = ch.of(&[3, 7]);
    let seq = SEQ[ch.pick(SEQ.len())];
    let gap = ch.pick(5);
    let mut v = vec![];
    let max = if cx.thorough { 160 } else { 40 };
    for n in (1..max).chain([63, 64, 65, 200, 333, 1000]) {
        for pad in [0, 1, 2, 3, 17] {
            let mut b = "p".repeat(pad);
            for _ in 0..n {
                b.push_str(seq);
                b.push_str(&"g".repeat(gap));
            }
            if b.len() < 9_999 {
                v.push(Txt::W(b.into_bytes()));
            }
        }
    }
    let mut r = Rep::new();
    place(&mut r, p, v);
    sections(cx, &r.bytes());
}

/// Identifiers of one sequence over and over, with a bad one at an end or without.
fn utf8_dense(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(5);
    let seq = ch.of(&["\u{e9}", "\u{4e00}", "\u{1f600}", "a\u{7ff}\u{800}", "\u{e9}\u{4e00}\u{1f600}", "\0", "\u{85}\u{a0}"]);
    let pad = ch.pick(5);
    let n = ch.of(&[1usize, 2, 3, 9, 31, 100, 1000, 3000, 20_000]);
    let mut b = "p".repeat(pad).into_bytes();
    b.extend(seq.as_bytes().repeat(n));
    match ch.pick(3) {
        0 => {}
        1 => b.push(0xe9),
        _ => b[pad + seq.len() * (n / 2)] ^= 0x80,
    }
    sections(cx, &place8(p, &b));
}

/// All pairs of bytes.
fn w_pairs(ch: &mut Ch, cx: &mut Cx) {
    let a = ch.pick(256) as u8;
    let mut r = Rep::new();
    r.names = (0..=255u8).map(|b| Txt::W(vec![a, b])).collect();
    sections(cx, &r.bytes());
}

fn u_units(ch: &mut Ch, cx: &mut Cx) {
    let hi = ch.pick(256) as u16;
    let p = ch.pick(9);
    let pad = ch.pick(3);
    let mut r = Rep::new();
    let v = (0..256u16)
        .map(|lo| {
            let u = hi << 8 | lo;
            Txt::U(match pad {
                0 => vec![u],
                1 => vec![b'a' as u16, u, b'b' as u16],
                _ => vec![u, 0xdc37],
            })
        })
        .collect();
    place(&mut r, p, v);
    sections(cx, &r.bytes());
}

const SURR: [u16; 10] = [b'a' as u16, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0, 0xffff, 0xd83d];

fn u_surrogates(ch: &mut Ch, cx: &mut Cx) {
    let n = if cx.thorough { 5 } else { 4 };
    let mut pre = vec![];
    for _ in 0..n - 2 {
        match ch.pick(SURR.len() + 1) {
            0 => break,
            i => pre.push(SURR[i - 1]),
        }
    }
    let mut r = Rep::new();
    for a in SURR {
        for b in SURR {
            let mut v = pre.clone();
            v.extend([a, b]);
            r.names.push(Txt::U(v));
        }
    }
    sections(cx, &r.bytes());
}

/// All high surrogates with all low surrogates.
fn u_pairs(ch: &mut Ch, cx: &mut Cx) {
    let hi = 0xd800 + ch.pick(1024) as u16;
    let mut r = Rep::new();
    r.names = vec![Txt::U((0..1024u16).flat_map(|lo| [hi, 0xdc00 + lo]).collect())];
    sections(cx, &r.bytes());
}

fn t_lens(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(PLACES);
    let mut lens: Vec<usize> = (0..=if cx.thorough { 2100 } else { 300 }).collect();
    lens.extend([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4998, 4999, 5000, 5001, 8191, 8192]);
    lens.extend(9_990..=10_003);
    let n = lens[ch.pick(lens.len())];
    let x = match ch.pick(2) {
        0 => Txt::W((0..n).map(|i| (i * 31 + i / 256) as u8 | 1).collect()),
        _ => Txt::U((0..n).map(|i| 0x20 + (i * 257 % 0xd700) as u16).collect()),
    };
    let mut r = Rep::new();
    let tail = if p == 9 { vec![x] } else { vec![x, t("next")] };
    place(&mut r, p, tail);
    sections(cx, &r.bytes());
}

/// Declared sizes of every magnitude, with data and without.
fn t_sizes(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(PLACES);
    let n = match ch.pick(2) {
        0 => ch.of(&[i32::MAX, i32::MIN, i32::MIN + 1, 1 << 30, -(1 << 30), (1 << 30) + 1, 1 << 16, -(1 << 16), 65_535, 0x0100_0001, -0x7fff_ffff]),
        _ => ch.range(-12, 12) as i32 + ch.of(&[0, 10_000, -10_000]),
    };
    let have = ch.of(&[0usize, 1, 24, 20_100]);
    let mut r = Rep::new();
    place(&mut r, p, vec![Txt::Raw(n, vec![b'h'; have])]);
    sections(cx, &r.bytes());
}

/// The last character is dropped whatever it is.
fn t_term(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(9);
    let mut r = Rep::new();
    let v: Vec<Txt> = match ch.pick(4) {
        0 => (0..=255u8).map(|b| Txt::Raw(3, vec![b'a', b'b', b])).collect(),
        1 => (0..=255u8).map(|b| Txt::Raw(-2, vec![b'a', 0, b, 0])).collect(),
        2 => (0..=255u8).map(|b| Txt::Raw(-2, vec![b'a', 0, 0, b])).collect(),
        _ => (0..=255u8).map(|b| Txt::Raw(4, vec![b, 0, b, 0])).collect(),
    };
    place(&mut r, p, v);
    sections(cx, &r.bytes());
}

/// Puts bytes where a file has UTF-8 strings.
fn place8(p: usize, s: &[u8]) -> Vec<u8> {
    let mut r = Rep::new();
    match p {
        0 => r.classes = vec![(s.to_vec(), 1)],
        1 => r.props = vec![(s.to_vec(), P::Int(1))],
        2 => r.props = vec![k("b", P::Byte(s.to_vec(), b"v".to_vec()))],
        3 => r.props = vec![k("b", P::Byte(b"v".to_vec(), s.to_vec()))],
        _ => {
            let mut v = vec![];
            strb(&mut v, s);
            str_(&mut v, "None");
            r.props = vec![k("s", P::Raw(b"StructProperty".to_vec(), v))];
        }
    }
    r.bytes()
}

fn utf8_short(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(5);
    let n = ch.pick(3);
    let s: Vec<u8> = (0..n).map(|_| ch.pick(256) as u8).collect();
    sections(cx, &place8(p, &s));
}

const EDGE8: [u8; 22] = [
    0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef,
    0xf0, 0xf1, 0xf4, 0xf5, 0xff,
];

fn utf8_edges(ch: &mut Ch, cx: &mut Cx) {
    let n = 3 + ch.pick(2);
    let p = if cx.thorough { ch.pick(5) } else { 0 };
    let mut s: Vec<u8> = (0..n).map(|_| ch.of(&EDGE8)).collect();
    if ch.flip() {
        s.insert(0, b'z');
        s.push(b'z');
    }
    sections(cx, &place8(p, &s));
}

fn utf8_all(ch: &mut Ch, cx: &mut Cx) {
    // every character there is, 256 to a case
    let hi = ch.pick(0x1100) as u32;
    let s: String = (0..256).filter_map(|lo| char::from_u32(hi << 8 | lo)).collect();
    sections(cx, &place8(ch.pick(2), s.as_bytes()));
}

/// Where network data has texts: kind of attribute and which of its texts.
pub const NET_PLACES: usize = 10;

pub fn net_place(p: usize, x: &Txt) -> Vec<u8> {
    let (tag, build) = match p {
        0 => (Tag::String, false),
        1 => (Tag::UniqueId, false),
        2 | 3 => (Tag::Reservation, false),
        4..=6 => (Tag::PrivateMatchSettings, false),
        7 => (Tag::RepStatTitle, false),
        8 => (Tag::LoadoutOnline, false),
        _ => (Tag::QWordString, true),
    };
    let mut w = W::new(LAST_VER, &[name_of(tag), name_of(Tag::Int)]);
    if build {
        w.rep.props.push(k("BuildVersion", P::Str(t("221120.42953.406184"))));
    }
    let mut n = w.net();
    n.frame(1.0, 1.0).new_actor(0, 0, 0);
    n.upd(0).attr(1, 2);
    let b = &mut n.w;
    match p {
        0 | 9 => x.bits(b),
        1 => {
            b.u8(11);
            x.bits(b);
            b.u8(1);
        }
        2 => {
            // the name behind the id
            b.put(5, 3).u8(1).u64(77).u8(1);
            x.bits(b);
            b.put(0b1010_1010, 8);
        }
        3 => {
            // epic id with a text, then a name
            b.put(5, 3).u8(11);
            x.bits(b);
            b.u8(1);
            t("name").bits(b);
            b.put(0b1010_1010, 8);
        }
        4..=6 => {
            for i in 4..=6 {
                if i == p {
                    x.bits(b)
                } else {
                    t("o").bits(b)
                }
                if i == 4 {
                    b.u32(1).u32(2);
                }
            }
            b.bit(true);
        }
        7 => {
            b.bit(true);
            x.bits(b);
            b.bit(false).u32(3).u32(4);
        }
        _ => {
            b.u8(1).u8(1).bit(false).i32(w.product0 + 2);
            x.bits(b);
        }
    }
    n.attr(2, 2);
    n.w.append(&default_attr(Tag::Int, LAST_VER, 0, false));
    n.end_upd().end_frame();
    w.file(1, n.bytes())
}

fn n_lens(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(NET_PLACES);
    let wide = ch.flip();
    let max = if wide { 520 } else { 1032 };
    let n = if cx.thorough || p == 0 {
        ch.pick(max + 1)
    } else {
        let v: Vec<usize> = (0..=20).chain(120..=136).chain(250..=260).chain(max - 20..=max).collect();
        v[ch.pick(v.len())]
    };
    let x = if wide {
        Txt::U((0..n).map(|i| 0x20 + (i * 257 % 0xd700) as u16).collect())
    } else {
        Txt::W((0..n).map(|i| (i * 31 + i / 256) as u8 | 1).collect())
    };
    net_check(cx, &net_place(p, &x), Lvl::Any);
}

/// Blanks, terminators and marks at the ends of texts of every length.
fn edged(ch: &mut Ch, n: usize) -> Txt {
    let (first, last) = ch.of(&[(false, true), (true, false), (true, true)]);
    let wide = ch.flip();
    let u = ch.of(&[b' ' as u16, 0, b'\n' as u16, b'\t' as u16, 0xa0, 0x85, b'"' as u16, 0xff, 0x3000, 0xfeff, 0xd800, 0xdc00]);
    let mut v: Vec<u16> = (0..n).map(|i| b'a' as u16 + i as u16 % 26).collect();
    if first && n > 0 {
        v[0] = u;
    }
    if last && n > 0 {
        v[n - 1] = u;
    }
    if wide {
        Txt::U(v)
    } else {
        Txt::W(v.into_iter().map(|x| x as u8).collect())
    }
}

fn n_edges(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(if cx.thorough { NET_PLACES } else { 1 });
    let n = ch.pick(1026);
    let x = edged(ch, n);
    net_check(cx, &net_place(p, &x), Lvl::Any);
}

fn t_edges(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(PLACES);
    let mut lens: Vec<usize> = if cx.thorough { (0..600).collect() } else { (0..34).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() };
    lens.extend([1000, 1023, 1024, 1025, 4095, 4096, 4097, 4999, 5000, 5001, 8192, 9_998, 9_999, 10_000]);
    let n = lens[ch.pick(lens.len())];
    let x = edged(ch, n);
    let mut r = Rep::new();
    let tail = if p == 9 { vec![x] } else { vec![x, t("next")] };
    place(&mut r, p, tail);
    sections(cx, &r.bytes());
}

fn n_sizes(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(NET_PLACES);
    let n = match ch.pick(2) {
        0 => ch.of(&[i32::MAX, i32::MIN, i32::MIN + 1, 1 << 30, -(1 << 30), 10_000, -10_000, 1 << 16, -(1 << 16), -(1 << 29)]),
        _ => ch.range(-5, 5) as i32 + ch.of(&[0, 1024, -512, -1024, 512, 2048]),
    };
    let have = ch.of(&[0usize, 2, 2100]);
    net_check(cx, &net_place(p, &Txt::Raw(n, vec![b'h'; have])), Lvl::Any);
}

fn n_bytes(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(NET_PLACES);
    let x = match ch.pick(5) {
        0 => Txt::W((0..=255u8).collect()),
        1 => Txt::W((0..=255u8).rev().collect()),
        2 => Txt::W(vec![b'<', ch.pick(256) as u8, b'>']),
        3 => {
            let b = ch.pick(256) as u8;
            if ch.flip() {
                Txt::Raw(3, vec![b'a', b'b', b])
            } else {
                Txt::Raw(-2, vec![b'a', 0, b, b])
            }
        }
        _ => {
            let hi = ch.pick(256) as u16;
            Txt::U((0..256).flat_map(|lo| [hi << 8 | lo, b'.' as u16]).take(510).collect())
        }
    };
    net_exact(cx, &net_place(p, &x));
}

/// Every byte or special unit at several places of uniform texts of many lengths.
fn n_long(ch: &mut Ch, cx: &mut Cx) {
    let p = if cx.thorough { ch.pick(NET_PLACES) } else { ch.of(&[0usize, 2, 8]) };
    let n = ch.of(&LONG);
    let at = ch.of(&[0, n / 2, n - 1]);
    let x = if ch.flip() {
        let fill = ch.of(&[b'a', 0xe9, 0x85]);
        let mut v = vec![fill; n];
        v[at] = ch.of(&[0, 0x7f, 0x80, 0x81, 0x85, 0x92, 0x9f, 0xa0, 0xe9, 0xff]);
        Txt::W(v)
    } else {
        let fill = ch.of(&[b'a' as u16, 0xe9, 0x4e00]);
        let mut v = vec![fill; n];
        v[at] = ch.of(&[0, 0x85, 0x100, 0xfeff, 0xd800, 0xdc00, 0xfffd]);
        Txt::U(v)
    };
    net_check(cx, &net_place(p, &x), Lvl::Any);
}

/// One sequence over and over in texts of network data.
fn n_dense(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.of(&[0usize, 2, 8]);
    let pad = ch.pick(5);
    let n = ch.of(&[1usize, 2, 5, 8, 16, 21, 32, 60, 100, 127, 128, 250, 300, 511]);
    let x = if ch.flip() {
        let seq = ch.of(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{e9}g", "\u{20ac}g", "\u{1f600}gg", "\u{feff}", "\u{e9}\u{4e00}\u{1f600}"]);
        let mut b = "p".repeat(pad).into_bytes();
        b.extend(seq.as_bytes().repeat(n));
        b.truncate(1023);
        Txt::W(b)
    } else {
        const SEQ: [&[u16]; 8] = [&[0xd83d, 0xde00], &[0xd83d, 0xde00, 0x61], &[0xd800], &[0xdc00], &[0xdbff, 0xdbff, 0xdfff], &[0xdc00, 0xd800], &[0xfeff], &[0xe9]];
        let seq = SEQ[ch.pick(SEQ.len())];
        Txt::U(std::iter::repeat_n(0x41, pad).chain(seq.iter().copied().cycle()).take(n).collect())
    };
    net_check(cx, &net_place(p, &x), Lvl::Any);
}

fn n_surrogates(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.of(&[0usize, 8]);
    let n = ch.pick(if cx.thorough { 5 } else { 4 });
    let u = (0..n).map(|_| ch.of(&SURR)).collect();
    net_exact(cx, &net_place(p, &Txt::U(u)));
}

pub fn c04() -> Vec<Fam> {
    vec![
        f("w1252", 0, w_bytes),
        f("w1252_long", 0, w_long),
        f("w1252_apart", 0, w_apart),
        f("w1252_pairs", 0, w_pairs),
        f("w1252_utf8", 0, w_utf8),
        f("utf16_dense", 0, u_dense),
        f("utf8_dense", 0, utf8_dense),
        f("utf16_units", 0, u_units),
        f("utf16_surrogates", 0, u_surrogates),
        f("utf16_pairs", 0, u_pairs),
        f("utf16_long", 0, u_long),
        f("utf8_long", 0, utf8_long),
        f("lens", 0, t_lens),
        f("sizes", 0, t_sizes),
        f("term", 0, t_term),
        f("utf8_short", 0, utf8_short),
        f("utf8_edges", 0, utf8_edges),
        f("utf8_all", 0, utf8_all),
        f("edges", 0, t_edges),
        f("net_lens", 0, n_lens),
        f("net_edges", 0, n_edges),
        f("net_sizes", 0, n_sizes),
        f("net_bytes", 0, n_bytes),
        f("net_surrogates", 0, n_surrogates),
        f("net_long", 0, n_long),
        f("net_dense", 0, n_dense),
    ]
}
