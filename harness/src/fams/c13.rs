//! Class and attribute resolution, bounded integers, frame boundaries.

use super::*;
use crate::bits::{representable, BitW};
use crate::cmp::{net_exact, check, net_check, Lvl, Part};
use crate::gen::*;
use crate::golden::{Spawn, Tag, ATTRS, PARENTS};
use crate::refdec::{normalize, parents, spawns};
use crate::rep::*;
use boxcars::{CrcCheck, NetworkParse};

pub fn put_traj(n: &mut Net, s: Spawn) {
    if s != Spawn::None {
        n.vec(6, 17, 200, 99);
    }
    if s == Spawn::LocationAndRotation {
        n.rot([Some(11), None, Some(-12)]);
    }
}

/// The class and its ancestors, as far as the table goes.
pub fn chain(name: &'static str) -> Vec<&'static str> {
    let mut v = vec![name];
    let mut cur = name;
    while let Some(p) = parents().get(normalize(cur)) {
        v.push(p);
        cur = p;
    }
    v
}

/// Layout of the nearest of `objs` (self first).
fn layout(objs: &[&str]) -> Spawn {
    objs.iter().find_map(|o| spawns().get(o).copied()).unwrap_or(Spawn::None)
}

/// A byte and an enum read with different widths, a flagged byte with a third.
fn marks() -> [&'static str; 3] {
    [name_of(Tag::Byte), name_of(Tag::Enum), name_of(Tag::FlaggedByte)]
}

/// Writes every listed stream id with a payload of its kind.
fn updates(n: &mut Net, ids: &[(i32, Tag)], largest: i32) {
    n.upd(3);
    for (i, (s, t)) in ids.iter().enumerate() {
        n.attr(*s as u32, largest);
        let b = match t {
            Tag::Byte => 8,
            Tag::Enum => 11,
            _ => 9,
        };
        n.w.put(mix(i as u64) & ((1 << b) - 1), b);
    }
    n.end_upd().end_frame();
}

// ---------------------------------------------------------------- C13

fn c_attrs(ch: &mut Ch, cx: &mut Cx) {
    let (name, tag) = ATTRS[ch.pick(ATTRS.len())];
    let ver = ch.of(&[LAST_VER, (868, 20, 5)]);
    cx.say(|| format!("{name} {tag:?}"));
    let w = W::new(ver, &[name, name_of(Tag::Enum)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3).attr(1, w.largest).w.append(&default_attr(tag, ver, w.product0, false));
    n.attr(2, w.largest).w.put(0x5a5, 11);
    n.end_upd().end_frame();
    net_exact(cx, &w.file(1, n.bytes()));
}

/// Each class with each of its ancestors present alone, with and without declarations of its own.
fn c_links(ch: &mut Ch, cx: &mut Cx) {
    let child = PARENTS[ch.pick(PARENTS.len())].0;
    let c = chain(child);
    let anc = c[ch.pick(c.len())];
    let own = ch.flip();
    let shadow = own && ch.flip();
    cx.say(|| format!("{child} with {anc}"));
    let m = marks();
    // ancestor first: order must not matter
    let mut r = Rep::new().objs(&[anc, m[0], child, m[1], m[2]]);
    if anc == child {
        r = Rep::new().objs(&["Verif.Filler", m[0], child, m[1], m[2]]);
    }
    let root = anc != child && parents().get(normalize(anc)).is_none();
    let a = if anc == child { 2 } else { 0 };
    r.cache.push((a, 0, 0, vec![(1, 9), (3, 4)]));
    let mut ids = if root { vec![] } else { vec![(9, Tag::Byte), (4, Tag::Enum)] };
    if own {
        let s = if shadow { 4 } else { 2 };
        r.cache.push((2, 0, 1, vec![(4, s)]));
        ids.retain(|x| x.0 != s);
        ids.push((s, Tag::FlaggedByte));
    }
    let largest = if ids.is_empty() { 2 } else { ids.iter().map(|x| x.0).max().unwrap() };
    let objs: Vec<&str> = if anc == child { vec![child] } else if root { vec![child] } else { vec![child, anc] };
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 2);
    put_traj(&mut n, layout(&objs));
    updates(&mut n, &ids, largest);
    n.w.u64(0).u64(0);
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_exact(cx, &r.bytes());
}

const LINE: &[&str] = &["Archetypes.Car.Car_Default", "TAGame.Car_TA", "TAGame.Vehicle_TA", "TAGame.RBActor_TA", "Engine.Pawn", "Engine.Actor"];

fn line() -> Vec<&'static str> {
    let c = chain(LINE[0]);
    let v: Vec<_> = c.iter().copied().filter(|x| parents().get(x).is_some()).collect();
    assert!(v.len() >= 4, "{v:?}");
    v
}

/// A line of ancestors: each absent, present, or present with declarations; which one counts.
fn c_lines(ch: &mut Ch, cx: &mut Cx) {
    let l = line();
    let l = &l[..l.len().min(5)];
    let m = marks();
    let tags = [Tag::Byte, Tag::Enum, Tag::FlaggedByte];
    let mut objs: Vec<&str> = m.to_vec();
    let mut cache = vec![];
    // stream id -> tag, nearest first
    let mut vis: Vec<(i32, Tag)> = vec![];
    let mut present = vec![];
    for (i, c) in l.iter().enumerate() {
        let st = if i == 0 { 1 + ch.pick(4) } else { ch.pick(5) };
        if st == 0 {
            continue;
        }
        present.push(*c);
        objs.push(c);
        let id = objs.len() as i32 - 1;
        let mut d = vec![];
        if st == 2 || st == 4 {
            d.push((i as i32 % 3, 7)); // shared by all
        }
        if st == 3 || st == 4 {
            d.push((2 - i as i32 % 3, 10 + 20 * i as i32)); // own
        }
        for (o, s) in &d {
            if !vis.iter().any(|x| x.0 == *s) {
                vis.push((*s, tags[*o as usize]));
            }
        }
        if st > 1 {
            cache.push((id, 0, 0, d));
        }
    }
    if ch.flip() {
        cache.reverse();
    }
    let rev = ch.flip();
    let mut r = Rep::new();
    let total = objs.len() as i32;
    let map = |i: i32| if rev { total - 1 - i } else { i };
    if rev {
        objs.reverse();
    }
    r = r.objs(&objs);
    r.cache = cache.into_iter().map(|(a, b, c, d): (i32, i32, i32, Vec<(i32, i32)>)| (map(a), b, c, d.into_iter().map(|(o, s)| (map(o), s)).collect())).collect();
    let largest = vis.iter().map(|x| x.0).max().unwrap_or(2);
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, map(3));
    put_traj(&mut n, layout(&present));
    updates(&mut n, &vis, largest);
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_exact(cx, &r.bytes());
}

fn permutation(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|_| left.remove(ch.pick(left.len()))).collect()
}

/// Every order of a small object list and of its cache.
fn c_perms(ch: &mut Ch, cx: &mut Cx) {
    let l = line();
    let m = marks();
    let names = [l[0], l[1], l[2], m[0], m[1], m[2]];
    let n = if cx.thorough { 6 } else { 5 };
    // without the last class in the quick tier
    let names: Vec<&str> = if n == 6 { names.to_vec() } else { vec![l[0], l[1], m[0], m[1], m[2]] };
    let classes = n - 3;
    let p = permutation(ch, n);
    let at = |i: usize| p.iter().position(|x| *x == i).unwrap() as i32;
    let objs: Vec<&str> = p.iter().map(|i| names[*i]).collect();
    let mut r = Rep::new().objs(&objs);
    let b = |i: usize| at(classes + i);
    let all = [
        (at(0), 0, 0, vec![(b(0), 3)]),
        (at(1), 0, 1, vec![(b(1), 3), (b(1), 5)]),
        (at(classes - 1), 0, 2, vec![(b(2), 5), (b(2), 21)]),
    ];
    let q = permutation(ch, classes);
    r.cache = q.iter().map(|i| all[*i].clone()).collect();
    let (ids, largest) = if classes == 3 {
        (vec![(3, Tag::Byte), (5, Tag::Enum), (21, Tag::FlaggedByte)], 21)
    } else {
        (vec![(3, Tag::Byte), (5, Tag::Enum)], 5)
    };
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, at(0));
    put_traj(&mut n, layout(&l[..classes]));
    updates(&mut n, &ids, largest);
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_exact(cx, &r.bytes());
}

/// Object lists with repeated names: all lists of a length over four names, every object spawned,
/// whatever the bits then mean.
fn c_dups(ch: &mut Ch, cx: &mut Cx) {
    let l = line();
    let m = marks();
    let names = [l[0], l[1], m[0], m[1]];
    let n = if cx.thorough { 6 } else { 4 };
    let objs: Vec<&str> = (0..n).map(|_| ch.of(&names)).collect();
    let spawn = ch.pick(n);
    let mut r = Rep::new().objs(&objs);
    let c = ch.pick(n);
    let a = ch.pick(n);
    r.cache = vec![(c as i32, 0, 0, vec![(a as i32, 3)]), (((c + 1) % n) as i32, 0, 0, vec![(((a + 1) % n) as i32, 4)])];
    let mut w = Net::new(1023, LAST_VER, false);
    w.frame(1.0, 0.5).new_actor(3, 1, spawn as i32);
    put_traj(&mut w, layout(&[l[0], l[1]]));
    w.upd(3).attr(3, 4).w.put(0x35, 8);
    w.end_upd().end_frame();
    w.w.u64(0).u64(0);
    r.network = w.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Caches with repeated classes and repeated stream ids.
fn c_cache(ch: &mut Ch, cx: &mut Cx) {
    let m = marks();
    let mut r = Rep::new().objs(&[PRI, m[0], m[1], m[2], "TAGame.PRI_TA"]);
    let n = 1 + ch.pick(3);
    for i in 0..n {
        let class = ch.of(&[0, 4]);
        let k = 1 + ch.pick(2);
        let d = (0..k).map(|_| (1 + ch.pick(3) as i32, 3 + ch.pick(2) as i32)).collect();
        r.cache.push((class, 0, i as i32, d));
    }
    let s = 3 + ch.pick(2) as u32;
    let mut w = Net::new(1023, LAST_VER, false);
    w.frame(1.0, 0.5).new_actor(3, 1, 0);
    // written for the wide width: 3 and 4 need three bits whatever is declared
    w.upd(3).attr(s, 4).w.put(0x2b5, 11);
    w.end_upd().end_frame();
    w.w.u64(0).u64(0);
    r.network = w.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_check(cx, &r.bytes(), Lvl::Any);
}

const PLACED: [&str; 8] = [
    "CrowdActor_TA", "CrowdManager_TA", "VehiclePickup_Boost_TA", "InMapScoreboard_TA",
    "BreakOutActor_Platform_TA", "PlayerStart_Platform_TA", "HoopMesh_TA", "Nothing_TA",
];

/// Names of placed objects with all sorts of decoration.
fn c_decor(ch: &mut Ch, cx: &mut Cx) {
    let base = ch.of(&PLACED);
    const PRE: &str = "TheWorld:PersistentLevel.";
    let pre = match ch.pick(12) {
        0 => PRE.to_string(),
        1 => format!("stadium_p.{PRE}"),
        2 => format!("Neotokyo_Standard_P.{PRE}"),
        3 => format!("a.b.{PRE}"),
        4 => format!(".{PRE}"),
        5 => String::new(),
        6 => format!("x{PRE}"),
        7 => format!("{PRE}{PRE}"),
        8 => format!("s.{PRE}x"),
        9 => "TAGame.".to_string(),
        10 => format!("S.{}", PRE.to_lowercase()),
        _ => format!("\u{e9}tadium.{PRE}"),
    };
    let suf = ch.of(&["", "_0", "_1", "_12345", "x", "_", "_a", ".sub", "_0.x"]);
    let name = format!("{pre}{base}{suf}");
    cx.say(|| name.clone());
    let m = marks();
    let class = format!("TAGame.{base}");
    let declared = ch.pick(3);
    let mut r = Rep::new().objs(&[name.as_str(), m[0], m[1], class.as_str(), "Engine.Actor"]);
    r.objects[0] = Txt::U(name.encode_utf16().collect());
    if declared != 1 {
        r.cache.push((0, 0, 0, vec![(1, 3)]));
    }
    if declared > 0 {
        r.cache.push((3, 0, 1, vec![(2, 3), (2, 4)]));
    }
    // as the reference reads the name
    let norm: String = name.clone();
    let mut ps = vec![];
    let mut cur: &str = &norm;
    while let Some(p) = parents().get(normalize(cur)) {
        ps.push(cur.to_string());
        cur = p;
    }
    let present: Vec<&str> = ps.iter().map(|s| s.as_str()).filter(|s| [name.as_str(), class.as_str(), "Engine.Actor"].contains(s)).collect();
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    put_traj(&mut n, layout(&present));
    let l = if declared == 0 { 3 } else { 4 };
    n.upd(3).attr(3, l).w.put(0x1a7, 11);
    n.end_upd().end_frame();
    n.w.u64(0).u64(0);
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Largest visible id from the class or its ancestor: every pair.
fn c_width(ch: &mut Ch, cx: &mut Cx) {
    let top = if cx.thorough { 300 } else { 70 };
    let a = ch.pick(top) as i32;
    let b = ch.pick(top) as i32;
    let m = marks();
    let mut r = Rep::new().objs(&["TAGame.PRI_TA", PRI, m[0], m[1]]);
    r.cache = vec![(0, 0, 0, vec![(2, a)]), (1, 0, 1, vec![(3, b)])];
    let mut ids = vec![(b, Tag::Enum)];
    if a != b {
        ids.push((a, Tag::Byte));
    }
    let largest = a.max(b);
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 1);
    put_traj(&mut n, layout(&[PRI, "TAGame.PRI_TA"]));
    updates(&mut n, &ids, largest);
    n.frame(2.0, 0.5).new_actor(3, 1, 0);
    put_traj(&mut n, layout(&["TAGame.PRI_TA"]));
    updates(&mut n, &[(a, Tag::Byte)], a);
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(2)));
    net_exact(cx, &r.bytes());
}

/// Classes that do not inherit from each other do not see each other's ids.
fn c_apart(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(PARENTS.len());
    let (a, pa) = PARENTS[i];
    let others = [PRI, "TAGame.Ball_TA", "TAGame.CameraSettingsActor_TA", "Engine.GameReplicationInfo"];
    let b = ch.of(&others);
    let m = marks();
    let mut r = Rep::new().objs(&[a, b, m[0], m[1], pa]);
    r.cache = vec![(1, 0, 0, vec![(2, 40), (2, 3)]), (4, 0, 0, vec![(3, 3)])];
    let c = chain(a);
    let mut objs = vec![a];
    objs.extend([b, pa].into_iter().filter(|x| c[1..].contains(x) && parents().get(normalize(x)).is_some()));
    objs.sort_by_key(|x| c.iter().position(|y| y == x));
    let sees_b = objs.contains(&b);
    let sees_p = objs.contains(&pa);
    let largest = if sees_b { 40 } else if sees_p { 3 } else { 2 };
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    put_traj(&mut n, layout(&objs));
    n.upd(3).attr(3.min(largest as u32), largest).w.put(0x2d3, 11);
    n.end_upd().end_frame();
    n.w.u64(0).u64(0);
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Classes with many declared properties, own and inherited; many classes.
fn c_many(ch: &mut Ch, cx: &mut Cx) {
    let mut lens: Vec<i32> = (1..=66).collect();
    lens.extend([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4000]);
    let n = lens[ch.pick(lens.len())];
    let own = ch.of(&[0, 1, 2, 3]) * n / 3;
    let fillers = ch.of(&[0i32, 1, 70, 300]);
    let step = ch.of(&[1, 3]);
    let m = marks();
    let tags = [Tag::Byte, Tag::Enum, Tag::FlaggedByte];
    let mut objs: Vec<&str> = m.to_vec();
    let names: Vec<String> = (0..fillers).map(|i| format!("TheWorld:PersistentLevel.VehiclePickup_Boost_TA_{i}")).collect();
    objs.extend(names.iter().map(|x| x.as_str()));
    let base = objs.len() as i32;
    objs.extend(["TAGame.PRI_TA", PRI]);
    let mut r = Rep::new().objs(&objs);
    let of = |i: i32| (i % 3, i * step);
    r.cache = (0..fillers).map(|i| (3 + i, 0, 0, vec![(i % 3, i)])).collect();
    r.cache.push((base, 0, 0, (own..n).map(of).collect()));
    r.cache.push((base + 1, 0, 0, (0..own).map(of).collect()));
    if ch.flip() {
        r.cache.reverse();
    }
    let largest = (n - 1) * step;
    let mut net = Net::new(1023, LAST_VER, false);
    net.frame(1.0, 0.5).new_actor(3, 1, base + 1);
    put_traj(&mut net, layout(&[PRI, "TAGame.PRI_TA"]));
    let ids: Vec<(i32, Tag)> = (0..n).map(|i| (i * step, tags[i as usize % 3])).collect();
    updates(&mut net, &ids, largest);
    r.network = net.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_exact(cx, &r.bytes());
}

/// Many properties of one object, declared again and again, in several lists of the cache.
fn c_pieces(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(&[3i32, 64, 127, 128, 129, 200, 255, 256, 257, 300, 400, 513, 700]);
    let pieces = ch.of(&[1usize, 2, 3, 7]);
    let step = ch.of(&[1i32, 3]);
    let again = ch.pick(6);
    let m = marks();
    let tags = [Tag::Byte, Tag::Enum, Tag::FlaggedByte];
    let mut objs: Vec<&str> = m.to_vec();
    let base = objs.len() as i32;
    objs.extend(["TAGame.PRI_TA", PRI]);
    // (object, id), in the order of the file
    let once = (0..n).map(|i| (i % 3, i * step));
    let other = |(o, s): (i32, i32)| ((o + 1) % 3, s);
    let decl: Vec<(i32, i32)> = match again {
        0 => once.collect(),
        // at once, as the same or as another
        1 => once.flat_map(|x| [x, x]).collect(),
        2 => once.flat_map(|x| [other(x), x]).collect(),
        // later, forwards or backwards
        3 => once.clone().map(other).chain(once).collect(),
        4 => once.clone().map(other).chain(once.rev()).collect(),
        // a few only
        _ => once.clone().chain(once.filter(|x| x.1 % 5 == 0).map(other)).collect(),
    };
    let mut r = Rep::new().objs(&objs);
    let len = decl.len().div_ceil(pieces);
    // lists of one object, or of it and its parent by turns
    let turns = ch.flip();
    r.cache = decl.chunks(len).enumerate().map(|(i, c)| (base + 1 - (turns && i % 2 == 0) as i32, i as i32, i as i32, c.to_vec())).collect();
    let own = |c: i32| r.cache.iter().filter(move |x| x.0 == c).flat_map(|x| x.3.iter());
    let mut tag = std::collections::BTreeMap::new();
    for (o, s) in own(base).chain(own(base + 1)) {
        tag.insert(*s, tags[*o as usize]);
    }
    let mut net = Net::new(1023, LAST_VER, false);
    net.frame(1.0, 0.5).new_actor(3, 1, base + 1);
    put_traj(&mut net, layout(&[PRI, "TAGame.PRI_TA"]));
    let ids: Vec<(i32, Tag)> = tag.into_iter().collect();
    updates(&mut net, &ids, (n - 1) * step);
    r.network = net.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_exact(cx, &r.bytes());
}

/// Names that differ from others in blanks, case or marks only are different names.
fn c_alike(ch: &mut Ch, cx: &mut Cx) {
    let m = marks();
    let class = ch.of(&["TAGame.PRI_TA", PRI, "TAGame.Ball_TA", "Archetypes.Ball.Ball_Default", "Engine.Actor"]);
    let which = ch.pick(4);
    let real = [class, m[0], "Engine.Actor", "TAGame.RBActor_TA"][which];
    let v = match ch.pick(14) {
        0 => format!("{real} "),
        1 => format!(" {real}"),
        2 => format!("{real}\t"),
        3 => real.to_lowercase(),
        4 => real.to_uppercase(),
        5 => format!("{real}\0"),
        6 => format!("{real}_0"),
        7 => format!("{real}."),
        8 => format!(".{real}"),
        9 => real[..real.len() - 1].to_string(),
        10 => real[1..].to_string(),
        11 => format!("{real}\u{a0}"),
        12 => format!("\u{feff}{real}"),
        _ => format!("\"{real}\""),
    };
    let mut objs: Vec<String> = [class, m[0], m[1], "TAGame.RBActor_TA", "Engine.Actor"].iter().map(|x| x.to_string()).collect();
    let first = ch.flip();
    let at = if first { 0 } else { objs.len() };
    objs.insert(at, v.clone());
    let o = |i: i32| i + first as i32;
    let mut r = Rep::new();
    r.objects = objs.iter().map(|x| Txt::U(x.encode_utf16().collect())).collect();
    let like = at as i32;
    r.cache = vec![(o(4), 0, 0, vec![(o(2), 5)]), (o(3), 0, 1, vec![(o(1), 4)]), (o(0), 0, 2, vec![(o(1), 2), (o(2), 3)])];
    match ch.pick(4) {
        0 => {}
        1 => r.cache.insert(0, (like, 0, 0, vec![(o(1), 3), (o(2), 2)])),
        2 => r.cache.push((like, 0, 0, vec![(o(1), 3), (o(2), 2)])),
        _ => r.cache[2].3[0].0 = like,
    }
    let spawn_like = ch.flip();
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, if spawn_like { like } else { o(0) });
    put_traj(&mut n, layout(&chain(class)));
    let l = 5;
    for (id, bits) in [(3u32, 11), (2, 8), (5, 11), (4, 8)] {
        if id == 4 && !chain(class).contains(&"TAGame.RBActor_TA") || id == 5 && class == "Engine.Actor" {
            continue;
        }
        n.upd(3).attr(id, l).w.put(mix(id as u64) & 0xff, bits);
        n.end_upd();
    }
    n.end_frame();
    n.w.u64(0).u64(0);
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    cx.say(|| format!("{v:?}"));
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// As many objects and declared properties as there may be: one of them is spawned and updated.
fn c_full(ch: &mut Ch, cx: &mut Cx) {
    let sizes = [25_000i32, 10_001, 24_999, 20_000, 16_385, 8193, 4097];
    let n = sizes[ch.pick(if cx.thorough { 7 } else { 2 })];
    let m = marks();
    let tags = [Tag::Byte, Tag::Enum, Tag::FlaggedByte];
    let mut net = Net::new(1023, LAST_VER, false);
    let mut r = Rep::new();
    if ch.flip() {
        // where the classes and what they declare are among the objects
        let part = n / 4;
        let filler = ch.of(&["x", "Engine.Actor", "TheWorld:PersistentLevel.CrowdActor_TA_1"]);
        let mut objs: Vec<&str> = vec![filler; n as usize];
        let at: Vec<i32> = (0..5).map(|i| ch.of(&[0, part, 3 * part, n - 8]) + i).collect();
        for (i, name) in [m[0], m[1], m[2], "TAGame.PRI_TA", PRI].into_iter().enumerate() {
            objs[at[i] as usize] = name;
        }
        r = r.objs(&objs);
        let d = |o: i32, s: i32| (at[o as usize], s);
        r.cache = vec![(at[3], 0, 0, vec![d(0, 3), d(1, 4)]), (at[4], 0, 0, vec![d(2, 4), d(1, 7)])];
        net.frame(1.0, 0.5).new_actor(3, 1, at[4]);
        let line = [PRI, "TAGame.PRI_TA", "Engine.Actor"];
        put_traj(&mut net, layout(&line[..if filler == line[2] { 3 } else { 2 }]));
        updates(&mut net, &[(3, Tag::Byte), (4, Tag::FlaggedByte), (7, Tag::Enum)], 7);
    } else {
        // how many a class and its parent declare, in one list or two
        r = r.objs(&[m[0], m[1], m[2], "TAGame.PRI_TA", PRI]);
        let own = ch.of(&[0, 1, n / 2, n]);
        let all = |a: i32, b: i32| (a..b).map(|i| (i % 3, i)).collect::<Vec<_>>();
        r.cache = match ch.pick(3) {
            0 => vec![(3, 0, 0, all(own, n)), (4, 0, 0, all(0, own))],
            1 => vec![(4, 0, 0, all(0, own)), (4, 0, 0, all(own, n))],
            // each declared as something else first
            _ => vec![(4, 0, 0, all(0, n).into_iter().map(|x| ((x.0 + 1) % 3, x.1)).collect()), (4, 0, 0, all(0, n))],
        };
        net.frame(1.0, 0.5).new_actor(3, 1, 4);
        put_traj(&mut net, layout(&[PRI, "TAGame.PRI_TA"]));
        let ids: Vec<(i32, Tag)> = (0..n).filter(|i| i % 97 < 4 || *i > n - 20).map(|i| (i, tags[i as usize % 3])).collect();
        updates(&mut net, &ids, n - 1);
    }
    net.w.u64(0).u64(0);
    r.network = net.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    net_exact(cx, &r.bytes());
}

/// Attributes the parser does not know among those it knows, own and inherited, under ids of their
/// own or shared: they hold their id, and count for its width.
fn c_strange(ch: &mut Ch, cx: &mut Cx) {
    let (lo, hi) = ch.of(&[(3, 4), (1, 2), (5, 127), (3, 128), (200, 255), (200, 256), (256, 300), (255, 1024), (300, 70_000)]);
    let strange = ch.of(&["Verif.Strange:Thing", "TAGame.PRI_TA:Unheard", ""]);
    let m = marks();
    let tags = [Some(Tag::Byte), Some(Tag::Enum), None];
    let mut seen: Vec<(i32, Option<Tag>)> = vec![];
    let mut lists = vec![];
    for most in [1, if cx.thorough { 3 } else { 2 }] {
        let n = ch.pick(most + 1);
        let mut l = vec![];
        for _ in 0..n {
            let e = ch.pick(6);
            let id = if e < 3 { lo } else { hi };
            l.push((e as i32 % 3, id));
            seen.retain(|x| x.0 != id);
            seen.push((id, tags[e % 3]));
        }
        lists.push(l);
    }
    if seen.is_empty() {
        return;
    }
    let mut r = Rep::new().objs(&[m[0], m[1], strange, "TAGame.PRI_TA", PRI]);
    r.cache = vec![(3, 0, 0, lists[0].clone()), (4, 0, 0, lists[1].clone())];
    if ch.flip() {
        r.cache.reverse();
    }
    let largest = seen.iter().map(|x| x.0).max().unwrap().max(2);
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 4);
    put_traj(&mut n, layout(&[PRI, "TAGame.PRI_TA"]));
    let known: Vec<(i32, Tag)> = seen.iter().filter_map(|(i, t)| t.map(|t| (*i, t))).collect();
    updates(&mut n, &known, largest);
    // and one of those that may not be
    let mut frames = 1;
    if let Some((id, _)) = seen.iter().find(|x| x.1.is_none()) {
        if ch.flip() {
            frames = 2;
            n.frame(2.0, 0.5);
            updates(&mut n, &[(*id, Tag::Enum)], largest);
        }
    }
    n.w.u64(0).u64(0);
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(frames)));
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Cache entries that refer to objects that are not there.
fn c_outside(ch: &mut Ch, cx: &mut Cx) {
    let m = marks();
    let mut r = Rep::new().objs(&[PRI, m[0], m[1]]);
    let o = ch.of(&[1, 2, 3, 4, -1, i32::MAX, i32::MIN, 1 << 16]);
    let c = ch.of(&[0, 1, 3, -1, i32::MAX, i32::MIN]);
    r.cache = vec![(0, 0, 0, vec![(1, 2)]), (c, 0, 0, vec![(o, 3)])];
    if ch.flip() {
        r.cache.reverse();
    }
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3).attr(2, 3).w.put(0x55, 8);
    n.end_upd().end_frame();
    n.w.u64(0).u64(0);
    r.network = n.bytes();
    if ch.flip() {
        r.props.push(k("NumFrames", P::Int(1)));
    }
    net_check(cx, &r.bytes(), Lvl::Any);
}

fn c_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    net_check(cx, d, Lvl::Any);
}

pub fn c13() -> Vec<Fam> {
    vec![
        f("attrs", 0, c_attrs),
        f("links", 0, c_links),
        f("lines", 0, c_lines),
        f("perms", 0, c_perms),
        f("dups", 0, c_dups),
        f("cache", 0, c_cache),
        f("decor", 0, c_decor),
        f("width", 0, c_width),
        f("apart", 0, c_apart),
        f("many", 0, c_many),
        f("pieces", 0, c_pieces),
        f("alike", 0, c_alike),
        f("strange", 0, c_strange),
        f("full", 0, c_full),
        f("outside", 0, c_outside),
        f("real", 0, c_real),
    ]
}

// ---------------------------------------------------------------- C14

/// For a channel limit, every id: spawned, then every id again, so that a wrong width shows.
fn i_channels(ch: &mut Ch, cx: &mut Cx) {
    let max = 1 + ch.pick(if cx.thorough { 4200 } else { 2100 }) as u64;
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Byte)]);
    r.cache = vec![(0, 0, 0, vec![(1, 1)])];
    r.props = vec![k("MaxChannels", P::Int(max as i32)), k("NumFrames", P::Int(1))];
    let mut n = Net::new(max as u32, LAST_VER, false);
    n.frame(1.0, 0.5);
    for v in 0..max {
        n.new_actor(v as u32, v as i32, 0);
    }
    for v in (0..max).rev().step_by(3) {
        n.upd(v as u32).attr(1, 1).w.u8(v as u8);
        n.end_upd();
    }
    n.end_frame();
    r.network = n.bytes();
    net_exact(cx, &r.bytes());
}

/// Large and odd limits, boundary ids.
fn i_channels_far(ch: &mut Ch, cx: &mut Cx) {
    let e = ch.pick(33) as u32;
    let d = ch.range(-3, 3);
    let max = ((1i64 << e) + d) as i32;
    let m = max as u32 as u64;
    cx.say(|| format!("limit {max}"));
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Byte)]);
    r.cache = vec![(0, 0, 0, vec![(1, 1)])];
    r.props = vec![k("MaxChannels", P::Int(max)), k("NumFrames", P::Int(1))];
    let half = 1u64 << e.saturating_sub(1);
    let ids = [0, 1, 2, m.wrapping_sub(1), m.wrapping_sub(2), half, half.wrapping_sub(1), half + 1, m / 2, m / 3, 199, 200, m];
    let id = ids[ch.pick(ids.len())];
    let id2 = ids[ch.pick(ids.len())];
    if m == 0 || !representable(id, m) || !representable(id2, m) || id >> 32 != 0 || id2 >> 32 != 0 {
        return;
    }
    let mut n = Net::new(m as u32, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(id as u32, 1, 0);
    n.new_actor(id2 as u32, 1, 0);
    n.upd(id as u32).attr(1, 1).w.u8(0x5a);
    n.end_upd().end_frame();
    n.w.u64(0).u64(0);
    r.network = n.bytes();
    net_exact(cx, &r.bytes());
}

/// No limit declared, or not as a number: 1023.
fn i_default(ch: &mut Ch, cx: &mut Cx) {
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Byte)]);
    r.cache = vec![(0, 0, 0, vec![(1, 1)])];
    r.props = vec![k("NumFrames", P::Int(1))];
    let mut max = 1023u32;
    match ch.pick(8) {
        0 => {}
        7 => {
            r.props.push(k("MaxChannels", P::QWord(55)));
            r.props.push(k("MaxChannels", P::Int(55)));
        }
        1 => r.props.push(k("MaxChannels", P::Str(t("2047")))),
        2 => r.props.push(k("MaxChannels", P::Float(0x4500_0000))),
        3 => r.props.push(k("maxchannels", P::Int(55))),
        4 => r.props.push(k("NumChannels", P::Int(55))),
        5 => {
            r.props.push(k("MaxChannels", P::Int(2047)));
            r.props.push(k("MaxChannels", P::Int(55)));
            max = 2047;
        }
        _ => {
            r.props.push(k("S", P::Struct("x".into(), vec![k("MaxChannels", P::Int(55))])));
        }
    }
    let c = ch.pick(16);
    let mut n = Net::new(max, LAST_VER, false);
    n.frame(1.0, 0.5);
    for v in (0..max).filter(|v| v % 16 == c as u32) {
        n.new_actor(v, v as i32, 0);
    }
    n.end_frame();
    r.network = n.bytes();
    net_exact(cx, &r.bytes());
}

/// For a largest stream id, every id below it.
fn i_streams(ch: &mut Ch, cx: &mut Cx) {
    let l = ch.pick(if cx.thorough { 2100 } else { 700 }) as i32;
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Byte), name_of(Tag::Enum)]);
    r.cache = vec![(0, 0, 0, (0..=l).map(|i| (1 + (i % 2), i)).collect())];
    r.props = vec![k("NumFrames", P::Int(1))];
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for i in 0..=l {
        n.attr(i as u32, l).w.put(mix(i as u64) & 0xff, if i % 2 == 0 { 8 } else { 11 });
    }
    n.end_upd().end_frame();
    r.network = n.bytes();
    net_exact(cx, &r.bytes());
}

/// Only two ids declared, one of them the largest: those between are unknown, not misread.
fn i_streams_far(ch: &mut Ch, cx: &mut Cx) {
    let e = ch.pick(31) as u32;
    let d = ch.range(-3, 3);
    let l = ((1i64 << e) + d).clamp(0, i32::MAX as i64 - 1) as i32;
    let other = ch.of(&[0, 1, l / 2, l - 1, l / 3]);
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Byte), name_of(Tag::Enum)]);
    r.cache = vec![(0, 0, 0, vec![(1, l), (2, other)])];
    r.props = vec![k("NumFrames", P::Int(1))];
    let s = ch.of(&[l, other, l - 1, l / 2 + 1]);
    if s < 0 || other < 0 {
        return;
    }
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3).attr(s as u32, l).w.put(0x2c3, if s == l && s != other { 8 } else { 11 });
    n.end_upd().end_frame();
    n.w.u64(0);
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Vector sizes: every one, at each alignment.
fn i_sizes(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 22, 7), (868, 22, 6), (868, 20, 2), (868, 10, 0)]);
    let lim = if ver.2 >= 7 { 22 } else { 20 };
    let fill = ch.pick(8);
    let w = W::new(ver, &[name_of(Tag::Location), name_of(Tag::Byte), name_of(Tag::Byte)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for i in 0..fill {
        n.attr(2, w.largest).w.u8(i as u8 ^ 0xa5);
    }
    for size in 0..lim {
        let m = (1u64 << (size + 2)) - 1;
        n.attr(1, w.largest);
        n.vec(size as u32, mix(size) & m, m, 0);
    }
    n.end_upd().end_frame();
    net_exact(cx, &w.file(1, n.bytes()));
}

/// Legacy paint and team edition values, and everything the four bits can say.
fn i_paint(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[(868, 12, 0), (868, 17, 0)]);
    let kind = ch.of(&[1i32, 4]);
    let fill = ch.pick(8);
    let bits = ch.pick(16) as u64;
    let w = W::new(ver, &[name_of(Tag::LoadoutOnline), name_of(Tag::Byte), name_of(Tag::Byte)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for i in 0..fill {
        n.attr(2, w.largest).w.u8(i as u8 ^ 0xa5);
    }
    n.attr(1, w.largest).w.u8(1).u8(16);
    for v in 0..16u64 {
        // the first is given, the others are every legal value
        n.w.bit(v % 2 == 0).i32(w.product0 + kind);
        if v == 0 {
            n.w.put(bits & 7, 3);
            if (bits & 7) + 8 < 14 {
                n.w.bit(bits > 7);
            }
        } else {
            n.w.bounded((v - 1) % 14, 14);
        }
    }
    n.end_upd().end_frame();
    n.w.u64(0);
    net_exact(cx, &w.file(1, n.bytes()));
}

/// Limit and data end together: the last id in the data, cut at every byte.
fn i_cut(ch: &mut Ch, cx: &mut Cx) {
    let max = ch.of(&[1u32, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 1023, 1024, 1025, 70_000]);
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Byte)]);
    r.cache = vec![(0, 0, 0, vec![(1, 1)])];
    r.props = vec![k("MaxChannels", P::Int(max as i32)), k("NumFrames", P::Int(1))];
    let fill = ch.pick(8);
    let id = ch.of(&[0, max - 1, max / 2]);
    let mut n = Net::new(max, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(0, 0, 0);
    for i in 0..fill {
        n.upd(0).attr(1, 1).w.u8(i as u8);
        n.end_upd();
    }
    let before = n.w.n / 8;
    n.del(id).del(0).end_frame();
    let b = n.bytes();
    let len = before + ch.pick(b.len() - before + 1);
    r.network = b[..len].to_vec();
    net_check(cx, &r.bytes(), Lvl::Any);
}

pub fn c14() -> Vec<Fam> {
    vec![
        f("channels", 0, i_channels),
        f("channels_far", 0, i_channels_far),
        f("default", 0, i_default),
        f("streams", 0, i_streams),
        f("streams_far", 0, i_streams_far),
        f("sizes", 0, i_sizes),
        f("paint", 0, i_paint),
        f("cut", 0, i_cut),
    ]
}

// ---------------------------------------------------------------- C16

fn small() -> Rep {
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Byte)]);
    r.cache = vec![(0, 0, 0, vec![(1, 1)])];
    r
}

/// One frame of a kind: empty, with a spawn, with an update, with a deletion.
fn a_frame(n: &mut Net, kind: usize, i: usize) {
    n.frame(1.0 + i as f32, 0.5);
    match kind {
        0 => {}
        1 => {
            n.new_actor(3, i as i32, 0);
        }
        2 => {
            n.new_actor(3, i as i32, 0).upd(3).attr(1, 1).w.u8(i as u8);
            n.end_upd();
        }
        _ => {
            n.del(3);
        }
    }
    n.end_frame();
}

/// Frames written, frames declared, an end marker after some of them, and what follows.
fn s_counts(ch: &mut Ch, cx: &mut Cx) {
    let m = ch.pick(if cx.thorough { 6 } else { 5 });
    let kinds: Vec<usize> = (0..m).map(|_| ch.pick(3)).collect();
    let marker = ch.pick(m + 2);
    let tail = ch.pick(6);
    let declared = match ch.pick(12) {
        11 => None,
        10 => Some(-1),
        9 => Some(1000),
        x => Some(x as i32 - 1 + (x == 0) as i32 * 2),
    };
    let mut n = Net::new(1023, LAST_VER, false);
    for i in 0..=m {
        if i == marker {
            n.frame(0.0, 0.0);
        }
        if i < m {
            a_frame(&mut n, kinds[i], i);
        }
    }
    match tail {
        0 => {}
        1 => {
            n.w.u8(0);
        }
        2 => {
            n.w.u64(0).u64(0);
        }
        3 => {
            n.w.u64(u64::MAX);
        }
        4 => {
            n.w.put(1, 1);
        }
        _ => {
            // a frame cut in its middle
            n.frame(9.0, 0.5).w.put(1, 3);
        }
    }
    let mut r = small();
    if let Some(x) = declared {
        r.props.push(k("NumFrames", P::Int(x)));
    }
    r.network = n.bytes();
    cx.say(|| format!("{m} frames, marker at {marker}, tail {tail}, declared {declared:?}"));
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Declared counts around what is there, larger numbers of frames.
fn s_many(ch: &mut Ch, cx: &mut Cx) {
    let m = ch.of(&[1usize, 7, 8, 9, 31, 32, 33, 100, 255, 256, 257, 1000, 65_535, 65_536, 65_537, 70_000]);
    let d = ch.range(-2, 2) as i32;
    let pad = ch.of(&[0usize, 1, 7, 8, 9, 100]);
    let mut n = Net::new(1023, LAST_VER, false);
    for i in 0..m {
        a_frame(&mut n, i % 4, i);
    }
    let mut r = small();
    r.props.push(k("NumFrames", P::Int(m as i32 + d)));
    r.network = n.bytes();
    r.network.extend(std::iter::repeat_n(0, pad));
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Long series of frames that are alike, or take turns.
fn s_series(ch: &mut Ch, cx: &mut Cx) {
    let e = ch.pick(if cx.thorough { 14 } else { 11 }) as u32 + 3;
    let m = ((1i64 << e) + ch.range(-1, 2)) as usize;
    let kind = ch.pick(5);
    let time = ch.pick(6);
    let turns = ch.of(&[0usize, 1, 3]);
    cx.say(|| format!("{m} frames of kind {kind}, time {time}, {turns}"));
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(0.5, 0.5).new_actor(3, 0, 0).end_frame();
    for i in 0..m {
        let (t, d) = match time {
            0 => (1.0, 1.0),
            1 => (1.0 + i as f32, 0.03125),
            2 => (4096.0 - i as f32 * 0.125, 0.0),
            3 => (1.0 + (i / 2) as f32, 1.0),
            4 => (0.0, 0.25),
            _ => (1.0e-10, 1.0e-10),
        };
        n.frame(t, d);
        match if turns > 0 && i % (turns + 1) == 0 { 0 } else { kind } {
            0 => {}
            1 => {
                n.new_actor(3, 0, 0);
            }
            2 => {
                n.del(9);
            }
            3 => {
                n.upd(3).end_upd();
            }
            _ => {
                n.new_actor(4 + i as u32 % 999, i as i32, 0).del(i as u32 % 999);
            }
        }
        n.end_frame();
    }
    let mut r = small();
    r.props.push(k("NumFrames", P::Int(m as i32 + 1)));
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Counts against network sizes, no frames needed to reject.
fn s_limit(ch: &mut Ch, cx: &mut Cx) {
    let len = ch.pick(70);
    let n = match ch.pick(2) {
        0 => len as i32 + ch.range(-2, 2) as i32,
        _ => ch.of(&I32S),
    };
    let fill = ch.of(&[0u8, 0xff, 0x3f]);
    let mut r = small();
    r.props.push(k("NumFrames", P::Int(n)));
    r.network = vec![fill; len];
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Where the count comes from: first of its name, if a number.
fn s_key(ch: &mut Ch, cx: &mut Cx) {
    let mut n = Net::new(1023, LAST_VER, false);
    for i in 0..3 {
        a_frame(&mut n, 1, i);
    }
    let mut r = small();
    let opts = |i: usize| match i {
        0 => None,
        1 => Some(k("NumFrames", P::Int(2))),
        2 => Some(k("NumFrames", P::Int(3))),
        3 => Some(k("NumFrames", P::Str(t("2")))),
        4 => Some(k("NumFrames", P::QWord(2))),
        5 => Some(k("NumFrames", P::Float(0x4000_0000))),
        6 => Some(k("numframes", P::Int(1))),
        7 => Some(k("NumFrames ", P::Int(1))),
        8 => Some(k("NumFrames", P::Bool(1))),
        9 => Some(k("X", P::Struct("y".into(), vec![k("NumFrames", P::Int(1))]))),
        10 => Some(k("X", P::Arr(vec![vec![k("NumFrames", P::Int(1))]]))),
        11 => Some(k("NumFrames", P::ByteNone(0))),
        _ => Some(k("NumFrames", P::Int(-1))),
    };
    for _ in 0..3 {
        if let Some(p) = opts(ch.pick(13)) {
            r.props.push(p);
        }
    }
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

fn floats(thorough: bool) -> Vec<u32> {
    let mut v = vec![];
    for s in [0u32, 0x8000_0000] {
        for e in 0..256u32 {
            let ms: &[u32] = if thorough {
                &[0, 1, 2, 0x3f_ffff, 0x40_0000, 0x40_0001, 0x55_5555, 0x7f_fffe, 0x7f_ffff]
            } else {
                &[0, 1, 0x40_0000, 0x7f_ffff]
            };
            v.extend(ms.iter().map(|m| s | e << 23 | m));
        }
        let edge = 1e-10f32.to_bits();
        v.extend((edge - 40..edge + 40).map(|x| s | x));
    }
    v
}

/// Times and deltas of every magnitude.
fn s_time(ch: &mut Ch, cx: &mut Cx) {
    let v = floats(cx.thorough);
    let x = v[ch.pick(v.len())];
    let y = ch.of(&[0u32, 0x3f80_0000, 0x8000_0000, 0xbf80_0000, 1, 0x7fc0_0000]);
    let (a, b) = if ch.flip() { (x, y) } else { (y, x) };
    let first = ch.flip();
    let mut n = Net::new(1023, LAST_VER, false);
    if !first {
        a_frame(&mut n, 1, 0);
    }
    n.w.u32(a).u32(b);
    n.new_actor(4, 1, 0).end_frame();
    a_frame(&mut n, 2, 5);
    let mut r = small();
    r.props.push(k("NumFrames", P::Int(3)));
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// The marker in all forms of zero, and what almost looks like it.
fn s_marker(ch: &mut Ch, cx: &mut Cx) {
    let z = [0u32, 0x8000_0000, 1, 0x8000_0001, 0x3f80_0000, 0x2edb_e6ff, 0x2edb_e6fe];
    let (a, b) = (ch.of(&z), ch.of(&z));
    let at = ch.pick(3);
    let bit = ch.flip();
    let mut n = Net::new(1023, LAST_VER, false);
    for i in 0..at {
        a_frame(&mut n, 1, i);
    }
    n.w.u32(a).u32(b);
    if bit {
        n.w.u64(u64::MAX);
    } else {
        n.end_frame();
        a_frame(&mut n, 0, 3);
    }
    let mut r = small();
    let d = at as i32 + ch.pick(4) as i32;
    r.props.push(k("NumFrames", P::Int(d)));
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// The data of several frames cut at every byte.
fn s_cut(ch: &mut Ch, cx: &mut Cx) {
    let mut n = Net::new(1023, LAST_VER, false);
    for i in 0..4 {
        a_frame(&mut n, i, i);
    }
    let marker = ch.flip();
    if marker {
        n.frame(0.0, 0.0);
        n.w.u64(77);
    }
    let b = n.bytes();
    let len = ch.pick(b.len() + 1);
    let mut r = small();
    let d = 1 + ch.pick(6) as i32;
    r.props.push(k("NumFrames", P::Int(d)));
    r.network = b[..len].to_vec();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Versions with and without a trailer after the frames.
fn s_trailer(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 24, 10), (868, 24, 9), (868, 23, 10), (868, 25, 0), (868, 10, 0), (0, 0, 0)]);
    let m = ch.pick(3);
    let tail = ch.of(&[0usize, 1, 3, 4, 5, 8, 11, 12, 13, 40]);
    let fill = ch.of(&[0u8, 0xff, 1]);
    let more = ch.pick(3) as i32;
    let mut n = Net::new(1023, ver, false);
    for i in 0..m {
        a_frame(&mut n, 1, i);
    }
    let mut r = small().with_ver(ver);
    r.props.push(k("NumFrames", P::Int(m as i32 + more)));
    r.network = n.bytes();
    r.network.extend(std::iter::repeat_n(fill, tail));
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// No network data at all, under each way of asking for it.
fn s_none(ch: &mut Ch, cx: &mut Cx) {
    let mut r = small();
    match ch.pick(4) {
        0 => {}
        1 => r.props.push(k("NumFrames", P::Int(0))),
        2 => r.props.push(k("NumFrames", P::Int(1))),
        _ => r.props.push(k("NumFrames", P::Int(-1))),
    }
    r.network = vec![0x11; ch.pick(3)];
    if ch.flip() {
        r.objects.clear();
        r.cache.clear();
    }
    let net = ch.of(&[NetworkParse::Always, NetworkParse::IgnoreOnError, NetworkParse::Never]);
    check(cx, &r.bytes(), CrcCheck::Always, net, Part::All, Lvl::Any);
}

pub fn c16() -> Vec<Fam> {
    let _ = BitW::new;
    vec![
        f("counts", 0, s_counts),
        f("many", 0, s_many),
        f("series", 0, s_series),
        f("limit", 0, s_limit),
        f("key", 0, s_key),
        f("time", 0, s_time),
        f("marker", 0, s_marker),
        f("cut", 0, s_cut),
        f("trailer", 0, s_trailer),
        f("none", 0, s_none),
        f("real", 0, c_real),
    ]
}
