//! Numeric values, identities, loadouts, versions, spawns.

use super::c10::{one, VERS};
use super::c13::{chain, put_traj};
use super::*;
use crate::bits::BitW;
use crate::cmp::{net_exact, check, net_check, Lvl, Part};
use crate::gen::*;
use crate::golden::{Spawn, Tag, PARENTS, SPAWNS};
use crate::refdec::{normalize, parents, spawns, Ver};
use crate::rep::*;
use boxcars::{CrcCheck, NetworkParse};

// ---------------------------------------------------------------- C21

/// Both generations of vectors and of quaternions, at and around the switch.
const GENS: [Ver; 5] = [LAST_VER, (868, 22, 6), (868, 22, 7), (868, 10, 0), (868, 20, 5)];

fn limit(ver: Ver) -> u64 {
    if ver.2 >= 7 {
        22
    } else {
        20
    }
}

/// One actor, one update with all these payloads.
fn packed(ver: Ver, tag: Tag, items: &[BitW]) -> Vec<u8> {
    let w = W::new(ver, &[name_of(tag), name_of(Tag::Enum)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for x in items {
        n.attr(1, w.largest).w.append(x);
    }
    n.attr(2, w.largest).w.put(0x5a5, 11);
    n.end_upd().end_frame();
    w.file(1, n.bytes())
}

fn vec_bits(lim: u64, size: u64, c: [u64; 3]) -> BitW {
    let mut w = BitW::new();
    w.bounded(size, lim);
    for x in c {
        w.put(x, size as u32 + 2);
    }
    w
}

/// Small size classes: every combination of the three components.
fn v_small(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&GENS);
    let size = ch.pick(if cx.thorough { 5 } else { 4 }) as u64;
    let n = 1u64 << (size + 2);
    let x = ch.pick(n as usize) as u64;
    let z0 = if size == 4 { ch.pick(n as usize) as u64 } else { 0 };
    let zs = if size == 4 { z0..z0 + 1 } else { 0..n };
    let mut items = vec![];
    for y in 0..n {
        for z in zs.clone() {
            items.push(vec_bits(limit(ver), size, [x, y, z]));
        }
    }
    net_exact(cx, &packed(ver, Tag::Location, &items));
}

const CHUNK: u64 = 512;

/// Chunks of 0..2^bits that are explored: all up to `full` bits, else those at powers of two.
fn chunk(ch: &mut Ch, bits: u32, full: u32) -> std::ops::Range<u64> {
    let n = 1u64 << bits;
    if n <= CHUNK {
        return 0..n;
    }
    let chunks = n / CHUNK;
    let c = if bits <= full {
        ch.pick(chunks as usize) as u64
    } else {
        let mut v = vec![0, 1, chunks / 2 - 1, chunks / 2, chunks - 1, chunks / 3, chunks / 2 + 1];
        v.extend((2..bits).filter_map(|b| {
            let c = (1u64 << b) / CHUNK;
            (c > 0).then_some(c)
        }));
        v.sort();
        v.dedup();
        v[ch.pick(v.len())]
    };
    c * CHUNK..(c + 1) * CHUNK
}

/// Every value of a component, on all three axes at once.
fn v_axis(ch: &mut Ch, cx: &mut Cx) {
    let ver = GENS[ch.pick(2)];
    let size = ch.pick(limit(ver) as usize) as u64;
    let b = size as u32 + 2;
    let m = (1u64 << b) - 1;
    let r = chunk(ch, b, if cx.thorough { 23 } else { 19 });
    let items: Vec<_> = r.map(|v| vec_bits(limit(ver), size, [v, v.wrapping_mul(5) & m, !v & m])).collect();
    net_exact(cx, &packed(ver, Tag::Location, &items));
}

/// Extreme and middle components in every combination, every size.
fn v_mixed(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&GENS);
    let mut items = vec![];
    let size = ch.pick(limit(ver) as usize) as u64;
    let b = size as u32 + 2;
    let (m, h) = ((1u64 << b) - 1, 1u64 << (b - 1));
    let vals = [0, 1, h - 1, h, (h + 1) & m, m - 1, m, h / 2, h + h / 2, 0x5555_5555 & m];
    for x in vals {
        for y in vals {
            for z in vals {
                items.push(vec_bits(limit(ver), size, [x, y, z]));
            }
        }
    }
    net_exact(cx, &packed(ver, Tag::Location, &items));
}

/// Vectors in every place that has them.
fn v_places(ch: &mut Ch, cx: &mut Cx) {
    const HAVE: [Tag; 10] = [
        Tag::AppliedDamage, Tag::DamageState, Tag::Demolish, Tag::DemolishFx, Tag::DemolishExtended, Tag::Explosion,
        Tag::ExtendedExplosion, Tag::Location, Tag::Welded, Tag::RigidBody,
    ];
    let ver = GENS[ch.pick(if cx.thorough { 5 } else { 3 })];
    let tag = ch.of(&HAVE);
    let mut g = G::new(ch, ver, 3);
    g.attr(tag);
    let w = g.w.clone();
    net_exact(cx, &one(tag, ver, false, &w));
}

fn spawned(ver: Ver, both: bool, items: &[BitW]) -> Vec<u8> {
    let class = if both { "TAGame.Ball_TA" } else { "TAGame.Team_TA" };
    let mut r = Rep::new().with_ver(ver).objs(&["Verif.X", name_of(Tag::Enum), class]);
    let s = chain(class).iter().find_map(|c| spawns().get(c)).copied().unwrap_or(Spawn::None);
    r = if both {
        r.objs(&["TAGame.RBActor_TA", name_of(Tag::Enum), class])
    } else {
        r.objs(&["Engine.Actor", name_of(Tag::Enum), class])
    };
    assert_eq!(both, s == Spawn::LocationAndRotation, "{class} {s:?}");
    r.cache = vec![(2, 0, 0, vec![(1, 1)])];
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5);
    for (i, x) in items.iter().enumerate() {
        n.new_actor(i as u32 % 1000, i as i32, 2).w.append(x);
    }
    n.upd(0).attr(1, 1).w.put(0x5a5, 11);
    n.end_upd().end_frame();
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = n.bytes();
    r.bytes()
}

/// Where actors spawn: every size with every kind of value.
fn v_spawn(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&GENS);
    let both = ch.flip();
    let size = ch.pick(limit(ver) as usize) as u64;
    let b = size as u32 + 2;
    let (m, h) = ((1u64 << b) - 1, 1u64 << (b - 1));
    let vals = [0, 1, h - 1, h, m, 0x2aaa_aaaa & m];
    let mut items = vec![];
    let mut i = 0u64;
    for x in vals {
        for y in vals {
            for z in vals {
                let mut w = vec_bits(limit(ver), size, [x, y, z]);
                if both {
                    rot_bits(&mut w, i % 8, mix(i));
                }
                i += 1;
                items.push(w);
            }
        }
    }
    net_exact(cx, &spawned(ver, both, &items));
}

fn rot_bits(w: &mut BitW, mask: u64, v: u64) {
    for i in 0..3 {
        let on = mask >> i & 1 == 1;
        w.bit(on);
        if on {
            w.put(v >> (8 * i) & 0xff, 8);
        }
    }
}

/// Every mask with every byte.
fn r_bytes(ch: &mut Ch, cx: &mut Cx) {
    let mask = ch.pick(8) as u64;
    let spawn = ch.flip();
    let ver = GENS[ch.pick(2)];
    let mut items = vec![];
    for v in 0..256u64 {
        let mut w = BitW::new();
        if spawn {
            w = vec_bits(limit(ver), 5, [v & 127, 3, 77]);
        }
        rot_bits(&mut w, mask, v | (v.wrapping_mul(3) & 0xff) << 8 | (!v & 0xff) << 16);
        items.push(w);
    }
    let d = if spawn { spawned(ver, true, &items) } else { packed(ver, Tag::RotationTag, &items) };
    net_exact(cx, &d);
}

/// All values of two of the three components.
fn r_pairs(ch: &mut Ch, cx: &mut Cx) {
    let (mask, i, j) = ch.of(&[(3u64, 0, 1), (5, 0, 2), (6, 1, 2), (7, 0, 1), (7, 1, 2), (7, 0, 2)]);
    let a = ch.pick(256) as u64;
    let mut items = vec![];
    for b in 0..256u64 {
        let mut w = BitW::new();
        let rest = if mask == 7 { 0x55 << (8 * (3 - i - j)) } else { 0 };
        rot_bits(&mut w, mask, a << (8 * i) | b << (8 * j) | rest);
        items.push(w);
    }
    net_exact(cx, &packed(LAST_VER, Tag::RotationTag, &items));
}

/// A still rigid body: little else around the quaternion.
fn body_of(ver: Ver, q: impl Fn(&mut BitW)) -> BitW {
    let mut w = BitW::new();
    w.bit(true).append(&vec_bits(limit(ver), 3, [1, 2, 30]));
    q(&mut w);
    w
}

/// Every value of every component under every selector.
fn q_axis(ch: &mut Ch, cx: &mut Cx) {
    let sel = ch.pick(4) as u64;
    let at = ch.pick(3);
    let others = ch.of(&[(131_072u64, 131_071u64), (0, 262_143), (262_143, 262_143), (200_000, 60_000)]);
    let r = chunk(ch, 18, 18);
    let items: Vec<_> = r
        .map(|v| {
            body_of(LAST_VER, |w| {
                let mut c = [others.0, others.1, others.1];
                c[2] = others.0;
                c[at] = v;
                w.put(sel, 2);
                c.iter().for_each(|x| {
                    w.put(*x, 18);
                });
            })
        })
        .collect();
    net_exact(cx, &packed(LAST_VER, Tag::RigidBody, &items));
}

/// Grid of components: those that overfill the unit sphere included.
fn q_grid(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 22, 7)]);
    let sel = ch.pick(4) as u64;
    let steps: u64 = if cx.thorough { 120 } else { 36 };
    let val = |i: u64| if i == steps { 262_143 } else { i * 262_143 / steps };
    let x = val(ch.pick(steps as usize + 1) as u64);
    for y in 0..=steps {
        let items: Vec<_> = (0..=steps)
            .map(|z| {
                body_of(ver, |w| {
                    w.put(sel, 2).put(x, 18).put(val(y), 18).put(val(z), 18);
                })
            })
            .collect();
        net_exact(cx, &packed(ver, Tag::RigidBody, &items));
    }
}

/// The older form: all values of a component, and a grid.
fn q_old(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[(868, 22, 6), (868, 10, 0)]);
    let m = 0xffffu64;
    let items: Vec<BitW> = if ch.flip() {
        let r = chunk(ch, 16, 16);
        r.map(|v| body_of(ver, |w| { w.put(v, 16).put(v.wrapping_mul(3) & m, 16).put(!v & m, 16); })).collect()
    } else {
        let vals = [0u64, 1, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 0x4000, 0xc000, 0x7ffe];
        let x = ch.of(&vals);
        vals.iter().flat_map(|y| vals.iter().map(move |z| body_of(ver, |w| { w.put(x, 16).put(*y, 16).put(*z, 16); }))).collect()
    };
    net_exact(cx, &packed(ver, Tag::RigidBody, &items));
}

/// Rigid bodies: each triple of sizes, still and moving, each quaternion form.
fn b_sizes(ch: &mut Ch, cx: &mut Cx) {
    let ver = GENS[ch.pick(if cx.thorough { 5 } else { 3 })];
    let lim = limit(ver);
    let a = ch.pick(lim as usize) as u64;
    let b = ch.pick(lim as usize) as u64;
    let mut items = vec![];
    for c in 0..lim {
        let mut w = BitW::new();
        let mut i = a * 1000 + b * 30 + c;
        let mut next = |n: u32| {
            i += 7919;
            mix(i) & ((1 << n) - 1)
        };
        let mut v = |w: &mut BitW, s: u64| {
            let n = s as u32 + 2;
            w.append(&vec_bits(lim, s, [next(n), next(n), next(n)]));
        };
        w.bit(false);
        v(&mut w, a);
        if ver.2 >= 7 {
            w.put(c & 3, 2).put(100_000 + c * 999, 18).put(150_000 - b * 777, 18).put(131_072 + a, 18);
        } else {
            w.put(c * 2999, 16).put(b * 3001, 16).put(a * 3011, 16);
        }
        v(&mut w, b);
        v(&mut w, c);
        items.push(w);
        if a == 0 {
            items.push(body_of(ver, |w| {
                w.put(mix(c), if ver.2 >= 7 { 56 } else { 48 });
            }));
        }
    }
    net_exact(cx, &packed(ver, Tag::RigidBody, &items));
}

fn n_real(ch: &mut Ch, cx: &mut Cx) {
    super::c10::a_real(ch, cx)
}

/// The last thing in the data, or cut off, or followed by a few bytes: at every alignment.
fn n_ends(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&GENS);
    let lim = limit(ver);
    let fill = ch.pick(8);
    let vec = |i: usize| {
        let size = [0, 1, 6, lim / 2, lim - 2, lim - 1][i];
        let m = (1u64 << (size + 2)) - 1;
        vec_bits(lim, size, [m, 0x2aaa_aaaa & m, m / 2])
    };
    let rot = |w: &mut BitW, mask| rot_bits(w, mask, 0x80_ff_7f);
    let (tag, pay) = match ch.pick(20) {
        i if i < 6 => (Tag::Location, vec(i)),
        i if i < 10 => {
            let mut w = BitW::new();
            rot(&mut w, [0, 2, 5, 7][i - 6]);
            (Tag::RotationTag, w)
        }
        i if i < 14 => {
            // a rigid body that moves ends with two vectors, one that sleeps with a quaternion
            let (moves, v) = (i % 2 == 0, if i < 12 { 1 } else { 5 });
            let mut w = BitW::new();
            w.bit(!moves).append(&vec(v));
            if ver.2 >= 7 {
                w.put(2, 2);
                for i in 0..3 {
                    w.put(0x1_5555 + i, 18);
                }
            } else {
                for i in 0..3 {
                    w.put(0x5554 + i, 16);
                }
            }
            if moves {
                w.append(&vec(v)).append(&vec(v - 1));
            }
            (Tag::RigidBody, w)
        }
        i => {
            // a new actor with a rotation, one without
            let both = i % 2 == 0;
            let mut w = vec((i - 14) / 2 * 2 + 1);
            if both {
                rot(&mut w, [7, 1, 0][(i - 14) / 2]);
            }
            return spawn_ends(ch, cx, ver, both, fill, &w);
        }
    };
    let w = W::new(ver, &[name_of(tag), name_of(Tag::Boolean)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for i in 0..fill {
        n.attr(2, w.largest).w.bit(i % 2 == 0);
    }
    n.attr(1, w.largest);
    let before = n.w.n.div_ceil(8);
    n.w.append(&pay);
    n.end_upd().end_frame();
    let b = ending(ch, n.bytes(), before);
    net_check(cx, &w.file(1, b), Lvl::Any);
}

/// Cut anywhere after `before`, or with up to 20 more bytes.
fn ending(ch: &mut Ch, mut b: Vec<u8>, before: usize) -> Vec<u8> {
    let cut = b.len() - before;
    match ch.pick(cut + 21) {
        i if i < cut => b.truncate(before + i),
        i => b.extend(vec![0xb5; i - cut]),
    }
    b
}

fn spawn_ends(ch: &mut Ch, cx: &mut Cx, ver: Ver, both: bool, fill: usize, place: &BitW) {
    let class = if both { "TAGame.Ball_TA" } else { "TAGame.Team_TA" };
    let mut r = Rep::new().with_ver(ver).objs(&["Verif.X", name_of(Tag::Boolean), "TAGame.PRI_TA", class]);
    r = r.objs(&[if both { "TAGame.RBActor_TA" } else { "Engine.Actor" }]);
    r.cache = vec![(2, 0, 0, vec![(1, 1)]), (4, 0, 0, vec![(1, 1)])];
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5);
    // each deleted actor is twelve bits, each frame without any a byte and a bit
    for i in 0..fill {
        n.del(500 + i as u32);
    }
    if fill % 2 == 1 {
        n.end_frame();
        n.frame(2.0, 0.5);
    }
    let before = n.w.n.div_ceil(8);
    n.new_actor(7, 1, 3).w.append(place);
    n.end_frame();
    let b = ending(ch, n.bytes(), before);
    r.props.push(k("NumFrames", P::Int(1 + (fill % 2) as i32)));
    r.network = b;
    net_check(cx, &r.bytes(), Lvl::Any);
}

pub fn c21() -> Vec<Fam> {
    vec![
        f("small", 0, v_small),
        f("axis", 0, v_axis),
        f("mixed", 0, v_mixed),
        f("places", 2, v_places),
        f("spawn", 0, v_spawn),
        f("rot", 0, r_bytes),
        f("rot_pairs", 0, r_pairs),
        f("quat", 0, q_axis),
        f("quat_grid", 0, q_grid),
        f("quat_old", 0, q_old),
        f("body", 0, b_sizes),
        f("ends", 0, n_ends),
        f("real", 0, n_real),
    ]
}

// ---------------------------------------------------------------- C22

const HOLDERS: [Tag; 3] = [Tag::UniqueId, Tag::Reservation, Tag::PartyLeader];
const NETS: [i32; 13] = [10, 0, 1, 2, 5, 6, 7, 8, 9, 11, 12, i32::MAX, -1];
const KNOWN: [u8; 8] = [0, 1, 2, 4, 5, 6, 7, 11];

fn ver_of(net: i32) -> Ver {
    (868, 32, net)
}

/// What surrounds an identity in each of its holders.
fn hold(g: &mut G, tag: Tag, sys: u8, body: impl FnOnce(&mut G)) {
    match tag {
        Tag::Reservation => {
            g.int(3);
            g.w.u8(sys);
            let at = g.w.n;
            body(g);
            if sys != 0 {
                g.text();
            } else if (at..at + 24).any(|p| g.w.bytes[p / 8] >> (p % 8) & 1 == 1) {
                g.w.raw(b"guest(1)\0");
            }
            g.bit_d(true);
            g.bit_d(false);
            if g.ver >= (868, 12, 0) {
                g.int(6);
            }
        }
        Tag::PartyLeader if sys == 0 => {
            g.w.u8(0);
        }
        _ => {
            g.w.u8(sys);
            body(g);
        }
    }
}

/// Every platform byte in every holder.
fn u_all(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&HOLDERS);
    let ver = ver_of(ch.of(&NETS));
    let sys = ch.pick(256) as u8;
    let mut g = G::new(ch, ver, 3);
    hold(&mut g, tag, sys, |g| g.uid_body(sys));
    let w = g.w.clone();
    cx.say(|| format!("{tag:?} {ver:?} platform {sys}"));
    net_check(cx, &one(tag, ver, false, &w), Lvl::Any);
}

/// Unknown platforms in data that would be well formed if they had no identity at all, or that of
/// any known platform.
fn u_unknown(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&HOLDERS);
    let ver = ver_of(ch.of(&[10, 9, 0]));
    let sys = ch.pick(256) as u8;
    let like = ch.pick(KNOWN.len() + 2);
    if KNOWN.contains(&sys) {
        return;
    }
    let mut none = Ch::new(&[], 0);
    let mut g = G::new(&mut none, ver, 3);
    hold(&mut g, tag, sys, |g| match like {
        0 => {}
        1 => {
            g.int(8);
        }
        i => g.uid_body(KNOWN[i - 2]),
    });
    cx.say(|| format!("{tag:?} {ver:?} platform {sys}"));
    net_check(cx, &one(tag, ver, false, &g.w), Lvl::Any);
}

/// The known platforms, one or two fields off the default.
fn u_fields(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&HOLDERS);
    let ver = match ch.pick(if cx.thorough { 15 } else { 4 }) {
        0 => LAST_VER,
        1 => (868, 10, 0),
        2 => (868, 12, 0),
        3 => (868, 30, 9),
        i => ver_of(NETS[i - 3]),
    };
    let sys = ch.of(&KNOWN);
    let mut g = G::new(ch, ver, 3);
    g.long = true;
    hold(&mut g, tag, sys, |g| g.uid_body(sys));
    let w = g.w.clone();
    net_check(cx, &one(tag, ver, false, &w), Lvl::Any);
}

/// Every single bit of an identity flipped.
fn u_flip(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&HOLDERS);
    let ver = ver_of(ch.of(&NETS[..10]));
    let sys = ch.of(&KNOWN);
    let mut none = Ch::new(&[], 0);
    let mut g = G::new(&mut none, ver, 3);
    hold(&mut g, tag, sys, |g| g.uid_body(sys));
    let mut w = g.w;
    let i = ch.pick(w.n);
    w.bytes[i / 8] ^= 1 << (i % 8);
    net_check(cx, &one(tag, ver, false, &w), Lvl::Any);
}

/// PlayStation names: every length, what follows the terminator, every character.
fn u_names(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&HOLDERS);
    let ver = ver_of(ch.of(&[10, 0, 1]));
    let mut names: Vec<Vec<u8>> = vec![];
    match ch.pick(4) {
        3 => {
            // every pair of first characters, byte order marks among them
            let a = ch.pick(256) as u8;
            for b in 0..=255u8 {
                let mut v: Vec<u8> = (0..16).map(|i| b'A' + i as u8).collect();
                v[0] = a;
                v[1] = b;
                if (a, b) == (0xef, 0xbb) {
                    v[2] = 0xbf;
                }
                names.push(v);
            }
        }
        0 => {
            for n in 0..=16 {
                for fill in [0u8, b'z', 0x80, 0xff] {
                    let mut v: Vec<u8> = (0..n).map(|i| b'a' + i as u8).collect();
                    if n < 16 {
                        v.push(0);
                    }
                    v.resize(16, fill);
                    names.push(v);
                }
            }
        }
        1 => {
            for c in 0..=255u8 {
                let mut v = vec![c; 16];
                names.push(v.clone());
                v[7] = b'Q';
                names.push(v);
            }
        }
        _ => {
            // each pair of positions that are zero
            for i in 0..16 {
                for j in i..16 {
                    let mut v: Vec<u8> = (0..16).map(|i| b'A' + i as u8).collect();
                    v[i] = 0;
                    v[j] = 0;
                    names.push(v);
                }
            }
        }
    }
    let items: Vec<BitW> = names
        .iter()
        .enumerate()
        .map(|(i, nm)| {
            let mut none = Ch::new(&[], 0);
            let mut g = G::new(&mut none, ver, 3);
            hold(&mut g, tag, 2, |g| {
                g.w.raw(nm);
                for b in 0..if ver.2 >= 1 { 16 } else { 8 } {
                    g.w.u8(mix(b + i as u64 * 31) as u8);
                }
                g.w.u64(mix(i as u64)).u8(i as u8);
            });
            g.w
        })
        .collect();
    net_exact(cx, &packed(ver, tag, &items));
}

/// Split screen ids.
fn u_split(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&HOLDERS[..2]);
    let ver = ch.of(&[LAST_VER, (868, 10, 0)]);
    let full = cx.thorough && tag == Tag::UniqueId && ver == LAST_VER;
    let r = chunk(ch, 24, if full { 24 } else { 12 });
    let items: Vec<BitW> = r
        .map(|v| {
            let mut none = Ch::new(&[], 0);
            let mut g = G::new(&mut none, ver, 3);
            hold(&mut g, tag, 0, |g| {
                g.w.put(v, 24).u8(mix(v) as u8);
            });
            g.w
        })
        .collect();
    net_exact(cx, &packed(ver, tag, &items));
}

/// Names of split screen reservations: every length up to beyond the limit, every character.
fn u_guests(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 11, 0)]);
    let mut w = BitW::new();
    w.put(ch.pick(8) as u64, 3).u8(0).put(ch.of(&[1u64, 0x80_0000, 0]), 24).u8(5);
    match ch.pick(2) {
        0 => {
            let n = ch.pick(262);
            let c = ch.of(&[b'a', 0xe9]);
            for i in 0..n {
                w.u8(c.wrapping_add((i % 8) as u8));
            }
            w.u8(0);
        }
        _ => {
            let c = ch.pick(256) as u8;
            w.u8(b'x').u8(c).u8(b'y').u8(0);
        }
    }
    w.bit(true).bit(false);
    if ver >= (868, 12, 0) {
        w.put(0x2a, 6);
    }
    net_check(cx, &one(Tag::Reservation, ver, false, &w), Lvl::Any);
}

/// Small fields of a reservation: all values.
fn u_small(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 12, 0), (868, 11, 9), (868, 10, 0)]);
    let number = ch.pick(8) as u64;
    let flags = ch.pick(4) as u64;
    let items: Vec<BitW> = (0..64u64)
        .map(|u| {
            let mut w = BitW::new();
            w.put(number, 3).u8(1).u64(mix(u)).u8(u as u8);
            t("nm").bits(&mut w);
            w.put(flags, 2);
            if ver >= (868, 12, 0) {
                w.put(u, 6);
            }
            w
        })
        .collect();
    net_exact(cx, &packed(ver, Tag::Reservation, &items));
}

/// Cut at every byte, at every alignment.
fn u_cut(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&HOLDERS);
    let ver = ver_of(ch.of(&[10, 9, 0]));
    let sys = ch.of(&KNOWN);
    let fill = ch.pick(8);
    let mut none = Ch::new(&[], 0);
    let mut g = G::new(&mut none, ver, 3);
    hold(&mut g, tag, sys, |g| g.uid_body(sys));
    let pay = g.w;
    let w = W::new(ver, &[name_of(tag), name_of(Tag::Boolean)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for i in 0..fill {
        n.attr(2, w.largest).w.bit(i % 2 == 0);
    }
    n.attr(1, w.largest);
    let before = n.w.n.div_ceil(8);
    n.w.append(&pay);
    n.end_upd().end_frame();
    let b = n.bytes();
    let len = before + ch.pick(b.len() - before + 1);
    net_check(cx, &w.file(1, b[..len].to_vec()), Lvl::Any);
}

/// Two or three identities in a row.
fn u_rows(ch: &mut Ch, cx: &mut Cx) {
    let ver = ver_of(ch.of(&[10, 9, 0]));
    let w = W::new(ver, &[name_of(HOLDERS[0]), name_of(HOLDERS[1]), name_of(HOLDERS[2])]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    let m = if cx.thorough { 3 } else { 2 };
    for i in 0..m {
        let h = ch.pick(3);
        let sys = ch.of(&KNOWN);
        let mut none = Ch::new(&[], 0);
        let mut g = G::new(&mut none, ver, 3);
        g.n = 1000 * i;
        hold(&mut g, HOLDERS[h], sys, |g| g.uid_body(sys));
        n.attr(h as u32 + 1, w.largest).w.append(&g.w);
    }
    n.end_upd().end_frame();
    net_exact(cx, &w.file(1, n.bytes()));
}

/// Epic ids are texts.
fn u_epic(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&HOLDERS);
    let ver = ch.of(&[LAST_VER, (868, 10, 0)]);
    let x = match ch.pick(4) {
        0 => {
            // digits, capitals, small letters and marks, or blanks at the ends
            let n = ch.pick(1030);
            let mut v: Vec<u8> = (0..n).map(|i| b'0' + (i * 11 % 75) as u8).collect();
            if ch.flip() && n > 0 {
                v[0] = b' ';
                v[n - 1] = b' ';
            }
            Txt::W(v)
        }
        1 => {
            let n = ch.pick(520);
            Txt::U((0..n).map(|i| [0x391, 0x3b1, 0x41, 0x61, 0x130, 0xdf][i % 6]).collect())
        }
        2 => Txt::W(vec![b'a', ch.pick(256) as u8, b'b']),
        _ => Txt::Raw(ch.of(&I32S), vec![b'q'; 1100]),
    };
    let mut none = Ch::new(&[], 0);
    let mut g = G::new(&mut none, ver, 3);
    hold(&mut g, tag, 11, |g| {
        x.bits(&mut g.w);
        g.w.u8(9);
    });
    net_check(cx, &one(tag, ver, false, &g.w), Lvl::Any);
}

pub fn c22() -> Vec<Fam> {
    vec![
        f("all", 0, u_all),
        f("unknown", 0, u_unknown),
        f("fields", 2, u_fields),
        f("flip", 0, u_flip),
        f("names", 0, u_names),
        f("split", 0, u_split),
        f("guests", 0, u_guests),
        f("small", 0, u_small),
        f("cut", 0, u_cut),
        f("rows", 0, u_rows),
        f("epic", 0, u_epic),
        f("real", 0, n_real),
    ]
}

// ---------------------------------------------------------------- C23

fn loadout_bits(w: &mut BitW, v: u8, salt: u64) {
    w.u8(v);
    let n = 7 + (v >= 11) as u64
        + 3 * (v >= 16) as u64
        + (v >= 17) as u64
        + (v >= 19) as u64
        + 3 * (v >= 22) as u64;
    for i in 0..n {
        w.u32(mix(salt * 64 + i) as u32);
    }
}

/// Every loadout version.
fn l_versions(ch: &mut Ch, cx: &mut Cx) {
    let ver = VERS[ch.pick(VERS.len())];
    let v = ch.pick(256) as u8;
    let mut w = BitW::new();
    loadout_bits(&mut w, v, v as u64);
    net_exact(cx, &one(Tag::Loadout, ver, false, &w));
}

/// Each pair of versions of the two teams.
fn l_teams(ch: &mut Ch, cx: &mut Cx) {
    let a = ch.pick(256) as u8;
    let items: Vec<BitW> = (0..=255u8)
        .map(|b| {
            let mut w = BitW::new();
            loadout_bits(&mut w, a, 1);
            loadout_bits(&mut w, b, 2);
            w
        })
        .collect();
    net_exact(cx, &packed(LAST_VER, Tag::TeamLoadout, &items));
}

/// Each field with special values.
fn l_fields(ch: &mut Ch, cx: &mut Cx) {
    let team = ch.flip();
    let ver = VERS[ch.pick(3)];
    let mut g = G::new(ch, ver, 3);
    g.attr(if team { Tag::TeamLoadout } else { Tag::Loadout });
    let w = g.w.clone();
    net_exact(cx, &one(if team { Tag::TeamLoadout } else { Tag::Loadout }, ver, false, &w));
}

fn l_cut(ch: &mut Ch, cx: &mut Cx) {
    let v = ch.of(&[0u8, 10, 11, 15, 16, 17, 18, 19, 21, 22, 28, 255]);
    let mut pay = BitW::new();
    loadout_bits(&mut pay, v, 3);
    let w = W::new(LAST_VER, &[name_of(Tag::Loadout), name_of(Tag::Boolean)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for i in 0..ch.pick(8) {
        n.attr(2, w.largest).w.bit(i % 2 == 0);
    }
    n.attr(1, w.largest);
    let before = n.w.n.div_ceil(8);
    n.w.append(&pay);
    let b = n.bytes();
    let len = before + ch.pick(b.len() - before + 1);
    net_check(cx, &w.file(1, b[..len].to_vec()), Lvl::Any);
}

const O_VERS: [Ver; 9] = [
    LAST_VER, (868, 17, 0), (868, 18, 0), (868, 23, 8), (868, 23, 7), (868, 22, 99), (868, 24, 0), (866, 40, 10), (869, 0, 0),
];

/// Product kinds with their values.
fn o_kinds(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&O_VERS);
    let kind = ch.pick(9);
    let mut g = G::new(ch, ver, 3);
    g.long = true;
    g.w.u8(1).u8(2);
    g.product(kind);
    g.product(3);
    let w = g.w.clone();
    net_check(cx, &one(Tag::LoadoutOnline, ver, false, &w), Lvl::Any);
}

/// All values of the older, bounded encodings.
fn o_old(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[(868, 17, 0), (868, 10, 0), (867, 99, 0), (868, 18, -1)]);
    let obj = 3 + ch.of(&[1, 4]);
    let items: Vec<BitW> = (0..16u64)
        .map(|v| {
            let mut w = BitW::new();
            w.u8(1).u8(1).bit(v % 2 == 0).i32(obj).put(v, 4);
            // makes up for the bit that larger values do not have
            w
        })
        .collect();
    let i = ch.pick(16);
    net_check(cx, &one(Tag::LoadoutOnline, ver, false, &items[i]), Lvl::Any);
    let mut w = BitW::new();
    w.u8(1).u8(14);
    for v in 0..14 {
        w.bit(true).i32(obj).bounded(v, 14);
    }
    net_check(cx, &one(Tag::LoadoutOnline, ver, false, &w), Lvl::Any);
}

/// Every value near a power of two of the wide encodings.
fn o_wide(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&O_VERS);
    let kind = ch.pick(5);
    let b = ch.pick(33);
    let mut w = BitW::new();
    let vals: Vec<u64> = [-1i64, 0, 1].iter().map(|d| (1i64 << b).wrapping_add(*d) as u64 & 0xffff_ffff).collect();
    w.u8(vals.len() as u8);
    for v in vals {
        w.u8(1).bit(true).i32(3 + kind as i32);
        let v31 = v & 0x7fff_ffff;
        match kind {
            0 if ver >= (868, 23, 8) => w.put(v, 32),
            0 => w.bit(true).put(v31, 31),
            1 | 4 if ver < (868, 18, 0) => w.bounded(v % 14, 14),
            2 => {
                t(&v.to_string()).bits(&mut w);
                &mut w
            }
            _ => w.put(v31, 31),
        };
    }
    net_exact(cx, &one(Tag::LoadoutOnline, ver, false, &w));
}

/// All small nestings of products of different kinds.
fn o_shapes(ch: &mut Ch, cx: &mut Cx) {
    let ver = O_VERS[ch.pick(2)];
    let slots = ch.pick(4);
    let mut none = Ch::new(&[], 0);
    let mut g = G::new(&mut none, ver, 3);
    g.w.u8(slots as u8);
    let kinds = if cx.thorough { 6 } else { 3 };
    for _ in 0..slots {
        let m = ch.pick(3);
        g.w.u8(m as u8);
        for _ in 0..m {
            let kd = ch.of(&[5usize, 2, 0, 1, 3, 4][..kinds]);
            g.product(kd);
        }
    }
    let w = g.w.clone();
    net_exact(cx, &one(Tag::LoadoutOnline, ver, false, &w));
    if slots < 3 {
        let mut d = w.clone();
        d.append(&w).bit(true).bit(false);
        net_exact(cx, &one(Tag::LoadoutsOnline, ver, false, &d));
    }
}

/// Many slots, many products.
fn o_counts(ch: &mut Ch, cx: &mut Cx) {
    const SIZES: [usize; 14] = [2, 3, 7, 8, 9, 31, 32, 33, 64, 127, 128, 129, 254, 255];
    // a list of any size at one place, or lists of one size
    let (slots, m, at) = match ch.pick(3) {
        0 => (ch.pick(256), 1, None),
        1 => (2, ch.pick(256), None),
        _ => {
            let slots = ch.of(&[3usize, 4, 5, 9, 21, 30, 128, 255]);
            (slots, ch.of(&SIZES), Some(ch.of(&[0, 1, 2, 3, 7, slots / 2, slots - 1])))
        }
    };
    let mut none = Ch::new(&[], 0);
    let mut g = G::new(&mut none, LAST_VER, 3);
    g.w.u8(slots as u8);
    for i in 0..slots {
        let m = if at.is_some_and(|a| a != i) { i % 2 } else { m };
        g.w.u8(m as u8);
        for j in 0..m {
            g.product((i + j) % 6);
        }
    }
    let w = g.w.clone();
    net_exact(cx, &one(Tag::LoadoutOnline, LAST_VER, false, &w));
}

/// Which product classes the replay knows, where, and how often; products name any object.
fn o_objects(ch: &mut Ch, cx: &mut Cx) {
    let ver = O_VERS[ch.pick(3)];
    let mask = ch.pick(32);
    let first = ch.pick(3);
    let twice = ch.pick(2);
    let mut objs: Vec<&str> = vec![];
    let classes: Vec<&str> = (0..5).filter(|i| mask >> i & 1 == 1).map(|i| PRODUCTS[i]).collect();
    match first {
        0 => objs.extend([PRI, name_of(Tag::LoadoutOnline), name_of(Tag::Enum)]),
        1 => {
            // a product class is object 0
            objs.extend(&classes);
            objs.extend([PRI, name_of(Tag::LoadoutOnline), name_of(Tag::Enum)]);
        }
        _ => {
            objs.extend(classes.iter().rev());
            objs.extend(["tagame.productattribute_painted_ta", PRI, name_of(Tag::LoadoutOnline), name_of(Tag::Enum)]);
        }
    }
    if first == 0 || twice == 1 {
        objs.extend(&classes);
    }
    let at = |n: &str| objs.iter().position(|x| *x == n).unwrap() as i32;
    let (pri, lo, en) = (at(PRI), at(name_of(Tag::LoadoutOnline)), at(name_of(Tag::Enum)));
    let obj = ch.pick(objs.len() + 2) as i32 - 1;
    let mut r = Rep::new().with_ver(ver).objs(&objs);
    r.cache = vec![(pri, 0, 0, vec![(lo, 1), (en, 2)])];
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5).new_actor(3, 1, pri);
    n.upd(3).attr(1, 2).w.u8(1).u8(1).bit(true).i32(obj);
    let kind = objs.get(obj as usize).and_then(|o| PRODUCTS.iter().position(|p| p == o));
    // the first object of the name is the class
    let kind = kind.filter(|k| at(PRODUCTS[*k]) == obj);
    match kind {
        Some(0) if ver >= (868, 23, 8) => { n.w.u32(0x8765_4321); }
        Some(0) => { n.w.bit(true).put(0x1234_5678, 31); }
        Some(1) | Some(4) if ver < (868, 18, 0) => { n.w.bounded(9, 14); }
        Some(2) => t("title").bits(&mut n.w),
        Some(_) => { n.w.put(0x2345_6789, 31); }
        None => {}
    }
    n.attr(2, 2).w.put(0x5a5, 11);
    n.end_upd().end_frame();
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    cx.say(|| format!("{ver:?} {objs:?} product {obj}"));
    net_exact(cx, &r.bytes());
}

fn o_cut(ch: &mut Ch, cx: &mut Cx) {
    let ver = O_VERS[ch.pick(5)];
    let team = ch.flip();
    let tag = if team { Tag::LoadoutsOnline } else { Tag::LoadoutOnline };
    let w = W::new(ver, &[name_of(tag), name_of(Tag::Boolean)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for i in 0..ch.pick(8) {
        n.attr(2, w.largest).w.bit(i % 2 == 0);
    }
    n.attr(1, w.largest);
    let before = n.w.n.div_ceil(8);
    n.w.append(&default_attr(tag, ver, w.product0, false));
    n.end_upd().end_frame();
    let b = n.bytes();
    let len = before + ch.pick(b.len() - before + 1);
    net_check(cx, &w.file(1, b[..len].to_vec()), Lvl::Any);
}

/// Both teams' product lists, a few fields off.
fn o_teams(ch: &mut Ch, cx: &mut Cx) {
    let ver = O_VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    let mut g = G::new(ch, ver, 3);
    g.attr(Tag::LoadoutsOnline);
    let w = g.w.clone();
    net_check(cx, &one(Tag::LoadoutsOnline, ver, false, &w), Lvl::Any);
}

pub fn c23() -> Vec<Fam> {
    vec![
        f("versions", 0, l_versions),
        f("teams", 0, l_teams),
        f("fields", 2, l_fields),
        f("cut", 0, l_cut),
        f("kinds", 2, o_kinds),
        f("old", 0, o_old),
        f("wide", 0, o_wide),
        f("shapes", 0, o_shapes),
        f("counts", 0, o_counts),
        f("objects", 0, o_objects),
        f("products_cut", 0, o_cut),
        f("products_teams", 1, o_teams),
        f("real", 0, n_real),
    ]
}

// ---------------------------------------------------------------- C24

const MAJORS: [i32; 10] = [868, 0, 1, 865, 866, 867, 869, i32::MAX, -1, i32::MIN];
const MINORS: [i32; 20] = [
    32, 0, 1, 9, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, i32::MAX, -1,
];
const NETVS: [i32; 14] = [10, 0, 1, 2, 5, 6, 7, 8, 9, 11, i32::MAX, -1, i32::MIN, -1000];

/// Kinds whose layout depends on a version.
const PROBES: [Tag; 15] = [
    Tag::CamSettings, Tag::GameMode, Tag::Reservation, Tag::LoadoutOnline, Tag::LoadoutsOnline, Tag::Location,
    Tag::RigidBody, Tag::UniqueId, Tag::PartyLeader, Tag::QWordString, Tag::Explosion, Tag::Welded, Tag::DamageState,
    Tag::Demolish, Tag::ExtendedExplosion,
];
const BUILDS: [Option<&str>; 10] = [
    None, Some("221120.42953.406184"), Some("221120.42953.406183"), Some("221120.42953.406185"), Some("221119.99999.999999"),
    Some("221121.0.0"), Some(""), Some("221120.42953.40618"), Some("221120.42953.4061840"), Some("99"),
];
const MATCHES: [Option<&str>; 7] = [None, Some("Lan"), Some("Online"), Some("lan"), Some("LAN"), Some(""), Some("Lan ")];

struct Setup {
    ver: Ver,
    net: i32,
    lan: Option<&'static str>,
    build: Option<&'static str>,
    as_name: bool,
}

/// A replay whose header says `s` and whose contents are laid out for `as_ver`.
fn layouted(s: &Setup, as_ver: Ver, as_lan: bool, as_rl: bool, probes: &[Tag]) -> Vec<u8> {
    let names: Vec<&str> = probes.iter().map(|t| name_of(*t)).chain([name_of(Tag::Enum)]).collect();
    let mut w = W::new((s.ver.0, s.ver.1, s.net), &names);
    let txt = |x: &str| if s.as_name { P::Name(t(x)) } else { P::Str(t(x)) };
    w.rep.props.push(k("Flag", P::Bool(1)));
    w.rep.props.push(k("Plat", P::Byte(b"OnlinePlatform".to_vec(), b"X".to_vec())));
    if let Some(x) = s.lan {
        w.rep.props.push(k("MatchType", txt(x)));
    }
    if let Some(x) = s.build {
        w.rep.props.push(k("BuildVersion", txt(x)));
    }
    let mut n = Net::new(1023, as_ver, as_lan);
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    for (i, p) in probes.iter().enumerate() {
        n.attr(i as u32 + 1, w.largest).w.append(&default_attr(*p, as_ver, w.product0, as_rl));
        n.attr(w.largest as u32, w.largest).w.put(0x5a5, 11);
    }
    n.end_upd().new_actor(4, 2, 0).end_frame();
    n.frame(1.5, 0.5).end_frame();
    w.file(2, n.bytes())
}

/// Everything that depends on a version at once, for each version triplet.
pub fn x_lattice(ch: &mut Ch, cx: &mut Cx) {
    let major = ch.of(&MAJORS);
    let minor = ch.of(&MINORS);
    let net = if major > 865 && minor > 17 { ch.of(&NETVS) } else { ch.of(&NETVS[..1]) };
    let s = Setup { ver: (major, minor, 0), net, lan: None, build: None, as_name: false };
    let ver = (major, minor, if major > 865 && minor > 17 { net } else { 0 });
    cx.say(|| format!("{ver:?}"));
    let d = layouted(&s, ver, false, false, &PROBES);
    check(cx, &d, CrcCheck::Always, NetworkParse::Always, Part::All, Lvl::Any);
    // as the network data of neighbouring versions would look
    for other in [LAST_VER, (868, 10, 0), (868, 20, 5), (868, 18, 7), (868, 12, 0), (868, 14, 2), (868, 23, 8)] {
        let d = layouted(&s, other, false, false, &PROBES);
        check(cx, &d, CrcCheck::Always, NetworkParse::Always, Part::All, Lvl::Any);
    }
}

/// The same, one kind at a time.
fn x_each(ch: &mut Ch, cx: &mut Cx) {
    let major = ch.of(&[868, 867, 869]);
    let minor = ch.of(&MINORS);
    let net = if minor > 17 { ch.of(&NETVS) } else { 10 };
    let p = ch.of(&PROBES);
    let s = Setup { ver: (major, minor, 0), net, lan: None, build: None, as_name: false };
    let ver = (major, minor, if minor > 17 { net } else { 0 });
    net_exact(cx, &layouted(&s, ver, false, false, &[p]));
}

/// Every minor version and every net version that is small.
fn x_dense(ch: &mut Ch, cx: &mut Cx) {
    let major = ch.of(&[868, 866, 867]);
    let minor = ch.pick(40) as i32;
    let net = if minor > 17 { ch.pick(14) as i32 } else { 0 };
    let ver = (major, minor, net);
    let s = Setup { ver, net, lan: None, build: None, as_name: false };
    let d = layouted(&s, ver, false, false, &PROBES);
    check(cx, &d, CrcCheck::Always, NetworkParse::Always, Part::All, Lvl::Any);
}

/// Match types.
pub fn x_lan(ch: &mut Ch, cx: &mut Cx) {
    let minor = ch.of(&[13, 14, 15, 18, 19, 20, 21, 0]);
    let major = ch.of(&[868, 867, 869]);
    let net = ch.of(&[0, 5, 10, -1]);
    let lan = ch.of(&MATCHES);
    let s = Setup { ver: (major, minor, 0), net, lan, build: None, as_name: ch.flip() };
    let ver = (major, minor, if minor > 17 { net } else { 0 });
    for as_lan in [false, true] {
        let d = layouted(&s, ver, as_lan, false, &[Tag::Byte]);
        check(cx, &d, CrcCheck::Always, NetworkParse::Always, Part::All, Lvl::Any);
    }
}

/// Build versions.
fn x_build(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 10, 0), (868, 20, 5)]);
    let build = ch.of(&BUILDS);
    let as_name = ch.flip();
    let s = Setup { ver, net: ver.2, lan: None, build, as_name };
    let rl = ch.flip();
    net_check(cx, &layouted(&s, ver, false, rl, &[Tag::QWordString, Tag::Int64]), Lvl::Any);
}

/// All texts one letter away from `of`.
fn near(of: &str) -> Vec<&'static str> {
    let letters = [' ', '\0', '.', ',', '0', '1', '2', '3', '9', '+', '-', 'v', 'V', 'a', 'n', 'A', 'L', 'l', '\t', '\n', '\u{e9}', '\u{131}'];
    let at: Vec<usize> = (0..=of.len()).collect();
    let mut v: Vec<String> = vec![];
    for &i in &at {
        let (a, b) = of.split_at(i);
        v.push(a.to_string());
        v.push(b.to_string());
        v.push(format!("{a}{}", b.get(1..).unwrap_or("")));
        for c in letters {
            v.push(format!("{a}{c}{b}"));
            v.push(format!("{a}{c}{}", b.get(1..).unwrap_or("")));
        }
    }
    v.sort();
    v.dedup();
    v.into_iter().map(|x| &*x.leak()).collect()
}

/// Build versions and match types one letter away from those that count.
fn x_near(ch: &mut Ch, cx: &mut Cx) {
    static NEAR: std::sync::OnceLock<[Vec<&str>; 2]> = std::sync::OnceLock::new();
    let near = NEAR.get_or_init(|| [near("221120.42953.406184"), near("Lan")]);
    let as_name = ch.flip();
    let (ver, ours) = if ch.flip() {
        let lan = Some(ch.of(&near[1]));
        ((868, 18, 7), Setup { ver: (868, 18, 7), net: 7, lan, build: None, as_name })
    } else {
        let build = Some(ch.of(&near[0]));
        (LAST_VER, Setup { ver: LAST_VER, net: LAST_VER.2, lan: None, build, as_name })
    };
    cx.say(|| format!("{:?} {:?}", ours.lan, ours.build));
    let other = ch.flip();
    net_check(cx, &layouted(&ours, ver, other && ours.lan.is_some(), other && ours.lan.is_none(), &[Tag::QWordString, Tag::Int64]), Lvl::Any);
}

/// Properties that decide something but have another kind, or come twice.
fn x_kinds(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 14, 0), (868, 20, 5)]);
    let key = ch.of(&["MatchType", "BuildVersion", "MaxChannels", "NumFrames", "matchtype", "MatchType "]);
    let vals = [
        P::Str(t("Lan")), P::Name(t("Lan")), P::Int(7), P::Bool(1), P::Float(0x4000_0000), P::QWord(2),
        P::Byte(b"Lan".to_vec(), b"Lan".to_vec()), P::Str(t("221120.42953.406184")), P::Arr(vec![]), P::Str(Txt::U(vec![0x4c, 0x61, 0x6e])),
        P::ByteNone(1), P::Arr(vec![vec![k(key, P::Str(t("Lan")))]]), P::Int(1023), P::Int(2047),
    ];
    let a = vals[ch.pick(vals.len())].clone();
    let b = vals[ch.pick(vals.len())].clone();
    let (rl, lan) = (ch.flip(), ch.flip());
    let mut w = W::new(ver, &[name_of(Tag::QWordString), name_of(Tag::Enum)]);
    w.rep.props.push(k(key, a));
    w.rep.props.push(k(key, b));
    let mut n = Net::new(1023, ver, lan);
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3).attr(1, 2).w.append(&default_attr(Tag::QWordString, ver, 3, rl));
    n.attr(2, 2).w.put(0x5a5, 11);
    n.end_upd().end_frame();
    net_check(cx, &w.file(1, n.bytes()), Lvl::Any);
}

/// Headers: which versions carry a net version, which have the old property layout.
fn x_header(ch: &mut Ch, cx: &mut Cx) {
    let major = ch.of(&MAJORS);
    let minor = ch.of(&MINORS);
    let net = ch.of(&[0, 10, -1, 868]);
    let written = ch.pick(3);
    let mut r = Rep::new().with_ver((major, minor, net));
    r.props = vec![
        k("B", P::Bool(1)), k("By", P::Byte(b"Kind".to_vec(), b"Value".to_vec())), k("N", P::ByteNone(3)), k("I", P::Int(-5)),
        k("A", P::Arr(vec![vec![k("B", P::Bool(0)), k("B2", P::Byte(b"K".to_vec(), b"V".to_vec()))]])),
    ];
    if r.quirks() {
        r.props.remove(2);
    }
    // or laid out as another version would
    let h = match written {
        0 => r.head_bytes(),
        1 => {
            let mut q = r.clone().with_ver((868, 32, net));
            if q.props.len() == 4 {
                q.props.pop();
            }
            let mut h = q.head_bytes();
            h[..4].copy_from_slice(&major.to_le_bytes());
            h[4..8].copy_from_slice(&minor.to_le_bytes());
            h
        }
        _ => {
            let mut q = r.clone().with_ver((0, 0, 0));
            q.props.retain(|p| !matches!(p.1, P::ByteNone(_)));
            let mut h = q.head_bytes();
            h[..4].copy_from_slice(&major.to_le_bytes());
            h[4..8].copy_from_slice(&minor.to_le_bytes());
            h
        }
    };
    let d = file(&h, &r.body_bytes());
    check(cx, &d, CrcCheck::Always, NetworkParse::Always, Part::All, Lvl::Any);
}

/// Identities of all platforms under all versions.
fn x_systems(ch: &mut Ch, cx: &mut Cx) {
    let major = ch.of(&[868, 867, 869, i32::MAX]);
    let minor = ch.of(&[18, 19, 20, 22, 32, i32::MAX]);
    let net = ch.of(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 1000, 65_536, i32::MAX, -1, -2, -9, -10, -100, -1000, -65_536, i32::MIN]);
    let tag = ch.of(&HOLDERS);
    let sys = ch.of(&KNOWN);
    let ver = (major, minor, net);
    let mut none = Ch::new(&[], 0);
    let mut g = G::new(&mut none, ver, 3);
    hold(&mut g, tag, sys, |g| g.uid_body(sys));
    cx.say(|| format!("{tag:?} {ver:?} platform {sys}"));
    net_check(cx, &one(tag, ver, false, &g.w), Lvl::Any);
}

pub fn c24() -> Vec<Fam> {
    vec![
        f("systems", 0, x_systems),
        f("lattice", 0, x_lattice),
        f("each", 0, x_each),
        f("dense", 0, x_dense),
        f("lan", 0, x_lan),
        f("build", 0, x_build),
        f("near", 0, x_near),
        f("kinds", 0, x_kinds),
        f("header", 0, x_header),
        f("real", 0, n_real),
    ]
}

// ---------------------------------------------------------------- C25

/// The layout the nearest of the classes that are there prescribes.
fn nearest(objs: &[&str]) -> Spawn {
    objs.iter().find_map(|o| spawns().get(o).copied()).unwrap_or(Spawn::None)
}

/// A replay that spawns `class` (object 0) with its ancestors `with` in the object list.
fn spawn_of(cx: &mut Cx, class: &str, with: &[&str], order: bool, ver: Ver, declare: usize) {
    let e = name_of(Tag::Enum);
    let mut objs = vec![class, e];
    objs.extend(with);
    if order {
        objs.reverse();
    }
    let at = |n: &str| objs.iter().position(|x| *x == n).unwrap() as i32;
    let mut r = Rep::new().with_ver(ver).objs(&objs);
    // attributes of its own, of the farthest ancestor, or none
    match declare {
        0 => r.cache.push((at(class), 0, 0, vec![(at(e), 1)])),
        1 => r.cache.push((at(with.last().copied().unwrap_or(class)), 0, 0, vec![(at(e), 1)])),
        _ => {}
    }
    let mut line = vec![class];
    line.extend(with);
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5).new_actor(3, 77, at(class));
    put_traj(&mut n, nearest(&line));
    n.upd(3).attr(1, 1).w.put(0x5a5, 11);
    n.end_upd().end_frame();
    n.w.u64(0).u64(0);
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Every class with every subset of its ancestors.
fn t_subsets(ch: &mut Ch, cx: &mut Cx) {
    let class = PARENTS[ch.pick(PARENTS.len())].0;
    let anc = &chain(class)[1..];
    let n = anc.len().min(if cx.thorough { 10 } else { 6 });
    let with: Vec<&str> = (0..anc.len()).filter(|i| if *i < n { ch.flip() } else { *i + 1 == anc.len() }).map(|i| anc[i]).collect();
    let order = ch.flip();
    let declare = ch.pick(3);
    cx.say(|| format!("{class} with {with:?}"));
    spawn_of(cx, class, &with, order, LAST_VER, declare);
}

/// Every class and every class with a layout of its own: related or not.
fn t_layouts(ch: &mut Ch, cx: &mut Cx) {
    let mut all: Vec<&'static str> = PARENTS.iter().map(|p| p.0).chain(PARENTS.iter().map(|p| p.1)).chain(SPAWNS.iter().map(|s| s.0)).collect();
    all.sort();
    all.dedup();
    let class = all[ch.pick(all.len())];
    let (other, _) = SPAWNS[ch.pick(SPAWNS.len())];
    let ver = ch.of(&[LAST_VER, (868, 10, 0)]);
    if other == class {
        return spawn_of(cx, class, &[], false, ver, 0);
    }
    let e = name_of(Tag::Enum);
    let mut r = Rep::new().with_ver(ver).objs(&[other, e, class]);
    r.cache.push((2, 0, 0, vec![(1, 1)]));
    let related = chain(class)[1..].contains(&other) && parents().contains_key(normalize(other));
    let line: Vec<&str> = if related { vec![class, other] } else { vec![class] };
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5).new_actor(3, 77, 2);
    put_traj(&mut n, nearest(&line));
    n.upd(3).attr(1, 1).w.put(0x5a5, 11);
    n.end_upd().end_frame();
    n.w.u64(0).u64(0);
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// The bit between name and object has no meaning.
fn put_spawn(n: &mut Net, id: u32, name: i32, bit: bool, obj: i32) {
    n.w.bit(true).bounded(id as u64, n.max_ch as u64).bit(true).bit(true);
    if n.named {
        n.w.i32(name);
    }
    n.w.bit(bit).i32(obj);
}

/// Location and rotation of every layout, a few of their numbers off, with what comes before and after.
fn t_traj(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 10, 0), (868, 20, 6)]);
    let class = ch.of(&["TAGame.Ball_TA", "TAGame.Team_TA", PRI]);
    let with = ["TAGame.RBActor_TA", "Engine.Actor"];
    let mut r = Rep::new().with_ver(ver).objs(&[class, name_of(Tag::Enum), with[0], with[1]]);
    r.names = (0..ch.pick(3)).map(|i| t(&format!("n{i}"))).collect();
    r.cache = vec![(0, 0, 0, vec![(1, 1)])];
    let s = nearest(&chain(class).into_iter().filter(|c| *c == class || with.contains(c)).collect::<Vec<_>>());
    let bit = ch.flip();
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5);
    for i in 0..2 {
        let name = ch.devof(&[1i32, 0, -1, 2, 3, 77, i32::MIN]);
        put_spawn(&mut n, 3 + i, name, bit, 0);
        let mut g = G::new(ch, ver, 3);
        g.n = 100 * i as u64;
        if s != Spawn::None {
            g.vec();
        }
        if s == Spawn::LocationAndRotation {
            g.rot();
        }
        n.w.append(&g.w);
    }
    n.upd(3).attr(1, 1).w.put(0x5a5, 11);
    n.end_upd().end_frame();
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = n.bytes();
    net_exact(cx, &r.bytes());
}

/// Rotations of spawned actors: every mask with the bytes that matter.
fn t_rots(ch: &mut Ch, cx: &mut Cx) {
    const BYTES: [Option<i8>; 9] = [None, Some(0), Some(1), Some(-1), Some(127), Some(-128), Some(64), Some(-64), Some(0x55)];
    let ver = ch.of(&[LAST_VER, (868, 10, 0), (868, 20, 6)]);
    let (class, size) = (ch.of(&["TAGame.Ball_TA", "TAGame.Car_TA"]), ch.pick(20) as u32);
    let mut r = Rep::new().with_ver(ver).objs(&[class, name_of(Tag::Enum), "TAGame.RBActor_TA", "Engine.Actor"]);
    r.cache = vec![(0, 0, 0, vec![(1, 1)])];
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5);
    for i in 0..9usize.pow(3) {
        n.new_actor(i as u32, 1, 0);
        let m = (1u64 << (size + 2)) - 1;
        n.vec(size, mix(i as u64) & m, i as u64 & m, m - (i as u64 & m));
        n.rot([BYTES[i % 9], BYTES[i / 9 % 9], BYTES[i / 81]]);
    }
    n.end_frame();
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = n.bytes();
    net_exact(cx, &r.bytes());
}

/// Object ids of spawned actors: those there are and those around.
fn t_objects(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 10, 0), (868, 14, 0)]);
    let len = ch.of(&[1usize, 2, 3, 7, 8, 64, 255, 256, 257]);
    let mut objs: Vec<String> = vec![PRI.to_string(), name_of(Tag::Enum).to_string()];
    objs.extend((2..len).map(|i| if i % 2 == 0 { format!("Verif.C{i}") } else { PRI.to_string() }));
    objs.truncate(len);
    let cand = [0i64, 1, 2, len as i64 - 1, len as i64, len as i64 + 1, -1, -2, i32::MAX as i64, i32::MIN as i64, 1 << 16, (1 << 16) + 1, 256, 255, 1 << 24];
    let obj = cand[ch.pick(cand.len())] as i32;
    let mut r = Rep::new().with_ver(ver).objs(&objs);
    r.cache = (0..len as i32).filter(|i| i % 3 != 1 || *i == obj && ch.flip()).map(|i| (i, 0, i, vec![((len > 1) as i32, 1)])).collect();
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5);
    put_spawn(&mut n, 3, 77, ch.flip(), obj);
    if ch.flip() {
        n.upd(3).attr(1, 1).w.put(0x5a5, 11);
        n.end_upd();
    }
    n.end_frame();
    n.w.u64(0);
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Classes at the ends and around powers of two of lists as long as they may be, each spawned.
fn t_far(ch: &mut Ch, cx: &mut Cx) {
    let n = ch.of(if cx.thorough { &[25_000usize, 10_001, 24_999, 20_000, 16_385, 4097, 1025][..] } else { &[25_000, 10_001] });
    let class = ch.of(&["TAGame.RBActor_TA", PRI, "Archetypes.Ball.Ball_Default", "TAGame.Ball_TA", "TheWorld:PersistentLevel.CrowdActor_TA_77"]);
    let ver = if ch.flip() { LAST_VER } else { (868, 10, 0) };
    let filler = ch.of(&["x", "TAGame.RBActor_TA", "Engine.Actor"]);
    let mut objs = vec![filler; n];
    objs[1] = name_of(Tag::Enum);
    let mut at: Vec<usize> = (8..15).flat_map(|b| [(1 << b) - 1, 1 << b]).chain([2, n / 2, n - 2, n - 1]).filter(|x| *x < n).collect();
    at.sort();
    at.dedup();
    // only the first of a name is a class; one here, one there
    let one = ch.pick(at.len());
    let first = at[one];
    for x in &at[one..] {
        objs[*x] = class;
    }
    if class == filler {
        return;
    }
    let mut r = Rep::new().with_ver(ver).objs(&objs);
    r.cache = vec![(first as i32, 0, 0, vec![(1, 1)])];
    if chain(filler).len() > 1 {
        r.cache.push((0, 0, 0, vec![(1, 2)]));
    }
    let line: Vec<&str> = chain(class).into_iter().filter(|x| *x == class || *x == filler).collect();
    let mut net = Net::new(1023, ver, false);
    net.frame(1.0, 0.5).new_actor(3, 1, first as i32);
    put_traj(&mut net, nearest(&line));
    net.upd(3).attr(1, 2).w.put(0x5a5, 11);
    net.end_upd().end_frame();
    let last = if ch.flip() { at[at.len() - 1] } else { first };
    net.frame(2.0, 0.5).new_actor(4, 2, last as i32);
    put_traj(&mut net, nearest(&line));
    net.w.u64(0);
    r.props.push(k("NumFrames", P::Int(2)));
    r.network = net.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Every object of a long list spawned in turn.
fn t_many(ch: &mut Ch, cx: &mut Cx) {
    let classes: Vec<&str> = PARENTS.iter().map(|p| p.0).collect();
    let e = name_of(Tag::Enum);
    let chunk = 40;
    let c = ch.pick(classes.len().div_ceil(chunk));
    let rev = ch.flip();
    let ver = ch.of(&[LAST_VER, (868, 10, 0)]);
    let mut objs = vec![e];
    objs.extend(&classes);
    if rev {
        objs.reverse();
    }
    let mut r = Rep::new().with_ver(ver).objs(&objs);
    let at = |n: &str| objs.iter().position(|x| *x == n).unwrap() as i32;
    r.cache = (0..objs.len() as i32).filter(|i| *i != at(e)).map(|i| (i, 0, i, vec![(at(e), 1)])).collect();
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5);
    for (i, class) in classes.iter().enumerate().skip(c * chunk).take(chunk) {
        let line: Vec<&str> = chain(class).into_iter().filter(|x| objs.contains(x)).collect();
        n.new_actor(i as u32, i as i32 * 3, at(class));
        put_traj(&mut n, nearest(&line));
        n.upd(i as u32).attr(1, 1).w.put(i as u64, 11);
        n.end_upd();
    }
    n.end_frame();
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = n.bytes();
    net_exact(cx, &r.bytes());
}

/// Name ids: every version that has them or not, all sorts of values.
fn t_names(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[(868, 13, 0), (868, 14, 0), (868, 14, 1), (868, 19, 9), (868, 20, 0), (868, 20, -1), LAST_VER, (867, 30, 10), (869, 0, 0)]);
    let lan = ch.flip();
    let mut w = W::new(ver, &[name_of(Tag::Enum)]);
    if lan {
        w.rep.props.push(k("MatchType", P::Name(t("Lan"))));
    }
    let mut n = Net::new(1023, w.rep.ver(), lan);
    n.frame(1.0, 0.5);
    for (i, v) in I32S.iter().chain(&[i32::MIN + 1, 0x0102_0304]).enumerate() {
        n.new_actor(i as u32, *v, 0);
    }
    n.end_frame();
    net_exact(cx, &w.file(1, n.bytes()));
    // the bit that follows the name has no meaning
    let mut n = Net::new(1023, w.rep.ver(), lan);
    n.frame(1.0, 0.5);
    n.w.bit(true).bounded(9, 1023).bit(true).bit(true);
    if n.named {
        n.w.i32(5);
    }
    n.w.bit(ch.flip()).i32(0);
    n.end_frame();
    net_exact(cx, &w.file(1, n.bytes()));
}

/// Spawn records cut short at every byte and alignment.
fn t_cut(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 10, 0)]);
    let class = ch.of(&["TAGame.Ball_TA", "TAGame.Team_TA", PRI]);
    let mut r = Rep::new().with_ver(ver).objs(&[class, name_of(Tag::Enum), "TAGame.RBActor_TA", "Engine.Actor", PRI]);
    r.cache = vec![(0, 0, 0, vec![(1, 1)]), (4, 0, 0, vec![(1, 1)])];
    let mut n = Net::new(1023, ver, false);
    n.frame(1.0, 0.5);
    for i in 0..ch.pick(8) {
        n.new_actor(900 + i as u32, 4, 4);
        if i % 2 == 0 {
            n.del(900 + i as u32);
        }
    }
    let before = n.w.n.div_ceil(8);
    n.new_actor(3, 77, 0);
    let line: Vec<&str> = chain(class).into_iter().filter(|c| [class, "TAGame.RBActor_TA", "Engine.Actor"].contains(c)).collect();
    put_traj(&mut n, nearest(&line));
    n.end_frame();
    let b = n.bytes();
    let len = before + ch.pick(b.len() - before + 1);
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = b[..len].to_vec();
    net_check(cx, &r.bytes(), Lvl::Any);
}

/// Classes without declarations of their own, and with none in sight.
fn t_bare(ch: &mut Ch, cx: &mut Cx) {
    let class = PARENTS[ch.pick(PARENTS.len())].0;
    let c = chain(class);
    let state = ch.pick(4);
    let e = name_of(Tag::Enum);
    let far = c[c.len() - 1];
    let mut objs = vec![class, e, "Verif.Other_TA"];
    if far != class {
        objs.push(far);
    }
    if c.len() > 2 {
        objs.push(c[1]);
    }
    let mut r = Rep::new().objs(&objs);
    match state {
        0 => {}
        1 => r.cache.push((2, 0, 0, vec![(1, 1)])),
        2 => r.cache.push((0, 0, 0, vec![])),
        _ => r.cache.push((objs.len() as i32 - 1, 0, 0, vec![(1, 1)])),
    }
    let line: Vec<&str> = c.iter().copied().filter(|x| objs.contains(x) && (*x == class || parents().contains_key(normalize(x)))).collect();
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 77, 0);
    put_traj(&mut n, nearest(&line));
    n.end_frame();
    n.w.u64(0).u64(0);
    r.props.push(k("NumFrames", P::Int(1)));
    r.network = n.bytes();
    net_exact(cx, &r.bytes());
}

pub fn c25() -> Vec<Fam> {
    vec![
        f("subsets", 0, t_subsets),
        f("layouts", 0, t_layouts),
        f("objects", 0, t_objects),
        f("far", 0, t_far),
        f("many", 0, t_many),
        f("names", 0, t_names),
        f("rots", 0, t_rots),
        f("traj", 2, t_traj),
        f("traj_deep", 3, |ch, cx| if cx.thorough { t_traj(ch, cx) }),
        f("cut", 0, t_cut),
        f("bare", 0, t_bare),
        f("real", 0, n_real),
    ]
}
