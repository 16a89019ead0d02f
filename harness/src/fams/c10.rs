//! Actor histories, attribute payloads, alignment.

use super::*;
use crate::bits::BitW;
use crate::cmp::{net_exact, net_valid, net_check, Lvl};
use crate::gen::*;
use crate::golden::Tag;
use crate::refdec::Ver;
use crate::rep::*;
use std::collections::HashMap;

// ---------------------------------------------------------------- C10

/// Two classes that read stream 1 differently, one that adds a position.
pub fn two_classes(max_ch: i32) -> Rep {
    let mut r = Rep::new().objs(&[
        PRI,
        "TAGame.Default__Car_TA",
        name_of(Tag::Byte),
        name_of(Tag::Enum),
        name_of(Tag::FlaggedByte),
    ]);
    r.cache = vec![(0, 0, 0, vec![(2, 1), (4, 2)]), (1, 0, 1, vec![(3, 1)])];
    r.props.push(k("MaxChannels", P::Int(max_ch)));
    r
}

pub struct Sim {
    pub n: Net,
    pub live: HashMap<u32, i32>,
    pub dead: HashMap<u32, ()>,
    pub frames: i32,
    stamp: u64,
    pub over: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Frame,
    Spawn(u32, i32),
    Del(u32),
    Upd(u32, usize),
}

impl Sim {
    pub fn new(max_ch: u32) -> Sim {
        let mut n = Net::new(max_ch, LAST_VER, false);
        n.frame(1.0, 0.5);
        Sim { n, live: HashMap::new(), dead: HashMap::new(), frames: 1, stamp: 0, over: false }
    }
    pub fn ops(&self, ids: &[u32], wide: bool) -> Vec<Op> {
        let mut v = vec![Op::Frame];
        for &id in ids {
            v.push(Op::Spawn(id, 0));
            v.push(Op::Spawn(id, 1));
            // what an update of a deleted actor means is left open, see DESIGN.md
            if !self.dead.contains_key(&id) {
                v.push(Op::Upd(id, 1));
                if wide {
                    v.push(Op::Upd(id, 0));
                    v.push(Op::Upd(id, 2));
                }
            }
            v.push(Op::Del(id));
        }
        v
    }
    pub fn apply(&mut self, op: Op) {
        self.stamp += 1;
        let s = mix(self.stamp);
        match op {
            Op::Frame => {
                self.n.end_frame();
                self.n.frame(1.0 + self.frames as f32, 0.25);
                self.frames += 1;
            }
            Op::Spawn(id, obj) => {
                self.n.new_actor(id, self.stamp as i32, obj);
                self.dead.remove(&id);
                self.live.insert(id, obj);
            }
            Op::Del(id) => {
                self.n.del(id);
                if self.live.remove(&id).is_some() {
                    self.dead.insert(id, ());
                }
            }
            Op::Upd(id, many) => {
                self.n.upd(id);
                for _ in 0..many {
                    match self.live.get(&id) {
                        Some(0) => {
                            self.n.attr(1, 2).w.put(s & 0xff, 8);
                        }
                        Some(_) => {
                            self.n.attr(1, 1).w.put(s & 0x7ff, 11);
                        }
                        None => {
                            self.n.attr(1, 1).w.put(s & 0x7ff, 11);
                        }
                    }
                }
                self.n.end_upd();
                if !self.live.contains_key(&id) {
                    self.over = true;
                }
            }
        }
    }
    pub fn done(mut self, mut r: Rep, cx: &mut Cx) {
        self.n.end_frame();
        r.props.push(k("NumFrames", P::Int(self.frames)));
        r.network = self.n.bytes();
        net_check(cx, &r.bytes(), Lvl::Any);
    }
}

fn history(ch: &mut Ch, cx: &mut Cx, ids: &[u32], max_ch: i32, depth: usize, wide: bool) {
    let mut s = Sim::new(max_ch as u32);
    let mut said = vec![];
    for _ in 0..depth {
        let ops = s.ops(ids, wide);
        let op = ops[ch.pick(ops.len())];
        if cx.want_trace {
            said.push(format!("{op:?}"));
        }
        s.apply(op);
        if s.over {
            break;
        }
    }
    cx.say(|| said.join(" "));
    s.done(two_classes(max_ch), cx);
}

fn a_deep(ch: &mut Ch, cx: &mut Cx) {
    let d = if cx.thorough { 6 } else { 5 };
    history(ch, cx, &[0, 200], 1023, d, false);
}
fn a_edges(ch: &mut Ch, cx: &mut Cx) {
    let d = if cx.thorough { 5 } else { 4 };
    history(ch, cx, &[1, 199, 200, 201], 1023, d, false);
}
fn a_wide(ch: &mut Ch, cx: &mut Cx) {
    let d = if cx.thorough { 5 } else { 4 };
    history(ch, cx, &[0, 1022], 1023, d, true);
}
fn a_high(ch: &mut Ch, cx: &mut Cx) {
    let d = if cx.thorough { 5 } else { 4 };
    history(ch, cx, &[199, 2046, 1023], 2047, d, false);
}
/// One actor, long histories.
fn a_long(ch: &mut Ch, cx: &mut Cx) {
    let d = if cx.thorough { 8 } else { 6 };
    let id = ch.of(&[0u32, 199, 200]);
    history(ch, cx, &[id], 1023, d, false);
}

/// Every id there is: spawned, updated in the next frame, deleted and spawned as something else.
fn a_ids(ch: &mut Ch, cx: &mut Cx) {
    let max_ch = ch.of(&[1023i32, 2047, 4096, 255, 200, 201, 64]);
    let chunk = 64;
    let c = ch.pick((max_ch as usize).div_ceil(chunk));
    let ids: Vec<u32> = (c * chunk..((c + 1) * chunk).min(max_ch as usize)).map(|x| x as u32).collect();
    let order = ch.pick(2);
    let mut s = Sim::new(max_ch as u32);
    for &i in &ids {
        s.apply(Op::Spawn(i, (i % 2) as i32));
    }
    s.apply(Op::Frame);
    let mut o = ids.clone();
    if order == 1 {
        o.reverse();
    }
    for &i in &o {
        s.apply(Op::Upd(i, 1));
    }
    s.apply(Op::Frame);
    for &i in &o {
        s.apply(Op::Del(i));
    }
    for &i in &ids {
        s.apply(Op::Spawn(i, 1 - (i % 2) as i32));
        s.apply(Op::Upd(i, 2));
    }
    s.done(two_classes(max_ch), cx);
}

/// Thousands of events of a kind in one frame, alike and not.
fn a_crowds(ch: &mut Ch, cx: &mut Cx) {
    let e = ch.pick(if cx.thorough { 16 } else { 13 }) as u32 + 3;
    let n = (1i64 << e) + ch.range(-1, 2);
    let kind = ch.pick(12);
    let place = ch.pick(3);
    cx.say(|| format!("{n} events of kind {kind}, place {place}"));
    let ids = 70_000;
    let mut s = Sim::new(ids as u32);
    for id in 0..5u32 {
        s.apply(Op::Spawn(id, id as i32 % 2));
    }
    for _ in 0..place {
        s.apply(Op::Frame);
    }
    let n = n as u32;
    let id = |i: u32| 5 + i % 60_000;
    for i in 0..n {
        match kind {
            // the same again and again
            0 => {
                s.n.upd(1).attr(1, 1).w.put(5, 11);
                s.n.end_upd();
            }
            // others, of one actor and of some
            1 => s.apply(Op::Upd(1, 1)),
            2 => s.apply(Op::Upd(i % 5, 1)),
            // all in one update
            3 => {
                if i == 0 {
                    s.n.upd(1);
                }
                s.n.attr(1, 1).w.put(u64::from(i / 3 & 0x7ff), 11);
                if i + 1 == n {
                    s.n.end_upd();
                }
            }
            // updates that hold nothing
            4 => s.apply(Op::Upd(i % 5, 0)),
            5 => s.apply(Op::Spawn(id(i), i as i32 % 2)),
            6 => s.apply(Op::Spawn(5, i as i32 / 2 % 2)),
            7 => s.apply(Op::Del(id(i))),
            8 => s.apply(Op::Del(5)),
            // come, change and go
            9 => {
                s.apply(Op::Spawn(id(i), 1));
                s.apply(Op::Upd(id(i), 1));
                s.apply(Op::Del(id(i)));
            }
            10 => {
                s.apply(Op::Spawn(5, i as i32 % 2));
                s.apply(Op::Upd(5, 1));
                s.apply(Op::Del(5));
            }
            _ => {
                s.apply(Op::Spawn(5 + i % 100, 1));
                s.apply(Op::Upd(5 + i % 100, 1));
                s.apply(Op::Del(5 + i % 7));
                s.apply(Op::Spawn(5 + i % 7, 0));
            }
        }
    }
    s.apply(Op::Frame);
    s.apply(Op::Upd(0, 1));
    s.apply(Op::Upd(3, 1));
    s.done(two_classes(ids), cx);
}

/// Each pair of ids: both live at once, neither confuses the other.
fn a_pairs(ch: &mut Ch, cx: &mut Cx) {
    let a = ch.pick(if cx.thorough { 1023 } else { 260 }) as u32;
    let mut s = Sim::new(1023);
    s.apply(Op::Spawn(a, 0));
    let near: Vec<u32> = (0..1023).filter(|b| *b != a && (*b < 4 || b.abs_diff(a) < 70 || b.abs_diff(a) % 64 < 2 || (190..210).contains(b))).collect();
    for b in near {
        s.apply(Op::Spawn(b, 1));
        s.apply(Op::Upd(a, 1));
        s.apply(Op::Upd(b, 1));
        s.apply(Op::Del(b));
    }
    s.apply(Op::Frame);
    s.apply(Op::Upd(a, 1));
    s.done(two_classes(1023), cx);
}

/// An id that never was: each one is rejected, whatever else is live.
fn a_unknown(ch: &mut Ch, cx: &mut Cx) {
    let max_ch = ch.of(&[1023i32, 2047]);
    let ids: Vec<u32> = (0..260).chain([511, 512, 513, 1000, 1022]).collect();
    let id = ids[ch.pick(ids.len())];
    let other = ch.of(&[None, Some(0u32), Some(199), Some(200), Some(1021)]);
    let mut s = Sim::new(max_ch as u32);
    if let Some(o) = other {
        s.apply(Op::Spawn(o, 0));
        if ch.flip() {
            s.apply(Op::Frame);
        }
    }
    let many = ch.of(&[1usize, 0, 2]);
    s.apply(Op::Upd(id, many));
    s.done(two_classes(max_ch), cx);
}

/// Large channel limits, ids near the edges of machine integers.
fn a_far(ch: &mut Ch, cx: &mut Cx) {
    let max_ch = ch.of(&[1 << 20, 1 << 30, i32::MAX, (1 << 30) + 1, 70_000]);
    let ids = [0u32, 65_535, 65_536, 65_537, (1 << 20) - 1, (1 << 30) - 1];
    let ids: Vec<u32> = ids.into_iter().filter(|x| (*x as i64) < max_ch as i64).collect();
    history(ch, cx, &ids[..ids.len().min(3)], max_ch, 3, false);
    let a = ids[ch.pick(ids.len())];
    let b = ids[ch.pick(ids.len())];
    let mut s = Sim::new(max_ch as u32);
    for op in [Op::Spawn(a, 0), Op::Spawn(b, 1), Op::Upd(a, 1), Op::Frame, Op::Upd(b, 1), Op::Del(a), Op::Spawn(a, 1), Op::Upd(a, 1)] {
        s.apply(op);
    }
    s.done(two_classes(max_ch), cx);
}

/// Actors that are updated long after they were announced.
fn a_ages(ch: &mut Ch, cx: &mut Cx) {
    let gaps: &[usize] = if cx.thorough { &[1, 10, 99, 100, 255, 256, 999, 1000, 1024, 2999, 3000, 3001, 4096, 9_999, 10_001, 65_537, 100_001] } else { &[100, 256, 1000, 3001, 10_001] };
    let gap = gaps[ch.pick(gaps.len())];
    let id = ch.of(&[0u32, 5, 199, 200, 1022, 65_535, 70_000, 100_000, 1 << 20]);
    let class = ch.pick(2) as i32;
    // what goes on in between
    let busy = ch.pick(4);
    let max_ch = if id < 1023 { 1023 } else { 1 << 21 };
    let mut s = Sim::new(max_ch as u32);
    s.apply(Op::Spawn(id, class));
    s.apply(Op::Upd(id, 1));
    for i in 0..gap {
        s.apply(Op::Frame);
        match busy {
            1 => s.apply(Op::Spawn(300 + i as u32 % 700, 1 - class)),
            2 if i % 2 == 0 => s.apply(Op::Spawn(301, 1)),
            2 => s.apply(Op::Del(301)),
            3 if i < gap / 2 => s.apply(Op::Upd(id, 1)),
            _ => {}
        }
    }
    s.apply(Op::Upd(id, 1));
    s.apply(Op::Spawn(id, 1 - class));
    s.apply(Op::Upd(id, 1));
    s.done(two_classes(max_ch), cx);
}

pub fn a_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    net_check(cx, d, Lvl::Any);
}

/// Shapes of frames: how many events of each kind, in which order.
fn a_shapes(ch: &mut Ch, cx: &mut Cx) {
    let mut s = Sim::new(1023);
    let n = ch.pick(4);
    for fr in 0..n {
        for i in 0..ch.pick(4) as u32 {
            s.apply(Op::Spawn(10 * fr as u32 + i, (i % 2) as i32));
        }
        let live: Vec<u32> = {
            let mut v: Vec<u32> = s.live.keys().copied().collect();
            v.sort();
            v
        };
        match ch.pick(3) {
            0 => {}
            1 => live.iter().for_each(|i| s.apply(Op::Upd(*i, 1))),
            _ => live.iter().for_each(|i| s.apply(Op::Del(*i))),
        }
        s.apply(Op::Frame);
    }
    s.done(two_classes(1023), cx);
}

pub fn c10() -> Vec<Fam> {
    vec![
        f("deep", 0, a_deep),
        f("edges", 0, a_edges),
        f("wide", 0, a_wide),
        f("high", 0, a_high),
        f("long", 0, a_long),
        f("ids", 0, a_ids),
        f("crowds", 0, a_crowds),
        f("pairs", 0, a_pairs),
        f("unknown", 0, a_unknown),
        f("far", 0, a_far),
        f("ages", 0, a_ages),
        f("shapes", 0, a_shapes),
        f("real", 0, a_real),
    ]
}

// ---------------------------------------------------------------- C11

pub const VERS: [Ver; 9] = [
    LAST_VER, (868, 20, 5), (868, 10, 0), (868, 12, 0), (868, 17, 0), (868, 22, 7), (868, 23, 8), (868, 18, 1), (866, 32, 6),
];

/// One attribute of the kind, then a sentinel attribute, then a deletion and an update of another
/// actor: whatever uses too many or too few bits upsets them.
pub fn one(tag: Tag, ver: Ver, rl223: bool, payload: &BitW) -> Vec<u8> {
    let mut w = W::new(ver, &[name_of(tag), name_of(Tag::Enum)]);
    if rl223 {
        w.rep.props.push(k("BuildVersion", P::Str(t("221120.42953.406184"))));
    }
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0).new_actor(9, 2, 0);
    n.upd(3).attr(1, w.largest);
    n.w.append(payload);
    n.attr(2, w.largest).w.put(0x5a5, 11);
    n.end_upd();
    n.del(9).end_frame();
    n.frame(1.5, 0.5).upd(3).attr(2, w.largest).w.put(0x2b7, 11);
    n.end_upd().end_frame();
    w.file(2, n.bytes())
}

fn p_payload(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    let rl223 = tag == Tag::QWordString && ch.flip();
    let mut g = G::new(ch, ver, 3);
    g.rl223 = rl223;
    g.attr(tag);
    let w = g.w.clone();
    cx.say(|| format!("{tag:?} {ver:?}, {} bits", w.n));
    net_check(cx, &one(tag, ver, rl223, &w), Lvl::Any);
}

/// Two deviations at once, where the payload is small enough.
fn p_payload2(ch: &mut Ch, cx: &mut Cx) {
    const SMALL: [Tag; 34] = [
        Tag::ActiveActor, Tag::Boolean, Tag::Byte, Tag::CamSettings, Tag::ClubColors, Tag::DamageState,
        Tag::Enum, Tag::Explosion, Tag::ExtendedExplosion, Tag::FlaggedByte, Tag::Float, Tag::GameMode,
        Tag::Impulse, Tag::Int, Tag::Int64, Tag::Location, Tag::LogoData, Tag::MusicStinger,
        Tag::PartyLeader, Tag::Pickup, Tag::PickupInfo, Tag::PickupNew, Tag::PlayerHistoryKey,
        Tag::PrivateMatchSettings, Tag::RepStatTitle, Tag::ReplicatedBoost, Tag::Reservation,
        Tag::RigidBody, Tag::RotationTag, Tag::StatEvent, Tag::String, Tag::TeamPaint, Tag::UniqueId,
        Tag::Welded,
    ];
    let tag = ch.of(&SMALL);
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 1 })];
    let mut g = G::new(ch, ver, 3);
    g.attr(tag);
    let w = g.w.clone();
    net_check(cx, &one(tag, ver, false, &w), Lvl::Any);
}

/// All values of the first 16 bits, on zeros and on ones.
fn p_bits(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let bits = if cx.thorough { 14 } else { 8 };
    let hi = ch.of(&[0u64, u64::MAX, 0x5555_5555_5555_5555]);
    let low = ch.pick(1 << bits) as u64;
    let mut w = BitW::new();
    w.put(low, bits);
    let d = default_attr(tag, LAST_VER, 3, false);
    for i in bits as usize..d.n.max(bits as usize) {
        w.bit(hi >> (i % 64) & 1 == 1);
    }
    for _ in 0..4 {
        w.put(hi, 64);
    }
    net_check(cx, &one(tag, LAST_VER, false, &w), Lvl::Any);
}

/// The default payload with every single bit flipped.
fn p_flip(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    let mut w = default_attr(tag, ver, 3, false);
    let i = ch.pick(w.n);
    w.bytes[i / 8] ^= 1 << (i % 8);
    net_check(cx, &one(tag, ver, false, &w), Lvl::Any);
}

/// Every ordered pair of kinds, back to back in one update and in two.
fn p_pairs(ch: &mut Ch, cx: &mut Cx) {
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    let a = ch.pick(TAGS.len());
    let b = ch.pick(TAGS.len());
    let w = all_world(ver);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(1, 0, 0);
    let pay = |i: usize| default_attr(TAGS[i], ver, w.product0, false);
    n.upd(1).attr(a as u32 + 1, w.largest).w.append(&pay(a));
    n.attr(b as u32 + 1, w.largest).w.append(&pay(b));
    n.end_upd().upd(1).attr(b as u32 + 1, w.largest).w.append(&pay(b));
    n.end_upd().end_frame();
    net_exact(cx, &w.file(1, n.bytes()));
}

/// Data that ends inside the payload, at every bit that can be the last.
fn p_cut(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    // fillers move the payload against the byte border
    let fill = ch.pick(8);
    let w = W::new(ver, &[name_of(tag), name_of(Tag::Byte), name_of(Tag::Byte)]);
    let mut n = w.net();
    // Engine.Actor is among the objects, so the actor has a location
    n.frame(1.0, 0.5).new_actor(3, 1, 0).vec(2, 1, 7, 15);
    n.upd(3);
    for i in 0..fill {
        n.attr(2, w.largest).w.u8(i as u8 ^ 0x5a);
    }
    n.attr(1, w.largest);
    let before = n.w.n.div_ceil(8);
    n.w.append(&default_attr(tag, ver, w.product0, false));
    let b = n.bytes();
    let len = before + ch.pick(b.len() - before + 1);
    net_check(cx, &w.file(1, b[..len].to_vec()), Lvl::Any);
}

/// Kinds nobody knows how to read.
fn p_unknown(ch: &mut Ch, cx: &mut Cx) {
    let names = [
        UNKNOWN_ATTR, "", "TAGame.Car_TA:NoSuch", "Engine.Actor", "TAGame.ProductAttribute_Painted_TA", "tagame.car_ta:teampaint",
        " TAGame.Car_TA:TeamPaint", "TAGame.Car_TA:TeamPaint ", "TAGame.Car_TA.TeamPaint", "Car_TA:TeamPaint",
    ];
    let name = ch.of(&names);
    let mut w = W::new(LAST_VER, &[name, name_of(Tag::Enum)]);
    if ch.flip() {
        w.rep.names = vec![t(name_of(Tag::Enum))];
    }
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3);
    if ch.flip() {
        n.attr(2, w.largest).w.put(7, 11);
    }
    n.attr(1, w.largest);
    let fill = ch.of(&[0u64, u64::MAX, 0x1234_5678_9abc_def0]);
    for _ in 0..ch.of(&[0usize, 1, 4]) {
        n.w.u64(fill);
    }
    net_check(cx, &w.file(1, n.bytes()), Lvl::Any);
}

/// Stream ids nobody declared.
fn p_undeclared(ch: &mut Ch, cx: &mut Cx) {
    let declared: [&[i32]; 6] = [&[1], &[0], &[5], &[2, 9], &[63, 64], &[3, 200]];
    let ids = ch.of(&declared);
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Enum)]);
    r.cache = vec![(0, 0, 0, ids.iter().map(|i| (1, *i)).collect())];
    r.props.push(k("NumFrames", P::Int(1)));
    let largest = *ids.last().unwrap();
    let s = ch.pick(largest as usize + 1) as u32;
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3).attr(s, largest).w.put(0x3a5, 11);
    n.end_upd().end_frame();
    n.w.u64(0);
    r.network = n.bytes();
    net_check(cx, &r.bytes(), Lvl::Any);
}

pub fn c11() -> Vec<Fam> {
    vec![
        f("payload", 1, p_payload),
        f("payload2", 2, p_payload2),
        f("bits", 0, p_bits),
        f("flip", 0, p_flip),
        f("pairs", 0, p_pairs),
        f("cut", 0, p_cut),
        f("tail", 0, l_tail),
        f("unknown", 0, p_unknown),
        f("undeclared", 0, p_undeclared),
        f("real", 0, a_real),
    ]
}

// ---------------------------------------------------------------- C12

/// A world with every attribute, classes with each kind of trajectory, and a byte filler.
struct Al {
    w: W,
}

const SPAWN_OBJS: [&str; 3] = ["Engine.Actor", "Archetypes.Ball.Ball_Default", "TAGame.RBActor_TA"];

fn al(tag: Tag, ver: Ver) -> Al {
    let mut w = W::new(ver, &[name_of(tag), name_of(Tag::Byte), name_of(Tag::Byte)]);
    for o in SPAWN_OBJS {
        w.rep.objects.push(t(o));
    }
    Al { w }
}

/// Records: attributes, then new actors of each kind, then deletion.
fn record(ch: &mut Ch, a: &Al, n: &mut Net, tag: Option<Tag>, sp: usize, ver: Ver) {
    match tag {
        Some(tag) => {
            n.attr(1, a.w.largest);
            let mut g = G::new(ch, ver, a.w.product0);
            g.attr(tag);
            let w = g.w.clone();
            n.w.append(&w);
            n.end_upd();
        }
        None => {
            n.end_upd();
            let base = a.w.rep.objects.len() as i32 - 3;
            match sp {
                0 => {
                    n.del(3);
                }
                1 => {
                    n.new_actor(5, 77, 0);
                    let mut g = G::new(ch, ver, 0);
                    g.vec();
                    let w = g.w.clone();
                    n.w.append(&w);
                }
                2 => {
                    // position only
                    n.new_actor(5, 78, base);
                    let mut g = G::new(ch, ver, 0);
                    g.vec();
                    let w = g.w.clone();
                    n.w.append(&w);
                }
                3 => {
                    n.new_actor(5, 79, base + 2);
                    let mut g = G::new(ch, ver, 0);
                    g.vec();
                    g.rot();
                    let w = g.w.clone();
                    n.w.append(&w);
                }
                _ => {
                    n.upd(3).end_upd();
                }
            }
        }
    }
}

fn what(ch: &mut Ch) -> (Option<Tag>, usize) {
    let i = ch.pick(TAGS.len() + 5);
    if i < TAGS.len() {
        (Some(TAGS[i]), 0)
    } else {
        (None, i - TAGS.len())
    }
}

fn start(a: &Al, fill: usize) -> Net {
    let mut n = a.w.net();
    // Engine.Actor is among the objects, so the actor has a location
    n.frame(1.0, 0.5).new_actor(3, 1, 0).vec(2, 1, 7, 15);
    n.upd(3);
    for i in 0..fill {
        n.attr(2, a.w.largest).w.u8(i as u8 ^ 0xa5);
    }
    n
}

fn v_of(ch: &mut Ch, cx: &Cx) -> Ver {
    VERS[ch.pick(if cx.thorough { 9 } else { 4 })]
}

/// Every record at every alignment with every distance from the end.
fn l_tail(ch: &mut Ch, cx: &mut Cx) {
    let (tag, sp) = what(ch);
    let ver = v_of(ch, cx);
    let fill = ch.pick(8);
    let tail = ch.pick(if cx.thorough { 73 } else { 41 });
    let ones = ch.flip();
    let a = al(tag.unwrap_or(Tag::Int), ver);
    let mut n = start(&a, fill);
    record(ch, &a, &mut n, tag, sp, ver);
    n.end_frame();
    // the end of the list of frames: two zero floats where there is room
    let mut b = n.bytes();
    let used = n.w.n;
    if ones {
        // unused bits of the last byte
        if used % 8 != 0 {
            *b.last_mut().unwrap() |= 0xff << (used % 8);
        }
    }
    b.extend(std::iter::repeat_n(if ones { 0xff } else { 0 }, tail));
    net_valid(cx, &a.w.file(1, b));
}

/// As above with odd values in the record.
fn l_values(ch: &mut Ch, cx: &mut Cx) {
    let (tag, sp) = what(ch);
    let ver = v_of(ch, cx);
    let fill = if cx.thorough { ch.pick(8) } else { ch.of(&[0usize, 3, 5]) };
    let tail = ch.of(&[0usize, 15, 40]);
    let a = al(tag.unwrap_or(Tag::Int), ver);
    let mut n = start(&a, fill);
    record(ch, &a, &mut n, tag, sp, ver);
    n.end_frame();
    let mut b = n.bytes();
    b.extend(std::iter::repeat_n(0, tail));
    net_check(cx, &a.w.file(1, b), Lvl::Any);
}

/// With bytes behind the frame, or without its last ones.
fn shorten(cx: &mut Cx, ch: &mut Ch, a: &Al, n: Net, cut: usize, tail: usize) {
    let mut b = n.bytes();
    b.extend(std::iter::repeat_n(0, tail));
    if cut == 0 {
        net_valid(cx, &a.w.file(1, b));
        return;
    }
    b.truncate(b.len() - cut);
    if ch.flip() {
        *b.last_mut().unwrap() |= 0xf0;
    }
    net_check(cx, &a.w.file(1, b), Lvl::Any);
}

/// Vectors of every size at every alignment and distance.
fn l_vec(ch: &mut Ch, cx: &mut Cx) {
    let ver = ch.of(&[LAST_VER, (868, 22, 5)]);
    let lim = if ver.2 >= 7 { 22 } else { 20 };
    let size = ch.pick(lim) as u32;
    let fill = ch.pick(8);
    // bytes behind the record, or missing from it
    let cut = ch.pick(9);
    let tail = if cut > 0 { 0 } else { ch.pick(33) };
    let kind = ch.pick(4);
    let a = al(Tag::Location, ver);
    let mut n = start(&a, fill);
    let m = (1u64 << (size + 2)) - 1;
    let c = match ch.pick(3) {
        0 => [0, m, mix(size as u64) & m],
        1 => [m, 0, m],
        _ => [mix(1) & m, mix(2) & m, mix(3) & m],
    };
    let base = a.w.rep.objects.len() as i32 - 3;
    match kind {
        0 => {
            n.attr(1, a.w.largest);
            n.vec(size, c[0], c[1], c[2]).end_upd();
        }
        1 => {
            n.end_upd().new_actor(5, 1, base).vec(size, c[0], c[1], c[2]);
        }
        k => {
            n.end_upd().new_actor(5, 1, base + 2).vec(size, c[0], c[1], c[2]);
            n.rot(if k == 2 { [Some(1), None, Some(-1)] } else { [None, Some(-128), None] });
        }
    }
    n.end_frame();
    shorten(cx, ch, &a, n, cut, tail);
}

/// Rotations with every mask near the end.
fn l_rot(ch: &mut Ch, cx: &mut Cx) {
    let fill = ch.pick(8);
    let cut = ch.pick(5);
    let tail = if cut > 0 { 0 } else { ch.pick(20) };
    let mask = ch.pick(8);
    let v = ch.of(&[0i8, -1, 127, -128]);
    let kind = ch.pick(2);
    let a = al(Tag::RotationTag, LAST_VER);
    let base = a.w.rep.objects.len() as i32 - 3;
    let mut n = start(&a, fill);
    let r = [0, 1, 2].map(|i| (mask >> i & 1 == 1).then_some(v.wrapping_add(i as i8)));
    if kind == 0 {
        n.attr(1, a.w.largest);
        n.rot(r).end_upd();
    } else {
        n.end_upd().new_actor(5, 1, base + 2).vec(3, 1, 2, 3).rot(r);
    }
    n.end_frame();
    shorten(cx, ch, &a, n, cut, tail);
}

/// Every alignment, every cut: the whole record or an error.
fn l_cut(ch: &mut Ch, cx: &mut Cx) {
    let (tag, sp) = what(ch);
    let ver = v_of(ch, cx);
    let fill = ch.pick(8);
    let a = al(tag.unwrap_or(Tag::Int), ver);
    let mut n = start(&a, fill);
    let before = n.w.n / 8;
    record(ch, &a, &mut n, tag, sp, ver);
    n.end_frame();
    let b = n.bytes();
    let len = before + ch.pick(b.len() - before + 1);
    let mut b = b[..len].to_vec();
    if ch.flip() {
        if let Some(x) = b.last_mut() {
            *x |= 0xf0;
        }
    }
    net_check(cx, &a.w.file(1, b), Lvl::Any);
}

/// Sequences of frames cut anywhere, at every alignment of the second frame.
fn l_frames(ch: &mut Ch, cx: &mut Cx) {
    let fill = ch.pick(8);
    let a = al(Tag::RigidBody, LAST_VER);
    let mut n = start(&a, fill);
    n.end_upd().end_frame();
    n.frame(2.0, 0.5).upd(3).attr(1, a.w.largest);
    n.w.append(&default_attr(Tag::RigidBody, LAST_VER, 0, false));
    n.end_upd().del(3).end_frame();
    n.frame(2.5, 0.5).end_frame();
    let b = n.bytes();
    let len = ch.pick(b.len() + 1);
    let frames = ch.of(&[3, 2, 1, 4]);
    net_check(cx, &a.w.file(frames, b[..len].to_vec()), Lvl::Any);
}

pub fn c12() -> Vec<Fam> {
    vec![
        f("tail", 0, l_tail),
        f("values", 1, l_values),
        f("vec", 0, l_vec),
        f("rot", 0, l_rot),
        f("cut", 0, l_cut),
        f("frames", 0, l_frames),
    ]
}
