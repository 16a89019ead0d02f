//! Everything that shapes a network stream at once: one case is a replay with one default for each
//! of its aspects, and all replays with up to a number of deviations from the defaults are tried.

use super::*;
use crate::bits::BitW;
use crate::cmp::{net_check, Lvl};
use crate::gen::*;
use crate::golden::{Spawn, Tag};
use crate::refdec::{normalize, spawns, Ver};
use crate::rep::*;

const CROSS_VERS: [Ver; 22] = [
    LAST_VER, (868, 10, 0), (868, 12, 0), (868, 13, 0), (868, 14, 0), (868, 17, 0), (868, 18, 0), (868, 18, 5), (868, 20, 0), (868, 20, 6),
    (868, 20, 7), (868, 22, 7), (868, 23, 7), (868, 23, 8), (868, 24, 9), (868, 25, 10), (868, 32, 8), (868, 32, 9), (868, 33, 11), (867, 32, 10),
    (866, 20, 7), (0, 5, 0),
];

pub struct What {
    pub tags: &'static [Tag],
    /// Are the fields of the attribute varied?
    pub fields: bool,
    /// ... and those of the spawn?
    pub spawn: bool,
}

/// Class of the actor and two of its ancestors.
const KINDS: [(&str, &str, &str); 6] = [
    (PRI, "TAGame.PRI_TA", "Engine.Actor"),
    ("Archetypes.Ball.Ball_Default", "TAGame.Ball_TA", "TAGame.RBActor_TA"),
    ("Archetypes.CarComponents.CarComponent_Boost", "TAGame.CarComponent_Boost_TA", "TAGame.CarComponent_TA"),
    ("TAGame.Default__Car_TA", "TAGame.Car_TA", "TAGame.RBActor_TA"),
    ("st_p.TheWorld:PersistentLevel.VehiclePickup_Boost_TA_12", "TAGame.VehiclePickup_Boost_TA", "TAGame.VehiclePickup_TA"),
    ("Archetypes.GameEvent.GameEvent_Soccar", "TAGame.GameEvent_Soccar_TA", "TAGame.GameEvent_TA"),
];

pub fn cross(ch: &mut Ch, cx: &mut Cx, what: &What) {
    let tag = ch.of(what.tags);
    let ver = ch.devof(&CROSS_VERS);
    let lan = ch.dev(2) == 1;
    let build = ch.devof(&[None, Some("221120.42953.406184"), Some("221120.42953.406183"), Some("3")]);
    let rl223 = build.is_some_and(|b| b >= "221120.42953.406184");
    let max_ch = ch.devof(&[1023i32, 1024, 2047, 255, 256, 513, 5]);
    let kind = ch.dev(KINDS.len());
    let (class, parent, grand) = KINDS[kind];
    // what is written behind a spawn
    let size = |objs: &[&str]| match objs.iter().find_map(|o| spawns().get(normalize(o)).copied()).unwrap_or(Spawn::None) {
        Spawn::None => 0,
        Spawn::Location => 1,
        Spawn::LocationAndRotation => 2,
    };
    let layout = size(&[class, parent, grand]);
    // who declares the property, and who has others
    let owner = ch.devof(&[0usize, 1, 2]);
    let stream = ch.devof(&[3i32, 0, 1, 2, 4, 31, 32, 63, 64, 255, 1000]);
    let extra = ch.devof(&[None, Some((1usize, 40i32)), Some((0, 5)), Some((0, 64)), Some((2, 1023)), Some((1, 0))]);
    let fillers = ch.devof(&[0usize, 1, 255, 256, 300]);
    let last = ch.dev(2) == 1;
    let order = ch.dev(3);

    // objects: the class, its ancestors, properties, product classes
    let mut objs: Vec<String> = (0..fillers).map(|i| format!("f{i}")).collect();
    let at = |objs: &mut Vec<String>, s: &str| {
        objs.push(s.to_string());
        objs.len() as i32 - 1
    };
    let (mut c, mut p, mut g) = (0, 0, 0);
    if !last {
        c = at(&mut objs, class);
        p = at(&mut objs, parent);
        g = at(&mut objs, grand);
    }
    let attr = at(&mut objs, name_of(tag));
    let mark = at(&mut objs, name_of(Tag::Enum));
    let product0 = objs.len() as i32;
    for x in PRODUCTS {
        at(&mut objs, x);
    }
    at(&mut objs, "Verif.NoProduct_TA");
    if last {
        g = at(&mut objs, grand);
        p = at(&mut objs, parent);
        c = at(&mut objs, class);
    }
    let mark_id = if stream == 2 { 1 } else { 2 };
    let mut decl: [Vec<(i32, i32)>; 3] = [vec![], vec![], vec![]];
    decl[owner].push((attr, stream));
    decl[0].push((mark, mark_id));
    let mut largest = stream.max(mark_id);
    if let Some((o, s)) = extra {
        if s != stream && s != mark_id {
            decl[o].push((mark, s));
            largest = largest.max(s);
        }
    }
    let mut rep = Rep::new().with_ver(ver).objs(&objs);
    rep.cache = vec![(g, 0, 0, decl[2].clone()), (p, 0, 1, decl[1].clone()), (c, 1, 2, decl[0].clone())];
    match order {
        0 => {}
        1 => rep.cache.reverse(),
        _ => rep.cache.rotate_left(1),
    }
    if max_ch != 1023 || ch.dev(2) == 1 {
        rep.props.push(k("MaxChannels", P::Int(max_ch)));
    }
    if lan {
        rep.props.push(k("MatchType", if ch.dev(2) == 0 { P::Name(t("Lan")) } else { P::Str(t("Lan")) }));
    }
    if let Some(b) = build {
        rep.props.push(k("BuildVersion", P::Str(t(b))));
    }

    let mut n = Net::new(max_ch as u32, ver, lan);
    let id = ch.devof(&[3u32, 0, 1, 2, 199, 200, 201, max_ch as u32 - 1]) % max_ch as u32;
    let other = (id + 1) % max_ch as u32;
    n.frame(1.0, 0.5);
    let mut frames = 1;

    let spawn = |n: &mut Net, ch: &mut Ch, id: u32, name: i32, vary: bool| {
        n.new_actor(id, name, c);
        let mut gen = G::new(ch, ver, product0);
        if !vary {
            if layout > 0 {
                n.vec(5, 70, 1, 99);
            }
            if layout > 1 {
                n.rot([Some(-3), None, Some(100)]);
            }
            return;
        }
        if layout > 0 {
            gen.vec();
        }
        if layout > 1 {
            gen.rot();
        }
        let w = gen.w;
        n.w.append(&w);
    };
    // what came before
    let before = ch.dev(8);
    match before {
        1 => {
            n.end_frame().frame(1.25, 0.25);
            frames += 1;
        }
        2 => {
            n.del(other);
        }
        3 => spawn(&mut n, ch, other, 2, false),
        4 => {
            spawn(&mut n, ch, other, 2, false);
            n.upd(other).attr(mark_id as u32, largest).w.put(0x3c3, 11);
            n.end_upd();
        }
        5 => {
            spawn(&mut n, ch, id, 9, false);
            n.del(id);
        }
        6 => {
            // the same id as another class first
            n.new_actor(id, 8, g);
            let l = size(&[grand]);
            if l > 0 {
                n.vec(5, 70, 1, 99);
            }
            if l > 1 {
                n.rot([None, None, None]);
            }
        }
        _ => {}
    }
    let name = ch.devof(&[7, 0, -1, i32::MAX]);
    spawn(&mut n, ch, id, name, what.spawn);
    let apart = ch.dev(3);
    if apart > 0 {
        if apart == 2 {
            n.del(other);
        }
        n.end_frame().frame(1.5, 0.25);
        frames += 1;
    }
    let payload = {
        let mut gen = G::new(ch, ver, product0);
        if !what.fields {
            let w = default_attr(tag, ver, product0, rl223);
            w
        } else {
            gen.rl223 = rl223;
            gen.attr(tag);
            gen.w
        }
    };
    let mark_of = |n: &mut Net, v: u64| {
        n.attr(mark_id as u32, largest).w.put(v, 11);
    };
    let this = |n: &mut Net, w: &BitW| {
        n.attr(stream as u32, largest).w.append(w);
    };
    n.upd(id);
    match ch.dev(5) {
        0 => {}
        1 => mark_of(&mut n, 0x111),
        2 => this(&mut n, &payload),
        3 => {
            mark_of(&mut n, 0x7ff);
            mark_of(&mut n, 0);
        }
        _ => {
            this(&mut n, &payload);
            mark_of(&mut n, 0x555);
            this(&mut n, &payload);
        }
    }
    this(&mut n, &payload);
    match ch.dev(5) {
        0 => {
            mark_of(&mut n, 0x5a5);
            n.end_upd().end_frame();
            n.frame(2.0, 0.5).upd(id);
            mark_of(&mut n, 0x2b7);
            n.end_upd().end_frame();
            frames += 1;
        }
        1 => {
            n.end_upd().end_frame();
        }
        2 => {
            n.end_upd().del(id).end_frame();
        }
        3 => {
            this(&mut n, &payload);
            n.end_upd();
            spawn(&mut n, ch, other, 1, false);
            n.end_frame();
        }
        _ => {
            n.end_upd().upd(id);
            mark_of(&mut n, 0x234);
            n.end_upd().end_frame();
        }
    }
    let mut b = n.bytes();
    let tail = ch.devof(&[0usize, 1, 3, 7, 8, 9, 16, 64]);
    b.extend(vec![0; tail]);
    if ch.dev(2) == 1 {
        let m = b.len();
        b[m - 1] |= if tail > 0 { 0x80 } else { 0 };
    }
    rep.network = b;
    let more = ch.devof(&[0, 1, 2, -1]);
    rep.props.push(k("NumFrames", P::Int(frames + more)));
    cx.say(|| format!("{tag:?} {ver:?}"));
    net_check(cx, &rep.bytes(), Lvl::Any);
}

const PLAIN: &[Tag] = &[Tag::Byte, Tag::Enum, Tag::Boolean, Tag::Int, Tag::FlaggedByte];
const PLACED: &[Tag] = &[
    Tag::Location, Tag::RigidBody, Tag::RotationTag, Tag::Welded, Tag::Explosion, Tag::ExtendedExplosion, Tag::Demolish, Tag::DemolishFx,
    Tag::DemolishExtended, Tag::DamageState, Tag::AppliedDamage,
];
const PLAYERS: &[Tag] = &[Tag::UniqueId, Tag::PartyLeader, Tag::Reservation];
const ITEMS: &[Tag] = &[Tag::Loadout, Tag::TeamLoadout, Tag::LoadoutOnline, Tag::LoadoutsOnline];

pub fn plain(ch: &mut Ch, cx: &mut Cx) {
    cross(ch, cx, &What { tags: PLAIN, fields: false, spawn: false });
}
fn spawned(ch: &mut Ch, cx: &mut Cx) {
    cross(ch, cx, &What { tags: &PLAIN[..1], fields: false, spawn: true });
}
pub fn all(ch: &mut Ch, cx: &mut Cx) {
    cross(ch, cx, &What { tags: &TAGS, fields: true, spawn: false });
}
fn all_plain(ch: &mut Ch, cx: &mut Cx) {
    cross(ch, cx, &What { tags: &TAGS, fields: false, spawn: false });
}
fn placed(ch: &mut Ch, cx: &mut Cx) {
    cross(ch, cx, &What { tags: PLACED, fields: true, spawn: true });
}
fn players(ch: &mut Ch, cx: &mut Cx) {
    cross(ch, cx, &What { tags: PLAYERS, fields: true, spawn: false });
}
fn items(ch: &mut Ch, cx: &mut Cx) {
    cross(ch, cx, &What { tags: ITEMS, fields: true, spawn: false });
}

macro_rules! deeper { ($($d:ident $of:ident),*) => {$(
    fn $d(ch: &mut Ch, cx: &mut Cx) {
        if cx.thorough {
            $of(ch, cx)
        }
    }
)*}}
deeper!(d_plain plain, d_spawned spawned, d_all all, d_all_plain all_plain, d_placed placed, d_items items, d_players players);

/// The families of a property in which all aspects vary together.
pub fn of(prop: &str) -> Vec<Fam> {
    let deep = "cross_deep";
    match prop {
        "C10" | "C13" | "C14" | "C16" => vec![f("cross", 3, plain), f(deep, 4, d_plain)],
        "C25" => vec![f("cross", 3, spawned), f(deep, 4, d_spawned)],
        "C11" | "C12" => vec![f("cross", 2, all), f(deep, 3, d_all)],
        "C24" => vec![f("cross", 2, all_plain), f(deep, 3, d_all_plain)],
        "C21" => vec![f("cross", 2, placed), f(deep, 3, d_placed)],
        "C22" => vec![f("cross", 3, players), f(deep, 4, d_players)],
        "C23" => vec![f("cross", 2, items), f(deep, 3, d_items)],
        _ => vec![],
    }
}
