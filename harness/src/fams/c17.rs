//! JSON of frames and replays, error reporting.

use super::c02::{alphabet, patterned, place, set_list, texts, tree, words, F32S, LAYOUTS, NET_PLACES, PLACES};
use super::c10::{one, VERS};
use super::*;
use crate::bits::BitW;
use crate::cmp::{check, Lvl, Part};
use crate::gen::*;
use crate::golden::Tag;
use crate::imp::{self, Got, CRCS};
use crate::refdec;
use crate::rep::*;
use crate::shape::{canon, finite, parse_json, same_json, Shape};
use boxcars::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

// ---------------------------------------------------------------- C17

/// Value to JSON and back, all the ways serde_json offers.
fn trip<T: Shape + Serialize + DeserializeOwned>(cx: &mut Cx, x: &T) {
    if cx.forms > 0 {
        return super::c32::trip(cx, x);
    }
    if !finite(x) {
        cx.skipped += 1;
        return;
    }
    let want = canon(x);
    cx.outcome(&want);
    type R<T> = Result<T, serde_json::Error>;
    let r = imp::call(|| -> R<Vec<(&'static str, R<T>)>> {
        let s = serde_json::to_string(x)?;
        let p = serde_json::to_string_pretty(x)?;
        let b = serde_json::to_vec(x)?;
        let v = serde_json::to_value(x)?;
        Ok(vec![
            ("text", serde_json::from_str(&s)),
            ("pretty text", serde_json::from_str(&p)),
            ("bytes", serde_json::from_slice(&b)),
            ("reader", serde_json::from_reader(&b[..])),
            ("value", serde_json::from_value(v)),
        ])
    });
    match r {
        Err(m) => cx.fail(format!("panicked: {m}")),
        Ok(Err(e)) => cx.fail(format!("does not serialize: {e}")),
        Ok(Ok(v)) => {
            for (how, y) in v {
                cx.compared += 1;
                match y {
                    Err(e) => cx.fail(format!("by {how}: {e}")),
                    Ok(y) => {
                        if canon(&y) != want {
                            let (a, b) = (serde_json::to_string(&y).unwrap_or_default(), serde_json::to_string(x).unwrap_or_default());
                            let at = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
                            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60).min(s.len())..(at + 60).min(s.len())]).into_owned();
                            cx.fail(format!("by {how}: got ..{}.., want ..{}..", cut(&a), cut(&b)));
                        }
                    }
                }
            }
        }
    }
}

fn frames_of(d: &[u8]) -> Option<Vec<Frame>> {
    let r = refdec::parse(d, CrcCheck::Never, NetworkParse::Always).ok()?;
    Some(r.network_frames?.frames)
}

pub fn t_attrs(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    let rl223 = tag == Tag::QWordString && ch.flip();
    let mut g = G::new(ch, ver, 3);
    g.rl223 = rl223;
    g.attr(tag);
    let w = g.w.clone();
    cx.say(|| format!("{tag:?} {ver:?}"));
    match frames_of(&one(tag, ver, rl223, &w)) {
        Some(fs) => trip(cx, &fs),
        None => cx.skipped += 1,
    }
}

/// Mantissas with few bits set or clear, and the low ones.
fn mantissas() -> Vec<u32> {
    let mut v = vec![];
    for i in 0..23 {
        for j in 0..=i {
            let m = 1u32 << i | 1 << j;
            v.extend([m, 0x7f_ffff ^ m]);
        }
    }
    v.extend(0..64);
    v.extend([0x7f_ffff, 0x55_5555, 0x2a_aaaa, 0x4c_cccd, 0x33_3333]);
    v.sort();
    v.dedup();
    v
}

fn attr_frame(attrs: Vec<Attribute>) -> Frame {
    Frame {
        time: 1.0,
        delta: 0.5,
        new_actors: vec![],
        deleted_actors: vec![],
        updated_actors: attrs
            .into_iter()
            .map(|attribute| UpdatedAttribute { actor_id: ActorId(1), stream_id: StreamId(2), object_id: ObjectId(3), attribute })
            .collect(),
    }
}

/// Every place a decoded frame has a float.
pub fn t_floats(ch: &mut Ch, cx: &mut Cx) {
    let sign = ch.pick(2) as u32;
    let exp = ch.pick(255) as u32;
    let place = ch.pick(8);
    let fs = mantissas().into_iter().map(|m| f32::from_bits(sign << 31 | exp << 23 | m));
    let v3 = |x: f32| Vector3f { x, y: x, z: x };
    let a: Vec<Attribute> = match place {
        0 => fs.map(Attribute::Float).collect(),
        1 => fs.map(|x| Attribute::Location(v3(x))).collect(),
        2 => fs
            .map(|x| {
                Attribute::RigidBody(RigidBody {
                    sleeping: false,
                    location: v3(1.0),
                    rotation: Quaternion { x, y: x, z: x, w: x },
                    linear_velocity: Some(v3(x)),
                    angular_velocity: Some(v3(x)),
                })
            })
            .collect(),
        3 => fs
            .map(|x| {
                Attribute::CamSettings(Box::new(CamSettings {
                    fov: x,
                    height: x,
                    angle: x,
                    distance: x,
                    stiffness: x,
                    swivel: x,
                    transition: Some(x),
                }))
            })
            .collect(),
        4 => fs.map(|x| Attribute::Impulse(Impulse { compressed_rotation: 1, speed: x })).collect(),
        5 => fs
            .map(|x| {
                Attribute::Welded(Welded {
                    active: true,
                    actor: ActorId(1),
                    offset: v3(x),
                    mass: x,
                    rotation: Rotation { yaw: None, pitch: None, roll: None },
                })
            })
            .collect(),
        _ => {
            for x in fs {
                let mut f = attr_frame(vec![]);
                if place == 6 {
                    f.time = x
                } else {
                    f.delta = x
                }
                trip(cx, &f);
            }
            return;
        }
    };
    trip(cx, &attr_frame(a));
}

/// Every finite float there is.
fn t_all_floats(ch: &mut Ch, cx: &mut Cx) {
    if !cx.thorough {
        return;
    }
    let hi = ch.pick(1 << 16) as u32;
    let bits: Vec<u32> = (0..1u32 << 16).map(|lo| hi << 16 | lo).filter(|b| f32::from_bits(*b).is_finite()).collect();
    for part in bits.chunks(8192) {
        let v: Vec<Attribute> = part.iter().map(|b| Attribute::Float(f32::from_bits(*b))).collect();
        let s = serde_json::to_string(&v).unwrap_or_default();
        cx.compared += 1;
        match imp::call(|| serde_json::from_str::<Vec<Attribute>>(&s)) {
            Ok(Ok(w)) => {
                for (a, b) in part.iter().zip(&w) {
                    if !matches!(b, Attribute::Float(x) if x.to_bits() == *a) {
                        cx.fail(format!("{:?} ({a:#x}) comes back as {b:?}", f32::from_bits(*a)));
                    }
                }
                if w.len() != part.len() {
                    cx.fail("wrong number of values");
                }
            }
            Ok(Err(e)) => cx.fail(format!("{e}")),
            Err(m) => cx.fail(format!("panicked: {m}")),
        }
    }
}

fn longs() -> Vec<u64> {
    let mut v = words();
    let mut ten = 1u64;
    while let Some(x) = ten.checked_mul(10) {
        v.extend([ten, ten - 1, ten + 1, x - 7]);
        ten = x;
    }
    v.extend([76_561_198_122_624_102, i64::MAX as u64, i64::MIN as u64, (1 << 53) + 1, (1 << 63) + 1]);
    v
}

fn long_attr(kind: usize, x: u64) -> Attribute {
    let uid = |remote_id| UniqueId { system_id: 1, remote_id, local_id: 0 };
    match kind {
        0 => Attribute::Int64(x as i64),
        1 => Attribute::QWord(x),
        _ => {
            let r = match kind % 6 {
                0 => RemoteId::Steam(x),
                1 => RemoteId::Xbox(x),
                2 => RemoteId::QQ(x),
                3 => RemoteId::PlayStation(Ps4Id { online_id: x, name: "n".into(), unknown1: vec![1] }),
                4 => RemoteId::PsyNet(PsyNetId { online_id: x, unknown1: vec![] }),
                _ => RemoteId::Switch(SwitchId { online_id: x, unknown1: vec![2; 24] }),
            };
            match kind / 6 {
                0 | 1 => Attribute::UniqueId(Box::new(uid(r))),
                2 => Attribute::PartyLeader(Some(Box::new(uid(r)))),
                _ => Attribute::Reservation(Box::new(Reservation {
                    number: 1,
                    unique_id: uid(r),
                    name: None,
                    unknown1: true,
                    unknown2: false,
                    unknown3: Some(3),
                })),
            }
        }
    }
}

pub fn t_longs(ch: &mut Ch, cx: &mut Cx) {
    let kind = match ch.pick(20) {
        0 => 0,
        1 => 1,
        x => x + 4,
    };
    let v: Vec<Attribute> = longs().into_iter().map(|x| long_attr(kind, x)).collect();
    cx.say(|| format!("{} values of {:?}", v.len(), v[0]));
    trip(cx, &v);
}

/// What may not be read as a 64-bit integer.
fn t_strict(ch: &mut Ch, cx: &mut Cx) {
    let kind = match ch.pick(20) {
        0 => 0,
        1 => 1,
        x => x + 4,
    };
    const MARK: u64 = 1_234_567_890_123_456_789;
    let s = match imp::call(|| serde_json::to_string(&long_attr(kind, MARK)).ok()) {
        Ok(Some(s)) => s,
        _ => return cx.fail("does not serialize"),
    };
    let quoted = format!("\"{MARK}\"");
    cx.compared += 1;
    if s.matches(&quoted).count() != 1 {
        return cx.fail(format!("64-bit integer is not a string in {s}"));
    }
    let bad = [
        "1", "0", "-1", "76561198122624102", "1234567890123456789", "1.0", "1e3", "null", "true", "[]", "{}", "[\"1\"]", "\"\"", "\" 1\"", "\"1 \"",
        "\"18446744073709551616\"", "\"99999999999999999999999\"", "\"1.0\"", "\"1e3\"", "\"0x10\"", "\"a\"", "\"-\"", "\"1_0\"", "\"1,0\"",
        "\"-9223372036854775809\"", "\"null\"", "\"\u{ff11}\"",
    ];
    let mut v: Vec<&str> = bad.to_vec();
    if kind == 0 {
        v.push("\"9223372036854775808\"");
    } else {
        v.push("\"-1\"");
        v.push("\"-0x1\"");
    }
    let b = v[ch.pick(v.len())];
    let text = s.replace(&quoted, b);
    cx.outcome(text.as_bytes());
    match imp::call(|| serde_json::from_str::<Attribute>(&text)) {
        Ok(Err(_)) => {}
        Ok(Ok(x)) => cx.fail(format!("{text} is read as {x:?}")),
        Err(m) => cx.fail(format!("panicked: {m}")),
    }
    // the same through a JSON value
    let Ok(val) = serde_json::from_str::<serde_json::Value>(&text) else { return };
    match imp::call(|| serde_json::from_value::<Attribute>(val)) {
        Ok(Err(_)) => {}
        Ok(Ok(x)) => cx.fail(format!("value of {text} is read as {x:?}")),
        Err(m) => cx.fail(format!("panicked: {m}")),
    }
}

/// Paths of all values in a JSON value.
fn paths(v: &serde_json::Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    let mut below = |k: String, v: &serde_json::Value| {
        at.push(k);
        paths(v, at, out);
        at.pop();
    };
    match v {
        serde_json::Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| below(i.to_string(), x)),
        serde_json::Value::Object(o) => o.iter().for_each(|(k, x)| below(k.clone(), x)),
        _ => {}
    }
}

/// JSON of frames in which one field is missing or one value is of another type or too large: it is
/// rejected, and if not, nothing is made up.
fn t_damaged(ch: &mut Ch, cx: &mut Cx) {
    use serde_json::{json, Value};
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    let rl223 = tag == Tag::QWordString && ch.flip();
    let mut g = G::new(ch, ver, 3);
    g.rl223 = rl223;
    g.attr(tag);
    let w = g.w.clone();
    cx.say(|| format!("{tag:?} {ver:?}"));
    let Some(fs) = frames_of(&one(tag, ver, rl223, &w)) else {
        cx.skipped += 1;
        return;
    };
    let Ok(whole) = imp::call(|| serde_json::to_value(&fs[0]).unwrap_or_default()) else { return cx.fail("panicked") };
    cx.outcome(&canon(&fs));
    let mut at = vec![];
    paths(&whole, &mut vec![], &mut at);
    let pointer = |p: &[String]| p.iter().map(|x| format!("/{x}")).collect::<String>();
    for p in at {
        let old = whole.pointer(&pointer(&p)).unwrap();
        let mut damaged: Vec<Value> = vec![];
        let mut with = |x: Value| {
            let mut v = whole.clone();
            *v.pointer_mut(&pointer(&p)).unwrap() = x;
            damaged.push(v);
        };
        match old {
            Value::Number(n) => {
                with(json!(n.to_string()));
                with(json!(true));
                if !n.is_f64() {
                    for x in [json!(1.5), json!(i64::MAX), json!(i64::MIN), json!(u64::MAX), json!(1u64 << 32), json!(-1i64 << 32), json!(1e20)] {
                        with(x);
                    }
                }
            }
            Value::Bool(x) => {
                with(json!(*x as i32));
                with(json!(x.to_string()));
            }
            Value::String(_) => {
                with(json!(5));
                with(json!(false));
            }
            Value::Array(_) | Value::Object(_) => {
                with(json!("x"));
                with(json!(5));
            }
            Value::Null => {}
        }
        let missing = p.last().filter(|_| matches!(whole.pointer(&pointer(&p[..p.len() - 1])), Some(Value::Object(_))));
        if let Some(key) = missing {
            let mut v = whole.clone();
            v.pointer_mut(&pointer(&p[..p.len() - 1])).unwrap().as_object_mut().unwrap().remove(key);
            damaged.push(v);
        }
        for v in damaged {
            cx.compared += 1;
            let told = v.clone();
            match imp::call(|| serde_json::from_value::<Frame>(v).ok().map(|x| serde_json::to_value(x).unwrap_or_default())) {
                Err(m) => return cx.fail(format!("panicked: {m}")),
                Ok(None) => {}
                Ok(Some(x)) => {
                    // what is optional may be missing
                    let mut without = whole.clone();
                    *without.pointer_mut(&pointer(&p)).unwrap() = Value::Null;
                    if x != told && !(missing.is_some() && x == without) {
                        return cx.fail(format!("{told} is read as {x}"));
                    }
                }
            }
        }
    }
}

/// All lists of a frame, all presence patterns.
pub fn t_shapes(ch: &mut Ch, cx: &mut Cx) {
    trip(cx, &shapes(ch));
}

fn shapes(ch: &mut Ch) -> Vec<Frame> {
    let n = ch.pick(3);
    let mut i = 0;
    let mut fs = vec![];
    for _ in 0..n {
        let mut f = Frame { time: 0.25 + i as f32, delta: 0.125, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
        for _ in 0..ch.pick(3) {
            i += 1;
            let axis = |b: usize| (b & 1 == 1).then_some(i as i8 - 100);
            let which = if n == 1 { ch.pick(20) } else { ch.pick(4) * 6 % 19 };
            f.new_actors.push(NewActor {
                actor_id: ActorId(i),
                name_id: (which % 2 == 0).then_some(-i),
                object_id: ObjectId(i + 5),
                initial_trajectory: Trajectory {
                    location: (which / 2 % 2 == 0).then_some(Vector3i { x: i, y: -i, z: i32::MIN + i }),
                    rotation: (which > 3).then_some(Rotation { yaw: axis(which), pitch: axis(which >> 1), roll: axis(which >> 2) }),
                },
            });
        }
        for _ in 0..ch.pick(3) {
            i += 1;
            f.deleted_actors.push(ActorId(i));
        }
        for _ in 0..ch.pick(3) {
            i += 1;
            f.updated_actors.push(UpdatedAttribute {
                actor_id: ActorId(i),
                stream_id: StreamId(i + 1),
                object_id: ObjectId(-i),
                attribute: if i % 2 == 0 { Attribute::Boolean(true) } else { Attribute::Byte(i as u8) },
            });
        }
        fs.push(f);
    }
    fs
}

/// Every list a frame has, with every order and repetition of a few elements, one of them all zero
/// (thorough: longer).
pub fn t_repeats(ch: &mut Ch, cx: &mut Cx) {
    let n = if cx.thorough { 8 } else { 6 };
    trip(cx, &repeats(ch, n));
}

fn repeats(ch: &mut Ch, n: usize) -> Vec<Frame> {
    let place = ch.pick(10);
    let n = ch.pick(n);
    let v: Vec<i32> = (0..n).map(|_| ch.of(&[7, 0, -9])).collect();
    let frame = |x: i32| Frame {
        time: 0.5 * x.abs() as f32,
        delta: if x == 7 { 0.0 } else { 0.25 },
        new_actors: vec![],
        deleted_actors: vec![],
        updated_actors: vec![],
    };
    let byte = |x: &i32| *x as u8;
    let product = |x: &i32| Product { unknown: *x == 7, object_ind: ObjectId(*x), value: ProductValue::NewColor(*x as u32) };
    let inner = |x: &i32| match x {
        7 => vec![product(x); 2],
        0 => vec![],
        _ => vec![product(x)],
    };
    let id = |unknown1, name: &str| {
        let online_id = 0;
        if name.is_empty() {
            RemoteId::Switch(SwitchId { online_id, unknown1 })
        } else {
            RemoteId::PlayStation(Ps4Id { online_id, name: name.into(), unknown1 })
        }
    };
    let attr = |attribute| {
        let mut f = frame(2);
        f.updated_actors.push(UpdatedAttribute { actor_id: ActorId(0), stream_id: StreamId(0), object_id: ObjectId(0), attribute });
        f
    };
    let uid = |remote_id| attr(Attribute::UniqueId(Box::new(UniqueId { system_id: 0, remote_id, local_id: 0 })));
    match place {
        0 => v.iter().map(|x| frame(*x)).collect(),
        1 => vec![Frame {
            new_actors: v
                .iter()
                .map(|x| NewActor {
                    actor_id: ActorId(*x),
                    name_id: Some(*x),
                    object_id: ObjectId(*x),
                    initial_trajectory: Trajectory {
                        location: Some(Vector3i { x: *x, y: *x, z: *x }),
                        rotation: Some(Rotation { yaw: Some(*x as i8), pitch: None, roll: Some(0) }),
                    },
                })
                .collect(),
            ..frame(1)
        }],
        2 => vec![Frame { deleted_actors: v.iter().map(|x| ActorId(*x)).collect(), ..frame(1) }],
        3 => vec![Frame {
            updated_actors: v
                .iter()
                .map(|x| UpdatedAttribute {
                    actor_id: ActorId(*x),
                    stream_id: StreamId(*x),
                    object_id: ObjectId(*x),
                    attribute: Attribute::Int(*x),
                })
                .collect(),
            ..frame(1)
        }],
        4 => vec![attr(Attribute::LoadoutOnline(v.iter().map(inner).collect()))],
        5 => vec![attr(Attribute::LoadoutOnline(vec![v.iter().map(product).collect()]))],
        6 => vec![attr(Attribute::LoadoutsOnline(LoadoutsOnline {
            blue: v.iter().map(inner).collect(),
            orange: v.iter().rev().map(inner).collect(),
            unknown1: false,
            unknown2: true,
        }))],
        7 => vec![uid(id(v.iter().map(byte).collect(), ""))],
        8 => vec![uid(id(v.iter().map(byte).collect(), "p"))],
        _ => vec![uid(RemoteId::PsyNet(PsyNetId { online_id: 0, unknown1: v.iter().map(byte).collect() }))],
    }
}

fn chars(block: usize, size: usize) -> Vec<char> {
    (block * size..(block + 1) * size).filter_map(|x| char::from_u32(x as u32)).collect()
}

/// Every character, in every place a frame has text.
pub fn t_chars(ch: &mut Ch, cx: &mut Cx) {
    let block = ch.pick(0x110000 / 256);
    let place = if cx.thorough || block < 16 { ch.pick(7) } else { 0 };
    let cs = chars(block, 256);
    if cs.is_empty() {
        return;
    }
    let all: String = cs.iter().collect();
    let mk = |s: String| -> Attribute {
        match place {
            0 => Attribute::String(s),
            1 => Attribute::UniqueId(Box::new(UniqueId { system_id: 11, remote_id: RemoteId::Epic(s), local_id: 1 })),
            2 => Attribute::UniqueId(Box::new(UniqueId {
                system_id: 2,
                remote_id: RemoteId::PlayStation(Ps4Id { online_id: 1, name: s, unknown1: vec![] }),
                local_id: 1,
            })),
            3 => Attribute::PrivateMatch(Box::new(PrivateMatchSettings {
                mutators: s.clone(),
                joinable_by: 1,
                max_players: 2,
                game_name: s.clone(),
                password: s,
                flag: true,
            })),
            4 => Attribute::RepStatTitle(RepStatTitle { unknown: true, name: s, unknown2: false, index: 1, value: 2 }),
            5 => Attribute::LoadoutOnline(vec![vec![Product { unknown: true, object_ind: ObjectId(1), value: ProductValue::Title(s) }]]),
            _ => Attribute::Reservation(Box::new(Reservation {
                number: 1,
                unique_id: UniqueId { system_id: 0, remote_id: RemoteId::SplitScreen(3), local_id: 1 },
                name: Some(s),
                unknown1: true,
                unknown2: true,
                unknown3: None,
            })),
        }
    };
    let mut v = vec![mk(all)];
    v.extend(cs.iter().map(|c| mk(c.to_string())));
    trip(cx, &v);
}

/// Opaque bytes and small integers.
pub fn t_ints(ch: &mut Ch, cx: &mut Cx) {
    let w = longs();
    let v: Vec<Attribute> = match ch.pick(12) {
        0 => (0..=255).map(Attribute::Byte).collect(),
        1 => (0..2048).map(Attribute::Enum).collect(),
        2 => w.iter().map(|x| Attribute::Int(*x as i32)).collect(),
        3 => (0..16384).map(Attribute::PlayerHistoryKey).collect(),
        4 => (0..512).map(|x| Attribute::FlaggedByte(x > 255, x as u8)).collect(),
        5 => (0..512).map(|x| Attribute::GameMode(if x > 255 { 2 } else { 8 }, x as u8)).collect(),
        6 => (0..=255u8)
            .map(|x| Attribute::Rotation(Rotation { yaw: Some(x as i8), pitch: None, roll: Some(!x as i8) }))
            .collect(),
        7 => (0..=255u8)
            .map(|x| {
                Attribute::UniqueId(Box::new(UniqueId {
                    system_id: x,
                    remote_id: RemoteId::Switch(SwitchId { online_id: 3, unknown1: (0..x).map(|i| i ^ x).collect() }),
                    local_id: !x,
                }))
            })
            .collect(),
        8 => w.iter().map(|x| Attribute::StatEvent(StatEvent { unknown1: x % 2 == 0, object_id: *x as i32 })).collect(),
        9 => w
            .iter()
            .map(|x| {
                let x = *x as u32;
                Attribute::LoadoutOnline(vec![
                    [
                        ProductValue::OldColor(x),
                        ProductValue::NewColor(x),
                        ProductValue::OldPaint(x),
                        ProductValue::NewPaint(x),
                        ProductValue::SpecialEdition(x),
                        ProductValue::OldTeamEdition(x),
                        ProductValue::NewTeamEdition(x),
                        ProductValue::NoColor,
                        ProductValue::Absent,
                    ]
                    .into_iter()
                    .map(|value| Product { unknown: x % 2 == 1, object_ind: ObjectId(x as i32), value })
                    .collect(),
                    vec![],
                ])
            })
            .collect(),
        10 => (0..16)
            .map(|x| {
                Attribute::Pickup(Pickup { instigator: (x & 1 == 1).then_some(ActorId(x - 3)), picked_up: x & 2 == 2 })
            })
            .collect(),
        _ => vec![Attribute::PartyLeader(None), Attribute::Boolean(true), Attribute::Boolean(false)],
    };
    trip(cx, &v);
}

pub fn t_real(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(corpus().len());
    if !cx.thorough && i % 9 != 0 {
        return;
    }
    let (name, d) = &corpus()[i];
    cx.say(|| name.clone());
    let Some(fs) = frames_of(d) else { return };
    for f in fs.chunks(200) {
        trip(cx, &f.to_vec());
    }
}

pub fn c17() -> Vec<Fam> {
    vec![
        f("attrs", 1, t_attrs),
        f("floats", 0, t_floats),
        f("longs", 0, t_longs),
        f("strict", 0, t_strict),
        f("damaged", 1, t_damaged),
        f("shapes", 0, t_shapes),
        f("repeats", 0, t_repeats),
        f("chars", 0, t_chars),
        f("ints", 0, t_ints),
        f("all_floats", 0, t_all_floats),
        f("real", 0, t_real),
    ]
}

// ---------------------------------------------------------------- C18

/// The JSON of a replay says exactly what the replay says, in all the ways it can be written.
fn says(cx: &mut Cx, r: &Replay) {
    if cx.forms > 0 {
        return super::c32::says(cx, r);
    }
    let want = r.j();
    cx.outcome(&canon(r));
    let made = imp::call(|| {
        let s = serde_json::to_string(r).map_err(|e| e.to_string())?;
        let p = serde_json::to_string_pretty(r).map_err(|e| e.to_string())?;
        let mut w = vec![];
        serde_json::to_writer(&mut w, r).map_err(|e| e.to_string())?;
        let again = serde_json::to_string(&r.clone()).map_err(|e| e.to_string())?;
        Ok::<_, String>((s, p, w, again))
    });
    let (s, p, w, again) = match made {
        Err(m) => return cx.fail(format!("panicked: {m}")),
        Ok(Err(e)) => return cx.fail(format!("does not serialize: {e}")),
        Ok(Ok(x)) => x,
    };
    for text in [&s, &p] {
        cx.compared += 1;
        match parse_json(text) {
            Err(e) => cx.fail(format!("not JSON: {e}")),
            Ok(j) => {
                if let Err(e) = same_json(&want, &j, &mut String::new()) {
                    cx.fail(e);
                }
            }
        }
    }
    if w != s.as_bytes() || again != s {
        cx.fail("two serializations of one replay differ");
    }
}

/// Of what the reference makes of the file.
pub fn says_file(cx: &mut Cx, d: &[u8], net: NetworkParse) {
    match refdec::parse(d, CrcCheck::Never, net) {
        Ok(r) => says(cx, &r),
        Err(_) => cx.skipped += 1,
    }
}

pub fn j_lists(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let a = alphabet();
    let n = ch.pick(4);
    let same = ch.flip();
    let mut r = Rep::new().with_ver(ver);
    for i in 0..n {
        let key = if same { "k".to_string() } else { format!("k{}", n - i) };
        r.props.push(k(&key, a[ch.pick(a.len())].clone()));
    }
    says_file(cx, &r.bytes(), NetworkParse::Never);
}

/// Names in every order: nothing is sorted, merged or dropped.
pub fn j_order(ch: &mut Ch, cx: &mut Cx) {
    const N: [&str; 8] = ["k3", "a", "Z", "k10", "a", "", "b c", "\u{e9}"];
    let n = 2 + ch.pick(if cx.thorough { 120 } else { 40 });
    let (step, lead) = (ch.of(&[1usize, 3, 5, 7]), ch.pick(8));
    let mut r = Rep::new();
    let list = |n: usize| -> Props {
        (0..n)
            .map(|i| {
                let j = lead + i * step;
                let name = if i < 8 { N[j % 8].to_string() } else { format!("{}{}", N[j % 8], j / 8) };
                k(&name, P::Int(i as i32))
            })
            .collect()
    };
    match ch.pick(3) {
        0 => r.props = list(n),
        1 => r.props = vec![k("S", P::Struct("T".into(), list(n)))],
        _ => r.props = vec![k("A", P::Arr(vec![list(n), list(2), list(n)]))],
    }
    if ch.flip() {
        let all = std::mem::take(&mut r.props);
        r.props = vec![k("o", P::Struct("".into(), vec![k("z", P::Arr(vec![all]))])), k("b", P::Int(1)), k("a", P::Int(1))];
    }
    says_file(cx, &r.bytes(), NetworkParse::Never);
}

pub fn j_trees(ch: &mut Ch, cx: &mut Cx) {
    let mut budget = if cx.thorough { 6 } else { 5 };
    let mut r = Rep::new();
    r.props = tree(ch, 3, &mut budget, &mut 0);
    says_file(cx, &r.bytes(), NetworkParse::Never);
}

pub fn j_values(ch: &mut Ch, cx: &mut Cx) {
    let w = longs();
    let tx = texts();
    let p = match ch.pick(7) {
        0 => P::Bool(ch.pick(4) as u8),
        1 => P::Byte(b"OnlinePlatform".to_vec(), [&b"x"[..], b"", b"None"][ch.pick(3)].to_vec()),
        2 => P::Float(F32S[ch.pick(F32S.len())]),
        3 => P::Int(w[ch.pick(w.len())] as u32 as i32),
        4 => P::QWord(w[ch.pick(w.len())]),
        5 => P::Name(tx[ch.pick(tx.len())].clone()),
        _ => P::Str(tx[ch.pick(tx.len())].clone()),
    };
    let quirks = ch.flip();
    let mut r = Rep::new();
    if quirks {
        r = r.with_ver((0, 0, 0));
    }
    r.props = match ch.pick(3) {
        0 => vec![k("V", p.clone()), k("V", p)],
        1 => vec![k("S", P::Struct("x\"\\".into(), vec![k("V", p)])), k("Z", P::Int(1))],
        _ => vec![k("S", P::Arr(vec![vec![k("V", p.clone()), k("V", p)], vec![]]))],
    };
    says_file(cx, &r.bytes(), NetworkParse::Never);
}

pub fn j_floats(ch: &mut Ch, cx: &mut Cx) {
    let hi = ch.pick(512) as u32;
    let mut r = Rep::new();
    r.props = mantissas().into_iter().map(|m| k("f", P::Float(hi << 23 | m))).collect();
    r.keyframes = mantissas().into_iter().map(|m| (hi << 23 | m, 1, 2)).collect();
    says_file(cx, &r.bytes(), NetworkParse::Never);
}

/// Every list at several lengths, together with its neighbours.
pub fn j_body(ch: &mut Ch, cx: &mut Cx) {
    let mut r = Rep::new();
    for which in 0..11 {
        if which == 2 {
            continue;
        }
        if which == 10 && !r.cache.is_empty() {
            break;
        }
        let n = ch.devof(&[0usize, 1, 2, 5, 26]);
        if n > 0 {
            set_list(&mut r, which, n);
        }
    }
    says_file(cx, &r.bytes(), NetworkParse::Never);
}

/// Lists with repeated elements and lists that are not sorted.
pub fn j_patterns(ch: &mut Ch, cx: &mut Cx) {
    let which = ch.pick(11);
    let mut lens: Vec<usize> = (2..=if cx.thorough { 140 } else { 24 }).collect();
    lens.extend([32, 33, 64, 65, 256, 257, 1025]);
    let n = lens[ch.pick(lens.len())];
    says_file(cx, &patterned(ch, which, n).bytes(), NetworkParse::Never);
}

/// Frames of every shape, as part of a replay.
pub fn j_frames(ch: &mut Ch, cx: &mut Cx) {
    let frames = match ch.flip() {
        true => shapes(ch),
        false => repeats(ch, if cx.thorough { 8 } else { 6 }),
    };
    let d = Rep::new().bytes();
    if let Ok(mut r) = refdec::parse(&d, CrcCheck::Never, NetworkParse::Never) {
        r.network_frames = Some(NetworkFrames { frames });
        says(cx, &r);
    }
}

pub fn j_head(ch: &mut Ch, cx: &mut Cx) {
    let w = longs();
    let x = w[ch.pick(w.len())];
    let mut r = Rep::new();
    match ch.pick(6) {
        0 => r.major = x as i32,
        1 => r.minor = x as i32,
        2 => r.net = x as i32,
        3 => {
            r.keyframes = vec![(0, x as i32, (x >> 32) as i32), (0, (x >> 32) as i32, x as i32)];
            r.ticks = vec![(t("t"), x as i32)];
        }
        4 => {
            r.debug = vec![(x as i32, t("u"), t("v"))];
            r.classes = vec![(b"c".to_vec(), x as i32)];
        }
        _ => r.cache = vec![(x as i32, (x >> 32) as i32, x as i32, vec![((x >> 32) as i32, x as i32)])],
    }
    // checksums are free to choose
    let mut d = r.bytes();
    if ch.flip() {
        let h = r.head_bytes().len();
        d[4..8].copy_from_slice(&(x as u32).to_le_bytes());
        d[12 + h..16 + h].copy_from_slice(&((x >> 32) as u32).to_le_bytes());
    }
    says_file(cx, &d, NetworkParse::Never);
}

/// Every character in texts of the header and the lists.
fn j_chars(ch: &mut Ch, cx: &mut Cx) {
    let block = ch.pick(0x110000 / 256);
    let p = if cx.thorough || block < 16 { ch.pick(PLACES + 1) } else { ch.of(&[PLACES, 7]) };
    let cs = chars(block, 256);
    if cs.is_empty() {
        return;
    }
    let mut r = Rep::new();
    if p == PLACES {
        // keys, and names of structs and bytes
        for c in cs {
            if c == '\0' {
                continue;
            }
            r.props.push((c.to_string().into_bytes(), P::Struct(c.to_string(), vec![k(&format!("a{c}"), P::Int(1))])));
            r.props.push(k("b", P::Byte(format!("k{c}").into_bytes(), c.to_string().into_bytes())));
            r.classes.push((c.to_string().into_bytes(), 1));
        }
    } else {
        let x: Vec<Txt> = if p == 9 {
            vec![Txt::U(cs.iter().collect::<String>().encode_utf16().collect())]
        } else {
            cs.iter().map(|c| Txt::U(c.to_string().encode_utf16().collect())).collect()
        };
        place(&mut r, p, x);
    }
    says_file(cx, &r.bytes(), NetworkParse::Never);
}

pub fn j_attrs(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    let rl223 = tag == Tag::QWordString && ch.flip();
    let mut g = G::new(ch, ver, 3);
    g.rl223 = rl223;
    g.attr(tag);
    let w = g.w.clone();
    says_file(cx, &one(tag, ver, rl223, &w), NetworkParse::Always);
}

fn j_net_texts(ch: &mut Ch, cx: &mut Cx) {
    let p = ch.pick(NET_PLACES);
    let b = ch.pick(256);
    let x = match ch.pick(3) {
        0 => Txt::W(vec![b as u8, b'!']),
        1 => Txt::U(vec![b as u16 * 257, 0x21]),
        _ => Txt::U(vec![0xd800 + b as u16, 0xdc00 + b as u16]),
    };
    says_file(cx, &super::c02::net_place(p, &x), NetworkParse::Always);
}

/// 64-bit integers of attributes.
fn j_longs(ch: &mut Ch, cx: &mut Cx) {
    let kind = match ch.pick(20) {
        0 => 0,
        1 => 1,
        x => x + 4,
    };
    let mut r = refdec::parse(&Rep::new().bytes(), CrcCheck::Never, NetworkParse::Never).ok().unwrap();
    r.network_frames = Some(NetworkFrames {
        frames: vec![attr_frame(longs().into_iter().map(|x| long_attr(kind, x)).collect())],
    });
    says(cx, &r);
}

pub fn j_seeds(ch: &mut Ch, cx: &mut Cx) {
    let d = seed(ch.pick(4)).bytes();
    says_file(cx, &d, ch.of(&[NetworkParse::Always, NetworkParse::Never]));
}

pub fn j_real(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(corpus().len());
    let (name, d) = &corpus()[i];
    cx.say(|| name.clone());
    let net = if cx.thorough || i % 9 == 0 { NetworkParse::IgnoreOnError } else { NetworkParse::Never };
    says_file(cx, d, net);
}

pub fn c18() -> Vec<Fam> {
    vec![
        f("lists", 0, j_lists),
        f("order", 0, j_order),
        f("trees", 0, j_trees),
        f("values", 0, j_values),
        f("floats", 0, j_floats),
        f("body", 4, j_body),
        f("patterns", 0, j_patterns),
        f("frames", 0, j_frames),
        f("head", 0, j_head),
        f("chars", 0, j_chars),
        f("attrs", 1, j_attrs),
        f("net_texts", 0, j_net_texts),
        f("longs", 0, j_longs),
        f("seeds", 0, j_seeds),
        f("real", 0, j_real),
    ]
}

// ---------------------------------------------------------------- C19

/// Numbers and names a message has to mention, and the error it wraps.
fn told(e: &ParseError) -> (Vec<String>, Option<&(dyn std::error::Error + 'static)>) {
    use std::error::Error;
    match e {
        ParseError::ParseError(s, o, e) => (vec![s.to_string(), o.to_string(), e.to_string()], Some(&**e as &dyn Error)),
        ParseError::Utf8Error(e) => (vec![e.to_string()], Some(e)),
        ParseError::TextTooLarge(n) => (vec![n.to_string()], None),
        ParseError::InsufficientData(a, b) => (vec![a.to_string(), b.to_string()], None),
        ParseError::UnexpectedProperty(s) => (vec![s.clone()], None),
        ParseError::CrcMismatch(a, b) => (vec![a.to_string(), b.to_string()], None),
        ParseError::CorruptReplay(s, e) => (vec![s.clone()], Some(&**e as &dyn Error)),
        ParseError::ListTooLarge(n) => (vec![n.to_string()], None),
        ParseError::NetworkError(e) => (vec![e.to_string()], Some(&**e as &dyn Error)),
    }
}

fn net_told(e: &NetworkError) -> (Vec<String>, Option<&(dyn std::error::Error + 'static)>) {
    match e {
        NetworkError::StreamTooLargeIndex(a, b) => (vec![a.to_string(), b.to_string()], None),
        NetworkError::TooManyFrames(n) => (vec![n.to_string()], None),
        NetworkError::FrameError(e, _) => (vec![e.to_string()], Some(e)),
        _ => (vec![], None),
    }
}

fn frame_told(e: &FrameError) -> (Vec<String>, Option<&(dyn std::error::Error + 'static)>) {
    match e {
        FrameError::TimeOutOfRange { time } => (vec![time.to_string()], None),
        FrameError::DeltaOutOfRange { delta } => (vec![delta.to_string()], None),
        FrameError::ObjectIdOutOfRange { obj } => (vec![obj.to_string()], None),
        FrameError::MissingActor { actor } => (vec![actor.to_string()], None),
        FrameError::MissingCache { actor, actor_object } => (vec![actor.to_string(), actor_object.to_string()], None),
        FrameError::MissingAttribute { actor, actor_object, attribute_stream } => {
            (vec![actor.to_string(), actor_object.to_string(), attribute_stream.to_string()], None)
        }
        FrameError::AttributeError { actor, actor_object, attribute_stream, error } => (
            vec![actor.to_string(), actor_object.to_string(), attribute_stream.to_string(), error.to_string()],
            Some(error),
        ),
        _ => (vec![], None),
    }
}

fn attr_told(e: &AttributeError) -> Vec<String> {
    match e {
        AttributeError::UnrecognizedRemoteId(n) => vec![n.to_string()],
        AttributeError::TooBigString(n) => vec![n.to_string()],
        _ => vec![],
    }
}

/// Messages mention the values, and sources lead to the innermost cause.
fn messages(top: &ParseError) -> Result<(), String> {
    use std::error::Error;
    let mut cur: &(dyn Error + 'static) = top;
    for _ in 0..100 {
        let msg = cur.to_string();
        let (needs, want) = if let Some(e) = cur.downcast_ref::<ParseError>() {
            told(e)
        } else if let Some(e) = cur.downcast_ref::<Box<ParseError>>() {
            told(e)
        } else if let Some(e) = cur.downcast_ref::<NetworkError>() {
            net_told(e)
        } else if let Some(e) = cur.downcast_ref::<Box<NetworkError>>() {
            net_told(e)
        } else if let Some(e) = cur.downcast_ref::<FrameError>() {
            frame_told(e)
        } else if let Some(e) = cur.downcast_ref::<AttributeError>() {
            (attr_told(e), None)
        } else {
            (vec![], None)
        };
        for n in needs {
            if !msg.contains(&n) {
                return Err(format!("message {msg:?} does not mention {n:?}"));
            }
        }
        match (cur.source(), want) {
            (None, None) => return Ok(()),
            (Some(s), Some(w)) => {
                if s.to_string() != w.to_string() {
                    return Err(format!("source of {msg:?} is {s}, want {w}"));
                }
                cur = s;
            }
            (Some(s), None) => return Err(format!("source of {msg:?} is {s}, want none")),
            (None, Some(w)) => return Err(format!("{msg:?} has no source, want {w}")),
        }
    }
    Err("sources do not end".into())
}

/// What the message says about the place in the frames where decoding stopped.
fn place_told(msg: &str, s: &refdec::Stop) -> Result<(), String> {
    let mut need = vec![format!("Current frame: {}", s.frames.len())];
    let name = |o: ObjectId| s.objects.get(o.0 as usize).cloned();
    if let Some(f) = s.frames.last() {
        need.push(format!("time: {}", f.time));
        need.push(format!("delta: {}", f.delta));
    }
    let mut last = Some((s.frames.len(), &s.current));
    if s.current.updated_actors.is_empty() && s.current.new_actors.is_empty() {
        last = s.frames.iter().enumerate().rev().find(|(_, f)| !f.updated_actors.is_empty() || !f.new_actors.is_empty());
        if let Some((i, f)) = last {
            need.push(format!("frame: {i}"));
            need.push(format!("time: {}", f.time));
        }
    }
    if let Some((_, f)) = last {
        if let Some(u) = f.updated_actors.last() {
            need.push(format!("actor id: {}", u.actor_id));
            need.push(format!("attribute stream id: {}", u.stream_id));
            need.push(format!("attribute object id: {}", u.object_id));
            need.extend(name(u.object_id));
            // what the actor is, unless it has become something else since, or nothing
            let all = || s.frames.iter().chain([&s.current]);
            let mut is = all().flat_map(|f| &f.new_actors).filter(|n| n.actor_id == u.actor_id).map(|n| n.object_id);
            if let Some(o) = is.next() {
                if is.all(|x| x == o) && !all().any(|f| f.deleted_actors.contains(&u.actor_id)) {
                    need.push(format!("\nobject id: {o}\n"));
                    need.extend(name(o).map(|x| format!("\nobject name: {x}\n")));
                }
            }
        } else if let Some(n) = f.new_actors.last() {
            need.push(format!("actor id: {}", n.actor_id));
            need.push(format!("object id: {}", n.object_id));
            need.extend(name(n.object_id));
            need.extend(n.name_id.map(|x| format!("name id: {x}")));
        }
    }
    for n in need {
        if !msg.contains(&n) {
            return Err(format!("message does not mention {n:?}: {msg:?}"));
        }
    }
    Ok(())
}

/// What the message says about attributes that share the stream id of a bad one: every name of such
/// an attribute once, in order, and which of them are unknown.
fn sharing_told(msg: &str, s: &refdec::Stop) -> Result<(), String> {
    use refdec::F;
    let (obj, sid) = match s.error {
        F::MissingAttr(_, obj, sid) => (obj, sid),
        F::Attr(_, obj, sid, _) => (obj, sid),
        F::MissingCache(_, obj) => {
            let name = &s.objects[obj as usize];
            return if msg.contains(&format!("({name})")) { Ok(()) } else { Err(format!("message does not mention {name:?}: {msg:?}")) };
        }
        _ => return Ok(()),
    };
    let name = |o: i32| s.objects[o as usize].as_str();
    let declared = s.world.class[obj as usize].as_ref().and_then(|c| c.attrs.get(&sid));
    if let Some((Tag::NotImplemented, o)) = declared {
        let want = format!("attribute: {}\n", name(*o));
        return if msg.contains(&want) { Ok(()) } else { Err(format!("message does not mention {want:?}: {msg:?}")) };
    }
    let want = match declared {
        Some(_) => format!(") on {} in network cache data", name(obj)),
        None => format!("did not find attribute id ({sid}) on {} ", name(obj)),
    };
    if !msg.contains(&want) {
        return Err(format!("message does not mention {want:?}: {msg:?}"));
    }
    let all: std::collections::BTreeSet<&str> =
        s.world.class.iter().flatten().filter_map(|c| c.attrs.get(&sid)).map(|x| name(x.1)).collect();
    let unknown: Vec<&str> = all.iter().copied().filter(|n| !refdec::attrs().contains_key(n)).collect();
    let all: Vec<String> = all.iter().map(|n| format!("({n})")).collect();
    for want in [format!("unknown attributes: [{}],", unknown.join(", ")), format!("all attributes with that stream id: [{}].", all.join(", "))] {
        if !msg.contains(&want) {
            return Err(format!("message does not mention {want:?}: {msg:?}"));
        }
    }
    Ok(())
}

pub fn full(cx: &mut Cx, d: &[u8], crc: CrcCheck, net: NetworkParse) {
    refdec::watch(true);
    let (got, _) = check(cx, d, crc, net, Part::All, Lvl::Full);
    let stop = refdec::stopped();
    refdec::watch(false);
    if cx.fail.is_some() {
        return;
    }
    let Got::Err(e) = got else { return };
    match imp::call(|| {
        messages(&e)?;
        if let (Some(s), ParseError::NetworkError(n)) = (&stop, &*e) {
            if matches!(**n, NetworkError::FrameError(..)) && !refdec::was_unspecified() {
                let msg = e.to_string();
                place_told(&msg, s)?;
                sharing_told(&msg, s)?;
            }
        }
        Ok::<_, String>(())
    }) {
        Ok(Ok(())) => {}
        Ok(Err(m)) => cx.fail(m),
        Err(m) => cx.fail(format!("panicked: {m}")),
    }
}

fn seeds(i: usize) -> Vec<u8> {
    seed(i).bytes()
}

/// Files cut short.
fn e_trunc(ch: &mut Ch, cx: &mut Cx) {
    let d = seeds(ch.pick(4));
    let at = ch.pick(d.len());
    full(cx, &d[..at], ch.of(&CRCS), NetworkParse::Always);
}

/// Sections cut short, their sizes and checksums adjusted or not.
fn e_sections(ch: &mut Ch, cx: &mut Cx) {
    let r = seed(ch.pick(4));
    let (mut h, mut b) = (r.head_bytes(), r.body_bytes());
    if ch.flip() {
        h.truncate(ch.pick(h.len()));
        // nothing behind it to read on in
        b.clear();
    } else {
        b.truncate(ch.pick(b.len()));
    }
    let bad = ch.pick(3) as u32;
    let d = file_with(&h, h.len() as i32, crate::refdec::crc_ref(&h) ^ (bad & 1), &b, b.len() as i32, crate::refdec::crc_ref(&b) ^ (bad & 2));
    full(cx, &d, ch.of(&CRCS), NetworkParse::Always);
}

fn e_bytes(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seeds(ch.pick(4));
    let i = ch.pick(d.len());
    let x = if cx.thorough { 1 + ch.pick(255) as u8 } else { ch.of(&[1u8, 2, 0x40, 0x80, 0xff, 0x7f, 0x11]) };
    d[i] ^= x;
    full(cx, &d, ch.of(&CRCS), NetworkParse::Always);
}

fn e_words(ch: &mut Ch, cx: &mut Cx) {
    let mut d = seeds(ch.pick(4));
    let i = ch.pick(d.len() - 3);
    let x = ch.of(&I32S);
    d[i..i + 4].copy_from_slice(&x.to_le_bytes());
    full(cx, &d, CrcCheck::Never, NetworkParse::Always);
}

/// Properties of unknown kind, keys that are not UTF-8, lists and texts of bad size, anywhere in a
/// tree of properties.
fn e_header(ch: &mut Ch, cx: &mut Cx) {
    let ver = LAYOUTS[ch.pick(2)];
    let bad = match ch.pick(12) {
        0 => k("bad", P::Raw(b"WeirdProperty".to_vec(), vec![0; 4])),
        1 => k("bad", P::Raw(b"".to_vec(), vec![0; 4])),
        2 => k("bad", P::Raw("Int\u{e9}\u{4e2d}".as_bytes().to_vec(), vec![])),
        3 => (b"k\xff".to_vec(), P::Int(1)),
        4 => k("bad", P::Raw(b"a\xc3\x28z".to_vec(), vec![])),
        5 => k("bad", P::Byte(b"k".to_vec(), b"\xe4\xb8".to_vec())),
        6 => k("bad", P::Str(Txt::Raw(10_001, vec![0; 9]))),
        7 => k("bad", P::Name(Txt::Raw(-10_001, vec![0; 9]))),
        8 => k("bad", P::Str(Txt::Raw(i32::MIN, vec![]))),
        9 => k("bad", P::ArrRaw(25_001, vec![])),
        10 => k("bad", P::ArrRaw(-1, vec![])),
        _ => k("bad", P::Str(Txt::Raw(10_000, vec![b'a'; 20]))),
    };
    let before = ch.pick(3);
    let mut ps: Props = (0..before).map(|i| k(&format!("p{i}"), P::Int(i as i32))).collect();
    ps.push(bad);
    ps.push(k("after", P::Int(9)));
    for _ in 0..ch.pick(3) {
        let p = if ch.flip() { P::Struct("s".into(), ps) } else { P::Arr(vec![vec![], ps]) };
        ps = vec![k("a", P::Bool(1)), k("n", p), k("z", P::Bool(0))];
    }
    let mut r = Rep::new().with_ver(ver);
    r.props = ps;
    let (h, b) = (r.head_bytes(), r.body_bytes());
    let good = ch.flip() as u32;
    let d = file_with(&h, h.len() as i32, crate::refdec::crc_ref(&h) ^ good, &b, b.len() as i32, crate::refdec::crc_ref(&b));
    full(cx, &d, ch.of(&CRCS), NetworkParse::Never);
}

/// A bad size or text in every list of the body.
fn e_body(ch: &mut Ch, cx: &mut Cx) {
    let mut r = seed(ch.of(&[0usize, 2]));
    let sizes = [-1, i32::MIN, i32::MAX, 25_001, 25_000, 10_001, -10_001, -10_000, 1 << 20];
    let n = ch.of(&sizes);
    let bad = Txt::Raw(n, vec![b'x'; 30]);
    match ch.pick(11) {
        0 => r.levels.push(bad),
        1 => r.packages.push(bad),
        2 => r.objects.push(bad),
        3 => r.names.push(bad),
        4 => r.debug.push((1, bad, t("b"))),
        5 => r.debug.push((1, t("a"), bad)),
        6 => r.ticks.push((bad, 1)),
        7 => r.game = bad,
        8 => r.classes.push((b"\xf0\x9f".to_vec(), 1)),
        // a count in front of a list
        9 => {
            let b = r.body_bytes();
            let h = r.head_bytes();
            let mut at = vec![0usize];
            let mut p = 0;
            for x in &r.levels {
                p += 4 + x.enc().1.len();
            }
            p += 4;
            at.push(p);
            p += 4 + r.keyframes.len() * 12;
            at.push(p);
            p += 4 + r.network.len();
            at.push(p);
            let i = ch.pick(at.len());
            let mut b = b;
            b[at[i]..at[i] + 4].copy_from_slice(&n.to_le_bytes());
            return full(cx, &file(&h, &b), CrcCheck::Never, NetworkParse::Always);
        }
        _ => {
            let mut b = r.body_bytes();
            let l = b.len();
            // the last list of a body without net cache is the net cache
            if !r.cache.is_empty() {
                return;
            }
            b[l - 4..].copy_from_slice(&n.to_le_bytes());
            return full(cx, &file(&r.head_bytes(), &b), CrcCheck::Never, NetworkParse::Always);
        }
    }
    full(cx, &r.bytes(), ch.of(&CRCS), NetworkParse::Always);
}

/// Every kind of failure after every short history of frames.
pub fn e_frames(ch: &mut Ch, cx: &mut Cx) {
    let objs = [
        PRI,
        name_of(Tag::Byte),
        name_of(Tag::UniqueId),
        name_of(Tag::String),
        UNKNOWN_ATTR,
        "Verif.NoClass_TA",
        name_of(Tag::RigidBody),
        "Engine.Pawn",
    ];
    let mut r = Rep::new().objs(&objs);
    r.cache = vec![(0, 0, 0, vec![(1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (1, 7)])];
    let largest = 7;
    let mut n = Net::new(1023, LAST_VER, false);
    let mut frames = 1;
    n.frame(1.5, 0.25);
    let mut alive: Vec<u32> = vec![];
    for i in 0..ch.pick(5) as u32 {
        match ch.pick(4) {
            0 => {
                let id = [5, 300][i as usize % 2] + i;
                n.new_actor(id, 40 + i as i32, 0);
                alive.push(id);
            }
            1 => {
                let Some(id) = alive.last() else { return };
                n.upd(*id).attr(1, largest).w.u8(i as u8);
                n.end_upd();
            }
            2 => {
                n.end_frame().frame(2.5 + i as f32, 0.5);
                frames += 1;
            }
            _ => {
                n.del(900 + i);
            }
        }
    }
    let id = alive.last().copied();
    let kind = ch.pick(17);
    match kind {
        0 => {
            n.end_frame().frame(f32::from_bits(ch.of(&[0xbf80_0000, 0x0000_0001, 0x2edb_e6fe, 0xff80_0000])), 1.0);
        }
        1 => {
            n.end_frame().frame(3.0, f32::from_bits(ch.of(&[0xbf80_0000, 0x0000_0001, 0x2edb_e6fe, 0xff80_0000])));
        }
        2 => {
            n.new_actor(77, 1, ch.of(&[8, 9, -1, i32::MAX, i32::MIN]));
        }
        3 => {
            n.upd(ch.of(&[0u32, 1, 199, 200, 201, 1000])).attr(1, largest).w.u8(1);
        }
        // no class, and a class of which nothing is known here
        4 => {
            n.new_actor(78, 1, 5);
        }
        _ => {
            let Some(id) = id else { return };
            n.upd(id);
            match kind {
                5 => {
                    n.attr(ch.of(&[0u32, 5]), largest);
                }
                6 => {
                    n.attr(4, largest);
                }
                7 => {
                    n.attr(2, largest).w.u8(ch.of(&[3u8, 8, 9, 10, 12, 255]));
                }
                8 => {
                    n.attr(3, largest).w.i32(ch.of(&[1025, -513, i32::MAX, i32::MIN + 1]));
                }
                // data ends inside
                9 => {
                    n.attr(1, largest);
                }
                10 => {
                    n.attr(2, largest).w.u8(1).u32(7);
                }
                11 => {
                    n.attr(3, largest).w.i32(1000);
                }
                12 => {
                    n.attr(6, largest).w.bit(false);
                }
                13 => {
                    n.attr(2, largest).w.u8(11).i32(2000);
                }
                14 => {
                    n.attr(1, largest).w.u8(3);
                    n.attr(2, largest).w.u8(9);
                }
                15 => {
                    n.end_upd().end_frame();
                    n.w.put(1, 8 - n.w.n as u32 % 8);
                    frames += 1;
                }
                _ => {
                    n.end_upd();
                    n.w.bit(true);
                }
            }
        }
    }
    if !(9..=13).contains(&kind) && kind < 15 {
        for _ in 0..20 {
            n.w.u64(0x0123_4567_89ab_cdef);
        }
    }
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(frames + 3)));
    full(cx, &r.bytes(), CrcCheck::Never, NetworkParse::Always);
}

/// Failures behind many frames, the last data in the first, in the middle, in the last of them.
fn e_many(ch: &mut Ch, cx: &mut Cx) {
    let m = ch.of(&[1usize, 2, 3, 9, 10, 11, 99, 100, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1024, 65_535, 65_536, 65_537]);
    let w = W::new(LAST_VER, &[name_of(Tag::Byte), name_of(Tag::Enum)]);
    let mut n = w.net();
    let last = ch.of(&[None, Some(0usize), Some(m / 2), Some(m - 1)]);
    let update = ch.flip();
    for i in 0..m {
        n.frame(1.0 + i as f32, 0.5 + i as f32 / 1024.0);
        if last.is_some_and(|x| i <= x) {
            n.new_actor(3 + i as u32 % 900, i as i32, 0);
            if update {
                n.upd(3 + i as u32 % 900).attr(1 + i as u32 % 2, 2).w.put(i as u64 & 255, if i % 2 == 0 { 8 } else { 11 });
                n.end_upd();
            }
        }
        n.end_frame();
    }
    match ch.pick(6) {
        0 => {
            n.frame(-1.0, 0.5);
        }
        1 => {
            n.frame(9.0, 0.5).upd(1000);
        }
        2 => {
            n.frame(9.0, 0.5).new_actor(1000, 1, 5000);
        }
        3 => {
            n.frame(9.0, 0.5).new_actor(950, 1, 0).upd(950).attr(0, 2);
        }
        4 => {
            n.frame(9.0, 0.5).w.put(1, 1);
        }
        _ => {
            n.frame(9.0, 0.5).new_actor(950, 1, 0).upd(950).attr(1, 2).w.put(3, 4);
            let d = w.file(m as i32 + 1, n.bytes());
            return full(cx, &d, CrcCheck::Never, NetworkParse::Always);
        }
    }
    n.w.u64(0x0123_4567_89ab_cdef).u64(u64::MAX);
    full(cx, &w.file(m as i32 + 3, n.bytes()), CrcCheck::Never, NetworkParse::Always);
}

/// Many events in the frame in which decoding fails.
fn e_busy(ch: &mut Ch, cx: &mut Cx) {
    let m = ch.of(&[1usize, 2, 3, 4, 5, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 4096, 5000, 65_536, 70_000]);
    let w = W::new(LAST_VER, &[name_of(Tag::Byte), name_of(Tag::Enum)]);
    let mut n = w.net();
    if ch.flip() {
        n.frame(1.0, 0.5).new_actor(900, 7, 0).end_frame();
    }
    n.frame(2.0, 0.5);
    let kind = ch.pick(4);
    for i in 0..m {
        let id = 3 + i as u32 % 800;
        match kind {
            0 => {
                n.new_actor(id, i as i32, 0);
            }
            1 => {
                n.new_actor(id, i as i32, 0).upd(id).attr(1 + i as u32 % 2, 2).w.put(i as u64 & 255, if i % 2 == 0 { 8 } else { 11 });
                n.end_upd();
            }
            2 => {
                n.new_actor(id, i as i32, 0).del(id);
            }
            // one actor, updated over and over
            _ => {
                if i == 0 {
                    n.new_actor(7, 3, 0);
                }
                n.upd(7).attr(1 + i as u32 % 2, 2).w.put(i as u64 & 255, if i % 2 == 0 { 8 } else { 11 });
                n.end_upd();
            }
        }
    }
    match ch.pick(4) {
        0 => {
            n.upd(1000);
        }
        1 => {
            n.new_actor(1000, 1, 5000);
        }
        2 => {
            n.new_actor(950, 1, 0).upd(950).attr(0, 2);
        }
        _ => {
            n.new_actor(950, 1, 0).upd(950).attr(1, 2).w.put(3, 4);
            return full(cx, &w.file(2, n.bytes()), CrcCheck::Never, NetworkParse::Always);
        }
    }
    n.w.u64(0x0123_4567_89ab_cdef).u64(u64::MAX);
    full(cx, &w.file(3, n.bytes()), CrcCheck::Never, NetworkParse::Always);
}

/// Names of all lengths, with characters of every width at every offset, wherever a message shows a
/// name.
pub fn named(ch: &mut Ch, thorough: bool) -> Vec<u8> {
    let fill = ch.of(&[&['a' as u16][..], &[0xe9], &[0x4e2d], &[0xd83d, 0xde00], &[0xe9, b' ' as u16], &[b'a' as u16, 0x20ac]]);
    let lead = ch.pick(4);
    let lens: Vec<usize> = if thorough { (0..300).collect() } else { (0..36).chain([40, 50, 60, 63, 64, 65, 70, 100, 127, 128, 130, 255, 256, 300, 1000]).collect() };
    let n = lens[ch.pick(lens.len())];
    let mut u = vec![b'x' as u16; lead];
    for _ in 0..n {
        u.extend(fill);
    }
    let text = Txt::U(u.clone());
    let around = |a: &str, b: &str| Txt::U(a.encode_utf16().chain(u.iter().copied()).chain(b.encode_utf16()).collect());
    let mut r = Rep::new().objs(&["TAGame.VehiclePickup_TA", name_of(Tag::Byte), UNKNOWN_ATTR, PRI]);
    r.cache = vec![(0, 0, 0, vec![(1, 1), (2, 2)]), (3, 0, 0, vec![(1, 3)])];
    r.objects.push(text.clone());
    let mut net = Net::new(1023, LAST_VER, false);
    net.frame(1.5, 0.25);
    match ch.pick(10) {
        // undeclared attribute of a placed object
        x @ 0..=3 => {
            r.objects[4] = match x {
                0 => around("", ".TheWorld:PersistentLevel.VehiclePickup_Boost_TA_1"),
                1 => around("TheWorld:PersistentLevel.VehiclePickup_Boost_TA_", ""),
                2 => around("TheWorld:PersistentLevel.CrowdActor_TA_", ""),
                _ => around("a.TheWorld:PersistentLevel.CrowdManager_TA_", "_1"),
            };
            r.objects.push(t("TAGame.VehiclePickup_Boost_TA"));
            r.objects.push(t("TAGame.CrowdActor_TA"));
            r.objects.push(t("TAGame.CrowdManager_TA"));
            for i in 5..8 {
                r.cache.push((i, 0, 0, vec![(1, 1)]));
            }
            net.new_actor(5, 3, 4);
            if x > 1 {
                net.vec(3, 1, 2, 3);
            }
            net.upd(5).attr(2, 3);
        }
        // its name is no known property
        4 => {
            r.cache[1].3 = vec![(4, 2)];
            net.new_actor(5, 3, 3).upd(5).attr(2, 3);
        }
        // another class has it under that id
        5 => {
            r.cache[0].3.push((4, 3));
            r.cache[1].3 = vec![(1, 2)];
            net.new_actor(5, 3, 3).upd(5).attr(3, 3);
        }
        // no class
        6 => {
            net.new_actor(5, 3, 4);
        }
        // no class, in a frame behind one that used it
        7 => {
            net.new_actor(5, 3, 3).end_frame().frame(2.0, 0.5).new_actor(6, 3, 4);
        }
        // a value that is a text, then a bad one
        8 => {
            r.objects[1] = t(name_of(Tag::String));
            r.cache[1].3 = vec![(1, 2)];
            net.new_actor(5, 3, 3).upd(5).attr(2, 3);
            text.bits(&mut net.w);
            net.attr(1, 3);
        }
        // kind of a property
        _ => {
            let s = String::from_utf16_lossy(&u);
            r.props.push((s.clone().into_bytes(), P::Raw(s.into_bytes(), vec![])));
        }
    }
    net.w.u64(0).u64(0).u64(0).u64(u64::MAX);
    r.network = net.bytes();
    r.props.push(k("NumFrames", P::Int(3)));
    r.bytes()
}

fn e_names(ch: &mut Ch, cx: &mut Cx) {
    let d = named(ch, cx.thorough);
    full(cx, &d, CrcCheck::Never, NetworkParse::Always);
}

/// Classes that declare attributes under a few shared ids: known, unknown, the same ones, none;
/// inherited or not.
fn e_sharing(ch: &mut Ch, cx: &mut Cx) {
    const CLASSES: [&str; 4] = ["TAGame.PRI_TA", "TAGame.Car_TA", "TAGame.Ball_TA", "TAGame.CameraSettingsActor_TA"];
    let mut objs: Vec<&str> = CLASSES.into();
    objs.extend(["TAGame.Default__PRI_TA", "Archetypes.Car.Car_Default", "Archetypes.Ball.Ball_Default", "TAGame.Default__CameraSettingsActor_TA"]);
    objs.extend([name_of(Tag::Byte), name_of(Tag::String), "Verif.B_TA:b", "Verif.A_TA:a", "Verif.B_TA:b", name_of(Tag::Byte), "Engine.Actor", "Core.Object", "Verif.A_TA:a2"]);
    let mut r = Rep::new().objs(&objs);
    let (a, b) = ch.of(&[(1, 2), (64, 65), (63, 64), (200, 300), (1000, 5)]);
    // what each class declares under the first of two stream ids, and under the other
    for c in 0..4 {
        let mut v = vec![];
        let x = if (c < 2 && a == 1) || cx.thorough { ch.pick(7) } else { ch.of(&[0, 2, 5]) };
        if x > 0 {
            v.push((7 + x as i32, a));
        }
        if (a == 1 || c == 1) && ch.flip() {
            v.push((11 - c, b));
        }
        r.cache.push((c, 0, 0, v));
    }
    // the class of all
    if ch.flip() {
        r.cache.push((14, 0, 0, vec![(16, a)]));
    }
    let who = ch.pick(2) as i32;
    let mut n = Net::new(1023, LAST_VER, false);
    n.frame(1.5, 0.25).new_actor(5, 3, 4 + who).vec(3, 1, 2, 3);
    let (lo, hi) = (a.min(b), a.max(b));
    n.upd(5).attr(ch.of(&[0, a as u32, b as u32]), ch.of(&[lo, hi, hi + 1]));
    if ch.flip() {
        n.w.u64(0x8000_0000_8000_0000);
    } else {
        n.w.u8(0);
    }
    r.network = n.bytes();
    r.props.push(k("NumFrames", P::Int(1)));
    full(cx, &r.bytes(), CrcCheck::Never, NetworkParse::Always);
}

/// Tables and counts that do not fit.
fn e_tables(ch: &mut Ch, cx: &mut Cx) {
    let mut r = Rep::new().objs(&[PRI, name_of(Tag::Byte)]);
    let (a, b) = (ch.of(&I32S), ch.of(&I32S));
    match ch.pick(3) {
        0 => r.cache = vec![(0, 0, 0, vec![(a, b)])],
        1 => r.cache = vec![(0, 0, 0, vec![(1, 1)]), (1, 0, 0, vec![(1, 2), (a, b)])],
        _ => {
            r.cache = vec![(0, 0, 0, vec![(1, 1)])];
            r.network = vec![0; (b & 63) as usize];
        }
    }
    r.props.push(k("NumFrames", P::Int(a)));
    full(cx, &r.bytes(), CrcCheck::Never, NetworkParse::Always);
}

/// Attribute data that ends at every bit.
pub fn e_cut(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(3)];
    let w = W::new(ver, &[name_of(tag), name_of(Tag::Byte)]);
    let mut n = w.net();
    n.frame(1.0, 0.5).new_actor(3, 1, 0);
    n.upd(3).attr(2, w.largest).w.u8(1);
    n.attr(1, w.largest);
    let p: BitW = default_attr(tag, ver, w.product0, false);
    let before = n.w.n.div_ceil(8);
    n.w.append(&p);
    let b = n.bytes();
    let len = before + ch.pick(b.len() - before + 1);
    full(cx, &w.file(1, b[..len].to_vec()), CrcCheck::Never, NetworkParse::Always);
}

fn e_sums(ch: &mut Ch, cx: &mut Cx) {
    let r = seed(ch.pick(4));
    let (h, b) = (r.head_bytes(), r.body_bytes());
    let w = words();
    let x = w[ch.pick(w.len())] as u32;
    let (hc, bc) = (crate::refdec::crc_ref(&h), crate::refdec::crc_ref(&b));
    let which = ch.pick(3);
    let hc = if which == 1 { hc } else { x };
    let bc = if which == 0 { bc } else { x };
    full(cx, &file_with(&h, h.len() as i32, hc, &b, b.len() as i32, bc), ch.of(&CRCS), NetworkParse::Always);
}

fn e_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    // cuts and flips of real replays, without their frames
    let n = if cx.thorough { 60 } else { 4 };
    for i in 0..n {
        let at = d.len() * i / n;
        full(cx, &d[..at], CRCS[i % 3], NetworkParse::Never);
        let mut e = d.clone();
        e[at] ^= 0x91;
        full(cx, &e, CRCS[i % 3], NetworkParse::Never);
    }
    full(cx, d, CrcCheck::OnError, NetworkParse::Always);
}

pub fn c19() -> Vec<Fam> {
    vec![
        f("trunc", 0, e_trunc),
        f("sections", 0, e_sections),
        f("bytes", 0, e_bytes),
        f("words", 0, e_words),
        f("header", 0, e_header),
        f("body", 0, e_body),
        f("frames", 0, e_frames),
        f("many", 0, e_many),
        f("busy", 0, e_busy),
        f("names", 0, e_names),
        f("sharing", 0, e_sharing),
        f("tables", 0, e_tables),
        f("cut", 0, e_cut),
        f("sums", 0, e_sums),
        f("real", 0, e_real),
    ]
}
