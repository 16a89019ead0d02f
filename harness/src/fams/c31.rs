//! Equality, copies and hashes of what is decoded.

use super::c10::{one, VERS};
use super::*;
use crate::cmp::part_bytes;
use crate::gen::*;
use crate::golden::Tag;
use crate::imp::{self, Got};
use crate::refdec::Ver;
use crate::rep::*;
use crate::shape::{canon, finite, Shape, J};
use boxcars::*;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex, OnceLock};

/// What a value holds, in which the two zeros are one number; none if it holds what is not a number.
fn held<T: Shape>(x: &T) -> Option<Vec<u8>> {
    fn put(j: &J, o: &mut Vec<u8>) {
        match j {
            J::Null => o.push(0),
            J::Bool(b) => o.extend([1, *b as u8]),
            J::Int(i) => {
                o.push(2);
                o.extend(i.to_le_bytes())
            }
            J::F32(b) => {
                o.push(3);
                o.extend(if *b == 0x8000_0000 { 0 } else { *b }.to_le_bytes())
            }
            J::NumText(s) | J::Str(s) => {
                o.push(4);
                o.extend((s.len() as u32).to_le_bytes());
                o.extend(s.as_bytes())
            }
            J::Arr(v) => {
                o.push(5);
                o.extend((v.len() as u32).to_le_bytes());
                v.iter().for_each(|x| put(x, o))
            }
            J::Obj(v) => {
                o.push(6);
                o.extend((v.len() as u32).to_le_bytes());
                for (k, x) in v {
                    o.extend((k.len() as u32).to_le_bytes());
                    o.extend(k.as_bytes());
                    put(x, o)
                }
            }
        }
    }
    finite(x).then(|| {
        let mut o = vec![];
        put(&x.j(), &mut o);
        o
    })
}

type Universe = Arc<Vec<(Vec<u8>, Attribute)>>;

/// All values of a kind the payloads with up to `bound` fields out of line decode to.
fn universe(tag: Tag, ver: Ver, rl223: bool, bound: u32) -> Universe {
    static U: OnceLock<Mutex<HashMap<(Tag, Ver, bool, u32), Arc<OnceLock<Universe>>>>> = OnceLock::new();
    let cell = U.get_or_init(Default::default).lock().unwrap().entry((tag, ver, rl223, bound)).or_default().clone();
    cell.get_or_init(|| {
        let mut all = vec![];
        let mut prefix: Vec<u32> = vec![];
        let mut bound = bound;
        loop {
            // where that makes too many, those of one less
            if all.len() > 12_000 && bound > 1 {
                (all, prefix, bound) = (vec![], vec![], bound - 1);
            }
            let mut ch = Ch::new(&prefix, bound);
            let mut g = G::new(&mut ch, ver, 3);
            g.rl223 = rl223;
            g.attr(tag);
            let d = one(tag, ver, rl223, &g.w);
            if let Got::Ok(r) = imp::parse(&d, CrcCheck::Never, NetworkParse::Always) {
                if let Some(u) = r.network_frames.as_ref().and_then(|n| n.frames.first()).and_then(|f| f.updated_actors.first()) {
                    if let Some(h) = held(&u.attribute) {
                        all.push((h, u.attribute.clone()));
                    }
                }
            }
            let log = ch.log;
            let Some(i) = (0..log.len()).rev().find(|&i| log[i].0 + 1 < log[i].1) else { break };
            prefix = log[..i].iter().map(|x| x.0).collect();
            prefix.push(log[i].0 + 1);
        }
        // each value twice at most
        all.sort_by(|a, b| a.0.cmp(&b.0));
        let mut out: Vec<(Vec<u8>, Attribute)> = vec![];
        for x in all {
            if out.len() < 2 || out[out.len() - 2].0 != x.0 {
                out.push(x);
            }
        }
        Arc::new(out)
    })
    .clone()
}

fn copies<T: Shape + Clone + PartialEq + std::fmt::Debug>(cx: &mut Cx, x: &T) {
    cx.compared += 1;
    let want = canon(x);
    cx.outcome(&want);
    match imp::call(|| {
        let y = x.clone();
        let equal = y == *x && !(y != *x);
        // prints at all
        std::hint::black_box(format!("{x:?}{x:#?}"));
        (y, equal)
    }) {
        Err(m) => cx.fail(format!("panicked: {m}")),
        Ok((y, _)) if canon(&y) != want => cx.fail("a copy differs"),
        Ok((_, false)) if finite(x) => cx.fail("a copy is not equal"),
        _ => {}
    }
}

const PART: usize = 64;

/// All pairs of values of one kind.
fn e_pairs(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(if cx.thorough { 9 } else { 3 })];
    let rl223 = tag == Tag::QWordString && ch.flip();
    let u = universe(tag, ver, rl223, if cx.thorough { 3 } else { 2 });
    if u.is_empty() {
        cx.skipped += 1;
        return;
    }
    let part = ch.pick(u.len().div_ceil(PART));
    cx.say(|| format!("{tag:?} {ver:?}: {} values", u.len()));
    for (h, a) in &u[part * PART..u.len().min((part + 1) * PART)] {
        copies(cx, a);
        cx.compared += u.len() as u64;
        for (g, b) in u.iter() {
            if (a == b) != (h == g) || (b != a) != (h != g) {
                return cx.fail(format!("{a:?} and {b:?}: equal should be {}", h == g));
            }
        }
    }
}

/// A value and what its JSON gives with one number, text or flag of it changed as little as can be.
fn e_near(ch: &mut Ch, cx: &mut Cx) {
    use serde_json::{json, Value};
    fn leaves(v: &Value, at: &mut Vec<String>, out: &mut Vec<(String, Vec<Value>)>) {
        match v {
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| {
                at.push(i.to_string());
                leaves(x, at, out);
                at.pop();
            }),
            Value::Object(o) => o.iter().for_each(|(k, x)| {
                at.push(k.clone());
                leaves(x, at, out);
                at.pop();
            }),
            x => {
                let to = match x {
                    Value::Null => vec![json!(0)],
                    Value::Bool(b) => vec![json!(!b)],
                    Value::String(s) => {
                        let mut v = vec![json!(format!("{s} ")), json!(format!(" {s}")), json!(s.to_uppercase()), json!(s.to_lowercase()), json!("")];
                        if let Ok(n) = s.parse::<i128>() {
                            v.extend([1, -1, 1 << 32, 1 << 53].map(|d: i128| json!((n + d).to_string())));
                        }
                        v
                    }
                    Value::Number(n) => match n.as_i64().filter(|_| !n.is_f64()) {
                        Some(i) => [1, -1, 16, 128, 256, 0x1_0000, i64::from(i32::MIN)].iter().map(|d| json!(i.wrapping_add(*d))).collect(),
                        None => {
                            let b = (n.as_f64().unwrap() as f32).to_bits();
                            [b ^ 1, b.wrapping_add(1), b.wrapping_sub(1), b ^ 0x8000_0000, b ^ 0x100, b ^ 0x10_0000].iter().map(|b| f32::from_bits(*b)).filter(|f| f.is_finite()).map(|f| json!(f64::from(f))).collect()
                        }
                    },
                    _ => unreachable!(),
                };
                out.push((format!("/{}", at.join("/")), to));
            }
        }
    }
    let tag = ch.of(&TAGS);
    let ver = VERS[ch.pick(3)];
    let rl223 = tag == Tag::QWordString && ch.flip();
    let u = universe(tag, ver, rl223, 1);
    for (_, a) in u.iter().step_by(u.len().div_ceil(if cx.thorough { 400 } else { 40 }).max(1)) {
        let v = serde_json::to_value(a).unwrap();
        let mut out = vec![];
        leaves(&v, &mut vec![], &mut out);
        let mut others = vec![a.clone()];
        for (at, to) in out.into_iter().take(400) {
            for x in to {
                let mut w = v.clone();
                *w.pointer_mut(&at).unwrap() = x;
                if let Ok(b) = serde_json::from_value::<Attribute>(w) {
                    copies(cx, &b);
                    others.push(b);
                }
            }
        }
        let h: Vec<_> = others.iter().map(held).collect();
        let known = others.len();
        for i in 0..if known > 200 { 1 } else { known } {
            for j in 0..known {
                cx.compared += 1;
                let same = h[i].is_some() && h[i] == h[j];
                if (others[i] == others[j]) != same {
                    return cx.fail(format!("{:?} and {:?}: equal should be {same}", others[i], others[j]));
                }
            }
        }
    }
}

/// Values of different kinds, which may hold the same.
fn e_kinds(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(TAGS.len());
    let ver = VERS[0];
    let few = |t: Tag| {
        let u = universe(t, ver, false, 1);
        let step = u.len().div_ceil(24).max(1);
        u.iter().step_by(step).cloned().collect::<Vec<_>>()
    };
    let mine = few(TAGS[i]);
    for t in TAGS {
        for (g, b) in few(t) {
            for (h, a) in &mine {
                cx.compared += 1;
                if (*a == b) != (*h == g) {
                    return cx.fail(format!("{a:?} and {b:?}"));
                }
            }
        }
    }
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Player ids as keys.
fn e_keys(ch: &mut Ch, cx: &mut Cx) {
    let tag = ch.of(&[Tag::UniqueId, Tag::PartyLeader, Tag::Reservation]);
    let ver = VERS[ch.pick(9)];
    let u = universe(tag, ver, false, if cx.thorough { 3 } else { 2 });
    let id = |a: &Attribute| match a {
        Attribute::UniqueId(x) => Some((**x).clone()),
        Attribute::PartyLeader(x) => x.as_ref().map(|x| (**x).clone()),
        Attribute::Reservation(x) => Some(x.unique_id.clone()),
        _ => None,
    };
    let ids: Vec<UniqueId> = u.iter().filter_map(|x| id(&x.1)).collect();
    fn check<T: Hash + Eq + Clone + Shape + std::fmt::Debug>(cx: &mut Cx, v: &[T]) {
        let mut m: HashMap<T, Vec<u8>> = HashMap::new();
        let mut s: HashSet<Vec<u8>> = HashSet::new();
        let mut hashes: HashMap<Vec<u8>, u64> = HashMap::new();
        for x in v {
            cx.compared += 1;
            let c = canon(x);
            let h = hash_of(x);
            if h != hash_of(&x.clone()) || *hashes.entry(c.clone()).or_insert(h) != h {
                return cx.fail(format!("{x:?} has two hashes"));
            }
            if m.entry(x.clone()).or_insert_with(|| c.clone()) != &c {
                return cx.fail(format!("{x:?} found under another key"));
            }
            s.insert(c);
        }
        if m.len() != s.len() {
            cx.fail("equal keys kept apart");
        }
    }
    check(cx, &ids);
    check(cx, &ids.iter().map(|x| x.remote_id.clone()).collect::<Vec<_>>());
    let ps4: Vec<Ps4Id> = ids.iter().filter_map(|x| if let RemoteId::PlayStation(x) = &x.remote_id { Some(x.clone()) } else { None }).collect();
    let psy: Vec<PsyNetId> = ids.iter().filter_map(|x| if let RemoteId::PsyNet(x) = &x.remote_id { Some(x.clone()) } else { None }).collect();
    let switch: Vec<SwitchId> = ids.iter().filter_map(|x| if let RemoteId::Switch(x) = &x.remote_id { Some(x.clone()) } else { None }).collect();
    check(cx, &ps4);
    check(cx, &psy);
    check(cx, &switch);
    for x in ids {
        copies(cx, &x);
    }
}

fn e_ids(ch: &mut Ch, cx: &mut Cx) {
    let hi = ch.pick(1 << 10) as i32;
    for lo in 0..256 {
        let x = (hi << 8 | lo).wrapping_mul(if hi & 1 == 1 { 1 } else { 0x0101_0101 });
        cx.compared += 1;
        let h = [hash_of(&ActorId(x)), hash_of(&ObjectId(x)), hash_of(&StreamId(x))];
        if h != [hash_of(&ActorId(x)), hash_of(&ObjectId(x).clone()), hash_of(&StreamId(x))] {
            return cx.fail("one id, two hashes");
        }
    }
    cx.outcome(&hi.to_le_bytes());
}

fn sample(i: usize) -> Box<Replay> {
    let d = seed(i).bytes();
    match imp::parse(&d, CrcCheck::Always, NetworkParse::Always) {
        Got::Ok(r) => r,
        _ => panic!("seed"),
    }
}

type Edit<T> = (&'static str, fn(&mut T));

macro_rules! edits {
    ($t:ty: $($f:ident $($g:ident)*),* $(,)?) => {{
        let v: Vec<Edit<$t>> = vec![$((stringify!($f $($g)*), |x: &mut $t| { let y = &mut x.$f$(.$g)*; *y = other(y); })),*];
        v
    }};
}

/// Another value of the same type.
trait Other {
    fn other(&self) -> Self;
}
fn other<T: Other>(x: &T) -> T {
    x.other()
}
macro_rules! other_int { ($($t:ty)*) => { $(impl Other for $t { fn other(&self) -> $t { self.wrapping_add(1) } })* } }
other_int!(i8 u8 i32 u32 i64 u64);
impl Other for f32 {
    fn other(&self) -> f32 {
        f32::from_bits(self.to_bits() ^ 1)
    }
}
impl Other for bool {
    fn other(&self) -> bool {
        !self
    }
}
impl Other for String {
    fn other(&self) -> String {
        format!("{self} ")
    }
}
impl<T: Other + Default> Other for Option<T> {
    fn other(&self) -> Option<T> {
        match self {
            Some(_) => None,
            None => Some(T::default()),
        }
    }
}
impl Other for ActorId {
    fn other(&self) -> Self {
        ActorId(self.0 ^ 1)
    }
}
impl Other for ObjectId {
    fn other(&self) -> Self {
        ObjectId(self.0 ^ i32::MIN)
    }
}
impl Other for StreamId {
    fn other(&self) -> Self {
        StreamId(self.0 ^ 1)
    }
}

fn differ<T: Shape + Clone + PartialEq + std::fmt::Debug>(cx: &mut Cx, what: &str, a: &T, b: &T) {
    cx.compared += 1;
    let same = held(a) == held(b);
    match imp::call(|| (a == b, b == a)) {
        Err(m) => cx.fail(format!("{what}: panicked: {m}")),
        Ok(x) if x != (same, same) => cx.fail(format!("{what}: equal is {x:?}, want {same}")),
        _ => cx.outcome(&canon(b)),
    }
}

/// A replay and the same with one thing changed, for every thing that is in it.
fn e_fields(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(SEEDS);
    let base = sample(i);
    copies(cx, &*base);
    differ(cx, "parsed twice", &*base, &*sample(i));
    let top = edits!(Replay: header_size, header_crc, major_version, minor_version, net_version, game_type, content_size, content_crc);
    let at_each = |n: usize, f: &mut dyn FnMut(usize)| (0..n).for_each(f);
    let mut variants: Vec<(String, Box<Replay>)> = vec![];
    let mut add = |what: String, f: &dyn Fn(&mut Replay)| {
        let mut r = base.clone();
        f(&mut r);
        variants.push((what, r));
    };
    for (n, e) in top {
        add(n.into(), &|r| e(r));
    }
    macro_rules! list {
        ($r:ident . $($l:ident).+ : $t:ty : $($f:ident),*) => {{
            let n = base.$($l).+.len();
            for (what, e) in edits!($t: $($f),*) {
                at_each(n, &mut |j| add(format!("{what} of {} {j}", stringify!($($l).+)), &|r| e(&mut r.$($l).+[j])));
            }
            lists!($r . $($l).+);
        }};
    }
    macro_rules! lists {
        ($r:ident . $($l:ident).+) => {{
            let n = base.$($l).+.len();
            add(format!("no {}", stringify!($($l).+)), &|r| r.$($l).+.clear());
            at_each(n, &mut |j| add(format!("without {j} of {}", stringify!($($l).+)), &|r| { r.$($l).+.remove(j); }));
            at_each(n, &mut |j| add(format!("twice {j} of {}", stringify!($($l).+)), &|r| { let x = r.$($l).+[j].clone(); r.$($l).+.insert(j, x); }));
            at_each(n, &mut |j| add(format!("{j} of {} first", stringify!($($l).+)), &|r| r.$($l).+.swap(0, j)));
        }};
    }
    list!(r.keyframes: KeyFrame: time, frame, position);
    list!(r.debug_info: DebugInfo: frame, user, text);
    list!(r.tick_marks: TickMark: description, frame);
    list!(r.class_indices: ClassIndex: class, index);
    list!(r.net_cache: ClassNetCache: object_ind, parent_id, cache_id);
    lists!(r.levels);
    lists!(r.packages);
    lists!(r.objects);
    lists!(r.names);
    lists!(r.properties);
    for l in 0..4 {
        fn texts(r: &mut Replay, l: usize) -> &mut Vec<String> {
            match l {
                0 => &mut r.levels,
                1 => &mut r.packages,
                2 => &mut r.objects,
                _ => &mut r.names,
            }
        }
                let n = texts(&mut base.clone(), l).len();
        for j in 0..n {
            add(format!("text {l} {j}"), &|r| texts(r, l)[j].push('x'));
            add(format!("text {l} {j} first letter"), &|r| texts(r, l)[j].insert(0, 'x'));
            add(format!("text {l} {j} case"), &|r| texts(r, l)[j] = texts(r, l)[j].to_uppercase());
        }
    }
    for j in 0..base.properties.len() {
        add(format!("key {j}"), &|r| r.properties[j].0.push('x'));
        add(format!("value {j}"), &|r| r.properties[j].1 = HeaderProp::Int(987_654));
    }
    for j in 0..base.net_cache.len() {
        for m in 0..base.net_cache[j].properties.len() {
            for (what, e) in edits!(CacheProp: object_ind, stream_id) {
                add(format!("{what} of {j} {m}"), &|r| e(&mut r.net_cache[j].properties[m]));
            }
            add(format!("without property {j} {m}"), &|r| {
                r.net_cache[j].properties.remove(m);
            });
        }
    }
    add("no network".into(), &|r| r.network_frames = None);
    fn frames(r: &mut Replay) -> &mut Vec<Frame> {
        &mut r.network_frames.as_mut().unwrap().frames
    }
    let fs = &base.network_frames.as_ref().unwrap().frames;
    for j in 0..fs.len() {
        add(format!("without frame {j}"), &|r| {
            frames(r).remove(j);
        });
        for (what, e) in edits!(Frame: time, delta) {
            add(format!("{what} of frame {j}"), &|r| e(&mut frames(r)[j]));
        }
        for m in 0..fs[j].new_actors.len() {
            for (what, e) in edits!(NewActor: actor_id, name_id, object_id) {
                add(format!("{what} of {j} {m}"), &|r| e(&mut frames(r)[j].new_actors[m]));
            }
            add(format!("location of {j} {m}"), &|r| {
                let l = &mut frames(r)[j].new_actors[m].initial_trajectory.location;
                *l = if l.is_some() { None } else { Some(Vector3i { x: 0, y: 0, z: 0 }) };
            });
            for axis in 0..3 {
                add(format!("location {axis} of {j} {m}"), &|r| {
                    if let Some(l) = &mut frames(r)[j].new_actors[m].initial_trajectory.location {
                        *[&mut l.x, &mut l.y, &mut l.z][axis] ^= 1;
                    }
                });
                add(format!("rotation {axis} of {j} {m}"), &|r| {
                    let t = &mut frames(r)[j].new_actors[m].initial_trajectory;
                    let rot = t.rotation.get_or_insert(Rotation { yaw: None, pitch: None, roll: None });
                    let a = [&mut rot.yaw, &mut rot.pitch, &mut rot.roll];
                    let a = a.into_iter().nth(axis).unwrap();
                    *a = match a {
                        Some(x) => Some(*x ^ 1),
                        None => Some(0),
                    };
                });
            }
            add(format!("without new {j} {m}"), &|r| {
                frames(r)[j].new_actors.remove(m);
            });
        }
        for m in 0..fs[j].deleted_actors.len() {
            add(format!("deleted {j} {m}"), &|r| frames(r)[j].deleted_actors[m].0 += 1);
            add(format!("without deleted {j} {m}"), &|r| {
                frames(r)[j].deleted_actors.remove(m);
            });
        }
        for m in 0..fs[j].updated_actors.len() {
            for (what, e) in edits!(UpdatedAttribute: actor_id, stream_id, object_id) {
                add(format!("{what} of {j} {m}"), &|r| e(&mut frames(r)[j].updated_actors[m]));
            }
            add(format!("attribute of {j} {m}"), &|r| frames(r)[j].updated_actors[m].attribute = Attribute::Int(77_777));
            add(format!("without update {j} {m}"), &|r| {
                frames(r)[j].updated_actors.remove(m);
            });
        }
        add(format!("frame {j} empty"), &|r| frames(r)[j] = Frame { time: fs[j].time, delta: fs[j].delta, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] });
    }
    for (what, r) in variants.iter() {
        differ(cx, what, &*base, &**r);
        copies(cx, &**r);
        // the parts on their own
        differ(cx, what, &base.network_frames, &r.network_frames);
        if cx.fail.is_some() {
            return;
        }
    }
}

/// What a builder would do is what it is equal by.
fn e_builders(ch: &mut Ch, cx: &mut Cx) {
    let data: [&[u8]; 4] = [b"", b"ab", b"abc", b"abd"];
    let crc = [None, Some(CrcCheck::Always), Some(CrcCheck::Never), Some(CrcCheck::OnError)];
    let net = [None, Some(NetworkParse::Always), Some(NetworkParse::Never), Some(NetworkParse::IgnoreOnError)];
    fn make<'a>(d: &'a [u8], c: Option<CrcCheck>, n: Option<NetworkParse>) -> ParserBuilder<'a> {
        let mut b = ParserBuilder::new(d);
        if let Some(c) = c {
            b = b.with_crc_check(c);
        }
        if let Some(n) = n {
            b = b.with_network_parse(n);
        }
        b
    }
    let (d, c, n) = (ch.of(&data), ch.of(&crc), ch.of(&net));
    let a = make(d, c, n);
    for d2 in data {
        for c2 in crc {
            for n2 in net {
                cx.compared += 1;
                let b = make(d2, c2, n2);
                // an option not chosen and the same option chosen do the same: either answer is right
                let (x, y) = (c.unwrap_or(CrcCheck::OnError), c2.unwrap_or(CrcCheck::OnError));
                let (v, w) = (n.unwrap_or(NetworkParse::IgnoreOnError), n2.unwrap_or(NetworkParse::IgnoreOnError));
                if (d, c, n) == (d2, c2, n2) && (a != b || a.clone() != b) {
                    return cx.fail(format!("{a:?} differs from its like"));
                }
                if (d, x, v) != (d2, y, w) && a == b {
                    return cx.fail(format!("{a:?} is equal to {b:?}"));
                }
                if (c.is_some() && c2.is_some() && (x == y) != (x as u8 == y as u8)) || (n.is_some() && n2.is_some() && (v == w) != (v as u8 == w as u8)) {
                    return cx.fail("options");
                }
            }
        }
    }
    cx.outcome(format!("{c:?}{n:?}").as_bytes());
}

/// Errors: those of one input are equal and are copied whole, those that report different things differ.
fn e_errors(ch: &mut Ch, cx: &mut Cx) {
    let i = ch.pick(SEEDS);
    let d = seed(i).bytes();
    let kind = ch.pick(3);
    let bad = |at: usize| -> Vec<u8> {
        let mut d = d.clone();
        match kind {
            0 => d.truncate(at),
            1 => d[at] ^= 0xff,
            _ => d[at] = d[at].wrapping_add(1),
        }
        d
    };
    let at = ch.pick(d.len());
    let told = |d: &[u8]| match imp::parse(d, CrcCheck::Never, NetworkParse::Always) {
        Got::Err(e) => Some(e),
        _ => None,
    };
    let x = bad(at);
    let (Some(a), Some(b)) = (told(&x), told(&x)) else {
        cx.accepted += 1;
        return;
    };
    cx.rejected += 1;
    cx.compared += 1;
    cx.outcome(a.to_string().as_bytes());
    // nothing that is not a number is equal to itself
    if (a != b || *a != (*a).clone()) && !format!("{a:?}").contains("NaN") || chain(&*a) != chain(&a.clone()) {
        return cx.fail(format!("{a} is not equal to itself"));
    }
    for near in at.saturating_sub(8)..at {
        let Some(b) = told(&bad(near)) else { continue };
        cx.compared += 1;
        if chain(&*a) != chain(&*b) && a == b {
            return cx.fail(format!("{a} is equal to {b}"));
        }
    }
}

/// Errors whose histories differ in one thing only.
fn e_alike(ch: &mut Ch, cx: &mut Cx) {
    let objs = [PRI, "TAGame.Default__Car_TA", name_of(Tag::Byte), name_of(Tag::String), name_of(Tag::Enum), "Verif.NoClass_TA", "Verif.A_TA:a", "Verif.B_TA:b"];
    let kind = ch.pick(5);
    let spread = ch.of(&[(1, 2), (63, 64), (64, 65), (100, 300), (300, 64)]);
    let make = |ch: &mut Ch| {
        let mut r = Rep::new().objs(&objs);
        let (a, b) = spread;
        // attributes that are known, and that are not
        let x = ch.of(&[2, 3, 6, 7]);
        let y = ch.of(&[1, 2, 6, 7]);
        let own = if y == 1 { vec![(x, a)] } else { vec![(x, a), (y, b)] };
        r.cache = vec![(0, 0, 0, own), (1, 0, 1, vec![(ch.of(&[2, 7]), a)])];
        let mut n = Net::new(1023, LAST_VER, false);
        n.frame(1.0, 0.5);
        let first = ch.pick(2) as i32;
        for (id, obj) in [(5u32, first), (300, 1 - first)] {
            n.new_actor(id, 1, obj);
        }
        match kind {
            0 => {
                n.upd(77).attr(0, a.max(b));
            }
            1 => {
                n.upd(5).attr(ch.of(&[0, a as u32, b as u32]), a.max(b));
            }
            2 => {
                n.upd(300).attr(ch.of(&[0, a as u32, b as u32]), a.max(b));
            }
            3 => {
                n.new_actor(6, 1, ch.of(&[5, 9, -1]));
            }
            _ => {
                n.end_frame().frame(-1.0, 0.5);
            }
        }
        for _ in 0..8 {
            n.w.u64(0x8000_0000_8000_0000);
        }
        r.network = n.bytes();
        r.props.push(k("NumFrames", P::Int(5)));
        r.bytes()
    };
    let told = |d: &[u8]| match imp::parse(d, CrcCheck::Never, NetworkParse::Always) {
        Got::Err(e) => Some(e),
        _ => None,
    };
    let (p, q) = (make(ch), make(ch));
    cx.say(|| format!("{:?}", told(&p)));
    let (Some(a), Some(b)) = (told(&p), told(&q)) else {
        cx.accepted += 1;
        return;
    };
    cx.rejected += 1;
    cx.compared += 1;
    cx.outcome(chain(&*a).join("\n").as_bytes());
    let c = a.clone();
    if *a != *c || chain(&*a) != chain(&*c) {
        return cx.fail(format!("a copy of {a} differs: {c}"));
    }
    if chain(&*a) != chain(&*b) && a == b {
        return cx.fail(format!("{a} is equal to {b}"));
    }
    if p == q && a != b {
        cx.fail(format!("{a} is not equal to itself"));
    }
}

/// The messages of an error and of what caused it.
fn chain(e: &dyn std::error::Error) -> Vec<String> {
    let mut v = vec![e.to_string()];
    let mut s = e.source();
    while let Some(x) = s {
        v.push(x.to_string());
        s = x.source();
    }
    v
}

fn e_real(ch: &mut Ch, cx: &mut Cx) {
    let (name, d) = &corpus()[ch.pick(corpus().len())];
    cx.say(|| name.clone());
    let (Got::Ok(a), Got::Ok(b)) = (imp::parse(d, CrcCheck::Never, NetworkParse::IgnoreOnError), imp::parse(d, CrcCheck::Never, NetworkParse::IgnoreOnError)) else {
        cx.rejected += 1;
        return;
    };
    cx.accepted += 1;
    cx.compared += 2;
    if !finite(&*a) {
        cx.skipped += 1;
        return;
    }
    if a != b || a.clone() != b || part_bytes(&a.clone(), crate::cmp::Part::All) != part_bytes(&b, crate::cmp::Part::All) {
        return cx.fail("not equal to its copy");
    }
    let n = a.network_frames.as_ref().map_or(0, |n| n.frames.len());
    if n > 0 {
        let mut c = a.clone();
        let f = c.network_frames.as_mut().unwrap().frames.last_mut().unwrap();
        f.delta = other(&f.delta);
        if c == a {
            cx.fail("equal to a replay with another last frame");
        }
    }
}

const SEEDS: usize = 4;

pub fn c31() -> Vec<Fam> {
    vec![
        f("pairs", 0, e_pairs),
        f("near", 0, e_near),
        f("kinds", 0, e_kinds),
        f("keys", 0, e_keys),
        f("ids", 0, e_ids),
        f("fields", 0, e_fields),
        f("builders", 0, e_builders),
        f("errors", 0, e_errors),
        f("alike", 0, e_alike),
        f("real", 0, e_real),
    ]
}
