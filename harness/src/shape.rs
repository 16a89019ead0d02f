//! Bit exact canonical form of decoded values, and the JSON tree each value must serialize to.
//! Written against the public types; does not use their `PartialEq`, `Debug` or `Serialize`.

use boxcars::*;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// Exact integer
    Int(i128),
    /// Float by bits (non finite floats are Null in JSON)
    F32(u32),
    /// A number as it appeared in text
    NumText(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

thread_local! {
    static NONFINITE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Is every float in the value finite?
pub fn finite<T: Shape + ?Sized>(x: &T) -> bool {
    NONFINITE.with(|n| n.set(false));
    x.j();
    !NONFINITE.with(|n| n.get())
}

pub trait Shape {
    /// Appends a prefix-free encoding.
    fn c(&self, o: &mut Vec<u8>);
    fn j(&self) -> J;
}

pub fn canon<T: Shape + ?Sized>(x: &T) -> Vec<u8> {
    let mut o = Vec::with_capacity(256);
    x.c(&mut o);
    o
}

macro_rules! ints { ($($t:ty),*) => {$(
    impl Shape for $t {
        fn c(&self, o: &mut Vec<u8>) { o.extend_from_slice(&(*self as i128 as i64 as u64).to_le_bytes()[..std::mem::size_of::<$t>()]) }
        fn j(&self) -> J { J::Int(*self as i128) }
    }
)*}}
ints!(u8, i8, u16, i32, u32, i64, u64);

impl Shape for bool {
    fn c(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
    fn j(&self) -> J {
        J::Bool(*self)
    }
}
impl Shape for f32 {
    fn c(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_bits().to_le_bytes())
    }
    fn j(&self) -> J {
        if self.is_finite() {
            J::F32(self.to_bits())
        } else {
            NONFINITE.with(|x| x.set(true));
            J::Null
        }
    }
}
impl Shape for String {
    fn c(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.len() as u32).to_le_bytes());
        o.extend_from_slice(self.as_bytes())
    }
    fn j(&self) -> J {
        J::Str(self.clone())
    }
}
impl<T: Shape> Shape for Option<T> {
    fn c(&self, o: &mut Vec<u8>) {
        o.push(self.is_some() as u8);
        if let Some(x) = self {
            x.c(o)
        }
    }
    fn j(&self) -> J {
        self.as_ref().map(|x| x.j()).unwrap_or(J::Null)
    }
}
impl<T: Shape> Shape for Box<T> {
    fn c(&self, o: &mut Vec<u8>) {
        (**self).c(o)
    }
    fn j(&self) -> J {
        (**self).j()
    }
}
impl<T: Shape> Shape for Vec<T> {
    fn c(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.len() as u32).to_le_bytes());
        self.iter().for_each(|x| x.c(o))
    }
    fn j(&self) -> J {
        J::Arr(self.iter().map(|x| x.j()).collect())
    }
}
impl<T: Shape, const N: usize> Shape for [T; N] {
    fn c(&self, o: &mut Vec<u8>) {
        self.iter().for_each(|x| x.c(o))
    }
    fn j(&self) -> J {
        J::Arr(self.iter().map(|x| x.j()).collect())
    }
}
impl Shape for ActorId {
    fn c(&self, o: &mut Vec<u8>) {
        self.0.c(o)
    }
    fn j(&self) -> J {
        self.0.j()
    }
}
impl Shape for ObjectId {
    fn c(&self, o: &mut Vec<u8>) {
        self.0.c(o)
    }
    fn j(&self) -> J {
        self.0.j()
    }
}
impl Shape for StreamId {
    fn c(&self, o: &mut Vec<u8>) {
        self.0.c(o)
    }
    fn j(&self) -> J {
        self.0.j()
    }
}

/// Its components are computed: which NaN they are when the encoded ones are no rotation is open.
impl Shape for Quaternion {
    fn c(&self, o: &mut Vec<u8>) {
        for x in [self.x, self.y, self.z, self.w] {
            if x.is_nan() { f32::from_bits(0x7fc0_0000) } else { x }.c(o)
        }
    }
    fn j(&self) -> J {
        let f = |n: &str, x: f32| (n.to_string(), x.j());
        J::Obj(vec![f("x", self.x), f("y", self.y), f("z", self.z), f("w", self.w)])
    }
}

/// 64-bit integers are strings in JSON.
fn js<T: ToString>(x: &T) -> J {
    J::Str(x.to_string())
}

macro_rules! st { ($($t:ident { $($f:ident),* })*) => {$(
    impl Shape for $t {
        fn c(&self, o: &mut Vec<u8>) { $( self.$f.c(o); )* }
        fn j(&self) -> J { J::Obj(vec![ $( (stringify!($f).to_string(), self.$f.j()) ),* ]) }
    }
)*}}

st! {
    Vector3f { x, y, z }
    Vector3i { x, y, z }
    Rotation { yaw, pitch, roll }
    Trajectory { location, rotation }
    NewActor { actor_id, name_id, object_id, initial_trajectory }
    UpdatedAttribute { actor_id, stream_id, object_id, attribute }
    Frame { time, delta, new_actors, deleted_actors, updated_actors }
    NetworkFrames { frames }
    TickMark { description, frame }
    KeyFrame { time, frame, position }
    DebugInfo { frame, user, text }
    ClassIndex { class, index }
    CacheProp { object_ind, stream_id }
    ClassNetCache { object_ind, parent_id, cache_id, properties }
    ActiveActor { active, actor }
    CamSettings { fov, height, angle, distance, stiffness, swivel, transition }
    ClubColors { blue_flag, blue_color, orange_flag, orange_color }
    AppliedDamage { id, position, damage_index, total_damage }
    DamageState { tile_state, damaged, offender, ball_position, direct_hit, unknown1 }
    Demolish { attacker_flag, attacker, victim_flag, victim, attack_velocity, victim_velocity }
    DemolishExtended { attacker_pri, self_demo, self_demolish, goal_explosion_owner, attacker, victim, attacker_velocity, victim_velocity }
    DemolishFx { custom_demo_flag, custom_demo_id, attacker_flag, attacker, victim_flag, victim, attack_velocity, victim_velocity }
    Explosion { flag, actor, location }
    ExtendedExplosion { explosion, unknown1, secondary_actor }
    Loadout { version, body, decal, wheels, rocket_trail, antenna, topper, unknown1, unknown2, engine_audio, trail, goal_explosion, banner, product_id }
    TeamLoadout { blue, orange }
    StatEvent { unknown1, object_id }
    MusicStinger { flag, cue, trigger }
    Pickup { instigator, picked_up }
    PickupNew { instigator, picked_up }
    Welded { active, actor, offset, mass, rotation }
    TeamPaint { team, primary_color, accent_color, primary_finish, accent_finish }
    RigidBody { sleeping, location, rotation, linear_velocity, angular_velocity }
    UniqueId { system_id, remote_id, local_id }
    Reservation { number, unique_id, name, unknown1, unknown2, unknown3 }
    PrivateMatchSettings { mutators, joinable_by, max_players, game_name, password, flag }
    Product { unknown, object_ind, value }
    LoadoutsOnline { blue, orange, unknown1, unknown2 }
    RepStatTitle { unknown, name, unknown2, index, value }
    PickupInfo { available_pickups, items_are_preview }
    Impulse { compressed_rotation, speed }
    ReplicatedBoost { grant_count, boost_amount, unused1, unused2 }
    LogoData { logo_id, swap_colors }
}

// Structs whose 64-bit id is a string in JSON.
macro_rules! idst { ($($t:ident { $($f:ident),* })*) => {$(
    impl Shape for $t {
        fn c(&self, o: &mut Vec<u8>) { self.online_id.c(o); $( self.$f.c(o); )* }
        fn j(&self) -> J {
            J::Obj(vec![ ("online_id".to_string(), js(&self.online_id)), $( (stringify!($f).to_string(), self.$f.j()) ),* ])
        }
    }
)*}}
idst! { PsyNetId { unknown1 } SwitchId { unknown1 } Ps4Id { name, unknown1 } }

fn tag(name: &str, v: J) -> J {
    J::Obj(vec![(name.to_string(), v)])
}

impl Shape for RemoteId {
    fn c(&self, o: &mut Vec<u8>) {
        match self {
            RemoteId::PlayStation(x) => {
                o.push(1);
                x.c(o)
            }
            RemoteId::PsyNet(x) => {
                o.push(2);
                x.c(o)
            }
            RemoteId::SplitScreen(x) => {
                o.push(3);
                x.c(o)
            }
            RemoteId::Steam(x) => {
                o.push(4);
                x.c(o)
            }
            RemoteId::Switch(x) => {
                o.push(5);
                x.c(o)
            }
            RemoteId::Xbox(x) => {
                o.push(6);
                x.c(o)
            }
            RemoteId::QQ(x) => {
                o.push(7);
                x.c(o)
            }
            RemoteId::Epic(x) => {
                o.push(8);
                x.c(o)
            }
        }
    }
    fn j(&self) -> J {
        match self {
            RemoteId::PlayStation(x) => tag("PlayStation", x.j()),
            RemoteId::PsyNet(x) => tag("PsyNet", x.j()),
            RemoteId::SplitScreen(x) => tag("SplitScreen", x.j()),
            RemoteId::Steam(x) => tag("Steam", js(x)),
            RemoteId::Switch(x) => tag("Switch", x.j()),
            RemoteId::Xbox(x) => tag("Xbox", js(x)),
            RemoteId::QQ(x) => tag("QQ", js(x)),
            RemoteId::Epic(x) => tag("Epic", x.j()),
        }
    }
}

impl Shape for ProductValue {
    fn c(&self, o: &mut Vec<u8>) {
        let (k, v) = match self {
            ProductValue::NoColor => (0, 0),
            ProductValue::Absent => (1, 0),
            ProductValue::OldColor(x) => (2, *x),
            ProductValue::NewColor(x) => (3, *x),
            ProductValue::OldPaint(x) => (4, *x),
            ProductValue::NewPaint(x) => (5, *x),
            ProductValue::SpecialEdition(x) => (6, *x),
            ProductValue::OldTeamEdition(x) => (7, *x),
            ProductValue::NewTeamEdition(x) => (8, *x),
            ProductValue::Title(s) => {
                o.push(9);
                return s.c(o);
            }
        };
        o.push(k);
        v.c(o);
    }
    fn j(&self) -> J {
        match self {
            ProductValue::NoColor => J::Str("NoColor".into()),
            ProductValue::Absent => J::Str("Absent".into()),
            ProductValue::OldColor(x) => tag("OldColor", x.j()),
            ProductValue::NewColor(x) => tag("NewColor", x.j()),
            ProductValue::OldPaint(x) => tag("OldPaint", x.j()),
            ProductValue::NewPaint(x) => tag("NewPaint", x.j()),
            ProductValue::SpecialEdition(x) => tag("SpecialEdition", x.j()),
            ProductValue::OldTeamEdition(x) => tag("OldTeamEdition", x.j()),
            ProductValue::NewTeamEdition(x) => tag("NewTeamEdition", x.j()),
            ProductValue::Title(x) => tag("Title", x.j()),
        }
    }
}

macro_rules! attr_enum { ($($n:literal $v:ident)*) => {
    impl Shape for Attribute {
        fn c(&self, o: &mut Vec<u8>) {
            match self {
                $( Attribute::$v(x) => { o.push($n); x.c(o) } )*
                Attribute::Int64(x) => { o.push(100); x.c(o) }
                Attribute::QWord(x) => { o.push(101); x.c(o) }
                Attribute::FlaggedByte(a, b) => { o.push(102); a.c(o); b.c(o) }
                Attribute::GameMode(a, b) => { o.push(103); a.c(o); b.c(o) }
                Attribute::Title(a, b, c, d, e, f, g, h) => {
                    o.push(104); a.c(o); b.c(o); c.c(o); d.c(o); e.c(o); f.c(o); g.c(o); h.c(o)
                }
            }
        }
        fn j(&self) -> J {
            match self {
                $( Attribute::$v(x) => tag(stringify!($v), x.j()), )*
                Attribute::Int64(x) => tag("Int64", js(x)),
                Attribute::QWord(x) => tag("QWord", js(x)),
                Attribute::FlaggedByte(a, b) => tag("FlaggedByte", J::Arr(vec![a.j(), b.j()])),
                Attribute::GameMode(a, b) => tag("GameMode", J::Arr(vec![a.j(), b.j()])),
                Attribute::Title(a, b, c, d, e, f, g, h) => tag("Title", J::Arr(vec![
                    a.j(), b.j(), c.j(), d.j(), e.j(), f.j(), g.j(), h.j()])),
            }
        }
    }
}}
attr_enum! {
    1 Boolean 2 Byte 3 AppliedDamage 4 DamageState 5 CamSettings 6 ClubColors 7 Demolish
    8 DemolishExtended 9 DemolishFx 10 Enum 11 Explosion 12 ExtendedExplosion 13 ActiveActor
    14 Float 15 Int 16 Loadout 17 TeamLoadout 18 Location 19 MusicStinger 20 PlayerHistoryKey
    21 Pickup 22 PickupNew 23 Welded 24 TeamPaint 25 RigidBody 26 String 27 UniqueId
    28 Reservation 29 PartyLeader 30 PrivateMatch 31 LoadoutOnline 32 LoadoutsOnline 33 StatEvent
    34 Rotation 35 RepStatTitle 36 PickupInfo 37 Impulse 38 ReplicatedBoost 39 LogoData
}

pub type Props = Vec<(String, HeaderProp)>;

fn props_c(p: &Props, o: &mut Vec<u8>) {
    (p.len() as u32).c(o);
    for (k, v) in p {
        k.c(o);
        v.c(o);
    }
}
fn props_j(p: &Props) -> J {
    J::Obj(p.iter().map(|(k, v)| (k.clone(), v.j())).collect())
}

impl Shape for HeaderProp {
    fn c(&self, o: &mut Vec<u8>) {
        match self {
            HeaderProp::Array(a) => {
                o.push(1);
                (a.len() as u32).c(o);
                a.iter().for_each(|p| props_c(p, o));
            }
            HeaderProp::Bool(b) => {
                o.push(2);
                b.c(o)
            }
            HeaderProp::Byte { kind, value } => {
                o.push(3);
                kind.c(o);
                value.c(o)
            }
            HeaderProp::Float(x) => {
                o.push(4);
                x.c(o)
            }
            HeaderProp::Int(x) => {
                o.push(5);
                x.c(o)
            }
            HeaderProp::Name(x) => {
                o.push(6);
                x.c(o)
            }
            HeaderProp::QWord(x) => {
                o.push(7);
                x.c(o)
            }
            HeaderProp::Str(x) => {
                o.push(8);
                x.c(o)
            }
            HeaderProp::Struct { name, fields } => {
                o.push(9);
                name.c(o);
                props_c(fields, o)
            }
        }
    }
    fn j(&self) -> J {
        match self {
            HeaderProp::Array(a) => J::Arr(a.iter().map(props_j).collect()),
            HeaderProp::Bool(b) => b.j(),
            HeaderProp::Byte { kind, value } => {
                J::Obj(vec![("kind".into(), kind.j()), ("value".into(), value.j())])
            }
            HeaderProp::Float(x) => x.j(),
            HeaderProp::Int(x) => x.j(),
            HeaderProp::Name(x) | HeaderProp::Str(x) => x.j(),
            HeaderProp::QWord(x) => js(x),
            HeaderProp::Struct { name, fields } => {
                J::Obj(vec![("name".into(), name.j()), ("fields".into(), props_j(fields))])
            }
        }
    }
}

impl Shape for Replay {
    fn c(&self, o: &mut Vec<u8>) {
        self.header_part(o);
        self.network_frames.c(o);
        self.body_part(o);
    }
    fn j(&self) -> J {
        J::Obj(vec![
            ("header_size".into(), self.header_size.j()),
            ("header_crc".into(), self.header_crc.j()),
            ("major_version".into(), self.major_version.j()),
            ("minor_version".into(), self.minor_version.j()),
            ("net_version".into(), self.net_version.j()),
            ("game_type".into(), self.game_type.j()),
            ("properties".into(), props_j(&self.properties)),
            ("content_size".into(), self.content_size.j()),
            ("content_crc".into(), self.content_crc.j()),
            ("network_frames".into(), self.network_frames.j()),
            ("levels".into(), self.levels.j()),
            ("keyframes".into(), self.keyframes.j()),
            ("debug_info".into(), self.debug_info.j()),
            ("tick_marks".into(), self.tick_marks.j()),
            ("packages".into(), self.packages.j()),
            ("objects".into(), self.objects.j()),
            ("names".into(), self.names.j()),
            ("class_indices".into(), self.class_indices.j()),
            ("net_cache".into(), self.net_cache.j()),
        ])
    }
}

pub trait Parts {
    fn header_part(&self, o: &mut Vec<u8>);
    fn body_part(&self, o: &mut Vec<u8>);
    /// Everything but the network frames.
    fn sections(&self) -> Vec<u8>;
}
impl Parts for Replay {
    fn header_part(&self, o: &mut Vec<u8>) {
        self.header_size.c(o);
        self.header_crc.c(o);
        self.major_version.c(o);
        self.minor_version.c(o);
        self.net_version.c(o);
        self.game_type.c(o);
        props_c(&self.properties, o);
        self.content_size.c(o);
        self.content_crc.c(o);
    }
    fn body_part(&self, o: &mut Vec<u8>) {
        self.levels.c(o);
        self.keyframes.c(o);
        self.debug_info.c(o);
        self.tick_marks.c(o);
        self.packages.c(o);
        self.objects.c(o);
        self.names.c(o);
        self.class_indices.c(o);
        self.net_cache.c(o);
    }
    fn sections(&self) -> Vec<u8> {
        let mut o = vec![];
        self.header_part(&mut o);
        self.body_part(&mut o);
        o
    }
}

// ---------------------------------------------------------------- JSON text

/// Parses JSON keeping key order and duplicate keys.
pub fn parse_json(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = jval(b, &mut i, 0)?;
    ws(b, &mut i);
    if i != b.len() {
        return Err(format!("trailing data at {i}"));
    }
    Ok(v)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], b' ' | b'\n' | b'\t' | b'\r') {
        *i += 1;
    }
}
fn jval(b: &[u8], i: &mut usize, depth: usize) -> Result<J, String> {
    ws(b, i);
    let err = |m: &str, i: usize| Err(format!("{m} at {i}"));
    match b.get(*i) {
        None => err("end of text", *i),
        Some(b'n') if b[*i..].starts_with(b"null") => {
            *i += 4;
            Ok(J::Null)
        }
        Some(b't') if b[*i..].starts_with(b"true") => {
            *i += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') if b[*i..].starts_with(b"false") => {
            *i += 5;
            Ok(J::Bool(false))
        }
        Some(b'"') => Ok(J::Str(jstr(b, i)?)),
        Some(b'[') => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b']') {
                *i += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(jval(b, i, depth + 1)?);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return err("expected , or ]", *i),
                }
            }
        }
        Some(b'{') => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b'}') {
                *i += 1;
                return Ok(J::Obj(v));
            }
            loop {
                ws(b, i);
                let k = jstr(b, i)?;
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return err("expected :", *i);
                }
                *i += 1;
                let x = jval(b, i, depth + 1)?;
                v.push((k, x));
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(v));
                    }
                    _ => return err("expected , or }", *i),
                }
            }
        }
        Some(b'-' | b'0'..=b'9') => {
            let s = *i;
            while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *i += 1;
            }
            Ok(J::NumText(String::from_utf8_lossy(&b[s..*i]).into_owned()))
        }
        _ => err("bad value", *i),
    }
}
fn jstr(b: &[u8], i: &mut usize) -> Result<String, String> {
    if b.get(*i) != Some(&b'"') {
        return Err(format!("expected string at {i}"));
    }
    *i += 1;
    let mut out: Vec<u8> = vec![];
    let hex = |b: &[u8], i: usize| -> Result<u32, String> {
        let h = b.get(i..i + 4).ok_or("short escape")?;
        u32::from_str_radix(std::str::from_utf8(h).map_err(|_| "escape")?, 16)
            .map_err(|_| "escape".to_string())
    };
    loop {
        match b.get(*i) {
            None => return Err("unterminated string".into()),
            Some(b'"') => {
                *i += 1;
                return String::from_utf8(out).map_err(|e| e.to_string());
            }
            Some(b'\\') => {
                let c = *b.get(*i + 1).ok_or("end")?;
                *i += 2;
                let ch = match c {
                    b'n' => '\n',
                    b't' => '\t',
                    b'r' => '\r',
                    b'b' => '\u{8}',
                    b'f' => '\u{c}',
                    b'"' | b'\\' | b'/' => c as char,
                    b'u' => {
                        let mut v = hex(b, *i)?;
                        *i += 4;
                        if (0xd800..0xdc00).contains(&v) {
                            let lo = hex(b, *i + 2)?;
                            *i += 6;
                            v = 0x10000 + ((v - 0xd800) << 10) + (lo.wrapping_sub(0xdc00) & 0x3ff);
                        }
                        char::from_u32(v).ok_or("surrogate")?
                    }
                    _ => return Err("bad escape".into()),
                };
                out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
            }
            Some(c) if *c < 0x20 => return Err("raw control character".into()),
            Some(c) => {
                out.push(*c);
                *i += 1;
            }
        }
    }
}

/// Does parsed JSON `got` say exactly `want`? Key order and duplicates count.
pub fn same_json(want: &J, got: &J, path: &mut String) -> Result<(), String> {
    let ok = match (want, got) {
        (J::Int(a), J::NumText(t)) => t.parse::<i128>() == Ok(*a),
        (J::F32(a), J::NumText(t)) => t.parse::<f32>().map(|x| x.to_bits()) == Ok(*a),
        (J::Arr(a), J::Arr(b)) => {
            if a.len() != b.len() {
                return Err(format!("{path}: {} elements, want {}", b.len(), a.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                let l = path.len();
                path.push_str(&format!("[{i}]"));
                same_json(x, y, path)?;
                path.truncate(l);
            }
            true
        }
        (J::Obj(a), J::Obj(b)) => {
            let ka: Vec<_> = a.iter().map(|x| &x.0).collect();
            let kb: Vec<_> = b.iter().map(|x| &x.0).collect();
            if ka != kb {
                return Err(format!("{path}: keys {kb:?}, want {ka:?}"));
            }
            for ((k, x), (_, y)) in a.iter().zip(b) {
                let l = path.len();
                path.push('.');
                path.push_str(k);
                same_json(x, y, path)?;
                path.truncate(l);
            }
            true
        }
        (a, b) => a == b,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{path}: got {got:?}, want {want:?}"))
    }
}
