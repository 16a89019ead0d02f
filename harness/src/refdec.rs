//! Reference decoder: an independent, slow and boring reading of the replay format.

use crate::bits::{low_bits, BitR};
use crate::golden::{Spawn, Tag, ATTRS, PARENTS, SPAWNS};
use boxcars::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Sec(&'static str, i64, Box<E>),
    Short { need: i64, left: i64 },
    TextTooLarge(i32),
    ListTooLarge(u64),
    Utf8,
    Unexpected(String),
    TooDeep,
    Crc(u32, u32),
    Corrupt(&'static str, Box<E>),
    Net(N),
}

#[derive(Debug, Clone, PartialEq)]
pub enum N {
    TooManyFrames(i32),
    StreamIdx(i32, i32),
    Frame(F),
}

#[derive(Debug, Clone, PartialEq)]
pub enum F {
    Short,
    Time(u32),
    Delta(u32),
    Object(i32),
    MissingActor(i32),
    MissingCache(i32, i32),
    /// actor, object, stream
    MissingAttr(i32, i32, i32),
    Attr(i32, i32, i32, A),
}

#[derive(Debug, Clone, PartialEq)]
pub enum A {
    Short,
    Remote(u8),
    TooBig(i32),
    /// A text of acceptable size whose bytes are not all there
    TextShort(i32),
    Unknown,
}

pub fn parents() -> &'static HashMap<&'static str, &'static str> {
    static M: OnceLock<HashMap<&'static str, &'static str>> = OnceLock::new();
    M.get_or_init(|| PARENTS.iter().copied().collect())
}
pub fn attrs() -> &'static HashMap<&'static str, Tag> {
    static M: OnceLock<HashMap<&'static str, Tag>> = OnceLock::new();
    M.get_or_init(|| ATTRS.iter().copied().collect())
}
pub fn spawns() -> &'static HashMap<&'static str, Spawn> {
    static M: OnceLock<HashMap<&'static str, Spawn>> = OnceLock::new();
    M.get_or_init(|| SPAWNS.iter().copied().collect())
}

/// Builds every table that is built on first use.
pub fn prepare() {
    (parents(), attrs(), spawns(), crc_ref(b""));
}

// ---------------------------------------------------------------- text

/// windows-1252 as browsers define it: 0x80..=0x9f differ from latin-1.
pub fn win1252(b: u8) -> char {
    const HI: [u32; 32] = [
        0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160,
        0x2039, 0x0152, 0x8D, 0x017D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013,
        0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178,
    ];
    if (0x80..0xa0).contains(&b) {
        char::from_u32(HI[(b - 0x80) as usize]).unwrap()
    } else {
        char::from(b)
    }
}

pub fn w1252(d: &[u8]) -> String {
    let d = if d.is_empty() { d } else { &d[..d.len() - 1] };
    d.iter().map(|&b| win1252(b)).collect()
}

pub fn utf16(d: &[u8]) -> String {
    let d = &d[..d.len().saturating_sub(2)];
    let units: Vec<u16> = d.chunks(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect();
    let mut s = String::new();
    let mut i = 0;
    while i < units.len() {
        let u = units[i] as u32;
        if (0xd800..0xdc00).contains(&u)
            && i + 1 < units.len()
            && (0xdc00..0xe000).contains(&(units[i + 1] as u32))
        {
            let c = 0x10000 + ((u - 0xd800) << 10) + (units[i + 1] as u32 - 0xdc00);
            s.push(char::from_u32(c).unwrap());
            i += 2;
        } else {
            s.push(char::from_u32(u).unwrap_or('\u{fffd}'));
            i += 1;
        }
    }
    s
}

/// Strict UTF-8, written out.
pub fn utf8(d: &[u8]) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i < d.len() {
        let b = d[i] as u32;
        let (n, min, mut c) = match b {
            0..=0x7f => (0, 0, b),
            0xc0..=0xdf => (1, 0x80, b & 0x1f),
            0xe0..=0xef => (2, 0x800, b & 0x0f),
            0xf0..=0xf7 => (3, 0x10000, b & 0x07),
            _ => return None,
        };
        for k in 1..=n {
            let x = *d.get(i + k)? as u32;
            if x & 0xc0 != 0x80 {
                return None;
            }
            c = c << 6 | (x & 0x3f);
        }
        if c < min {
            return None;
        }
        s.push(char::from_u32(c)?);
        i += n + 1;
    }
    Some(s)
}

// ---------------------------------------------------------------- bytes

pub struct Cur<'a> {
    d: &'a [u8],
    pos: usize,
}

type R<T> = Result<T, E>;

impl<'a> Cur<'a> {
    fn left(&self) -> usize {
        self.d.len() - self.pos
    }
    fn bytes(&mut self, n: i64) -> R<&'a [u8]> {
        if n < 0 || n as u64 > self.left() as u64 {
            return Err(E::Short { need: n, left: self.left() as i64 });
        }
        let r = &self.d[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(r)
    }
    fn i32(&mut self) -> R<i32> {
        let b = self.bytes(4)?;
        Ok(i32::from_le_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn u32(&mut self) -> R<u32> {
        self.i32().map(|x| x as u32)
    }
    fn f32(&mut self) -> R<f32> {
        self.u32().map(f32::from_bits)
    }
    fn sec<T>(&mut self, name: &'static str, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        f(self).map_err(|e| E::Sec(name, self.pos as i64, Box::new(e)))
    }
    fn str(&mut self) -> R<String> {
        let n = self.i32()?;
        let b = self.bytes(n as i64)?;
        let b = &b[..b.len().saturating_sub(1)];
        utf8(b).ok_or(E::Utf8)
    }
    fn text(&mut self) -> R<String> {
        let n = self.i32()?;
        if n > 10_000 || n < -10_000 {
            return Err(E::TextTooLarge(n));
        }
        if n < 0 {
            self.bytes(-2 * n as i64).map(utf16)
        } else {
            self.bytes(n as i64).map(w1252)
        }
    }
    fn list<T>(&mut self, f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.i32()?;
        self.rep(n, f)
    }
    fn rep<T>(&mut self, n: i32, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        if !(0..=25_000).contains(&n) {
            return Err(E::ListTooLarge(n as i64 as u64));
        }
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
}

pub struct Hdr {
    pub major: i32,
    pub minor: i32,
    pub net: Option<i32>,
    pub game_type: String,
    pub props: Vec<(String, HeaderProp)>,
}

impl Hdr {
    fn find(&self, k: &str) -> Option<&HeaderProp> {
        for (key, v) in &self.props {
            if key == k {
                return Some(v);
            }
        }
        None
    }
    fn int(&self, k: &str) -> Option<i32> {
        match self.find(k) {
            Some(HeaderProp::Int(x)) => Some(*x),
            _ => None,
        }
    }
    fn text(&self, k: &str) -> Option<&str> {
        match self.find(k) {
            Some(HeaderProp::Str(x)) | Some(HeaderProp::Name(x)) => Some(x),
            _ => None,
        }
    }
}

/// Properties nest at most this deep.
const DEEPEST: usize = 64;

fn rdict(c: &mut Cur, quirks: bool, depth: usize) -> R<Vec<(String, HeaderProp)>> {
    let mut out = Vec::new();
    loop {
        let key = c.str()?;
        if key == "None" {
            return Ok(out);
        }
        let kind = c.str()?;
        c.sec("property size", |c| c.bytes(4))?;
        c.bytes(4)?;
        let v = match kind.as_str() {
            "ArrayProperty" | "StructProperty" if depth == DEEPEST => return Err(E::TooDeep),
            "BoolProperty" => HeaderProp::Bool(c.bytes(if quirks { 4 } else { 1 })?[0] == 1),
            "ByteProperty" => {
                if quirks {
                    HeaderProp::Byte { kind: c.text()?, value: None }
                } else {
                    let k = c.str()?;
                    if k == "None" {
                        c.bytes(1)?;
                        continue;
                    }
                    HeaderProp::Byte { kind: k, value: Some(c.str()?) }
                }
            }
            "ArrayProperty" => {
                let n = c.sec("array property size", |c| c.i32())?;
                HeaderProp::Array(c.rep(n, |c| rdict(c, quirks, depth + 1))?)
            }
            "FloatProperty" => HeaderProp::Float(c.f32()?),
            "IntProperty" => HeaderProp::Int(c.i32()?),
            "QWordProperty" => {
                let b = c.bytes(8)?;
                let mut x = 0u64;
                for i in 0..8 {
                    x |= (b[i] as u64) << (8 * i);
                }
                HeaderProp::QWord(x)
            }
            "NameProperty" => HeaderProp::Name(c.text()?),
            "StrProperty" => HeaderProp::Str(c.text()?),
            "StructProperty" => {
                let name = c.str()?;
                HeaderProp::Struct { name, fields: rdict(c, quirks, depth + 1)? }
            }
            _ => return Err(E::Unexpected(kind)),
        };
        out.push((key, v));
    }
}

fn header(c: &mut Cur) -> R<Hdr> {
    let major = c.sec("major version", |c| c.i32())?;
    let minor = c.sec("minor version", |c| c.i32())?;
    let net = if major > 865 && minor > 17 {
        Some(c.sec("net version", |c| c.i32())?)
    } else {
        None
    };
    let quirks = major == 0 && minor == 0 && net.is_none();
    let game_type = c.sec("game type", |c| c.text())?;
    let props = c.sec("header properties", |c| rdict(c, quirks, 0))?;
    Ok(Hdr { major, minor, net, game_type, props })
}

pub struct Body<'a> {
    pub levels: Vec<String>,
    pub keyframes: Vec<KeyFrame>,
    pub debug_info: Vec<DebugInfo>,
    pub tick_marks: Vec<TickMark>,
    pub packages: Vec<String>,
    pub objects: Vec<String>,
    pub names: Vec<String>,
    pub class_indices: Vec<ClassIndex>,
    pub net_cache: Vec<ClassNetCache>,
    pub network: &'a [u8],
}

fn body<'a>(c: &mut Cur<'a>) -> R<Body<'a>> {
    let levels = c.sec("levels", |c| c.list(|c| c.text()))?;
    let keyframes = c.sec("keyframes", |c| {
        c.list(|c| Ok(KeyFrame { time: c.f32()?, frame: c.i32()?, position: c.i32()? }))
    })?;
    let n = c.sec("network size", |c| c.i32())?;
    let network = c.sec("network data", |c| c.bytes(n as i64))?;
    let debug_info = c.sec("debug info", |c| {
        c.list(|c| Ok(DebugInfo { frame: c.i32()?, user: c.text()?, text: c.text()? }))
    })?;
    let tick_marks = c.sec("tickmarks", |c| {
        c.list(|c| Ok(TickMark { description: c.text()?, frame: c.i32()? }))
    })?;
    let packages = c.sec("packages", |c| c.list(|c| c.text()))?;
    let objects = c.sec("objects", |c| c.list(|c| c.text()))?;
    let names = c.sec("names", |c| c.list(|c| c.text()))?;
    let class_indices = c.sec("class index", |c| {
        c.list(|c| Ok(ClassIndex { class: c.str()?, index: c.i32()? }))
    })?;
    let net_cache = c.sec("net cache", |c| {
        c.list(|c| {
            Ok(ClassNetCache {
                object_ind: c.i32()?,
                parent_id: c.i32()?,
                cache_id: c.i32()?,
                properties: c
                    .list(|c| Ok(CacheProp { object_ind: c.i32()?, stream_id: c.i32()? }))?,
            })
        })
    })?;
    Ok(Body {
        levels, keyframes, debug_info, tick_marks, packages, objects, names, class_indices,
        net_cache, network,
    })
}

/// Bitwise CRC, straight from its parameters.
pub fn crc_ref(data: &[u8]) -> u32 {
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut r = (i as u32) << 24;
            for _ in 0..8 {
                r = if r >> 31 == 1 { (r << 1) ^ 0x04c1_1db7 } else { r << 1 };
            }
            *e = r;
        }
        t
    });
    let mut r = 0x1034_0dfe_u32;
    for &b in data {
        r = (r << 8) ^ t[((r >> 24) as u8 ^ b) as usize];
    }
    !r
}

/// Whole file reference: what the documented format says `bytes` means under the options.
pub fn parse(bytes: &[u8], crc: CrcCheck, net: NetworkParse) -> Result<Replay, E> {
    let mut c = Cur { d: bytes, pos: 0 };
    let header_size = c.sec("header size", |c| c.i32())?;
    let header_crc = c.sec("header crc", |c| c.u32())?;
    let h = section(&mut c, header_size, header_crc, "header data", "header", crc, header)?;
    let content_size = c.sec("content size", |c| c.i32())?;
    let content_crc = c.sec("content crc", |c| c.u32())?;
    let b = section(&mut c, content_size, content_crc, "content data", "body", crc, body)?;
    let network_frames = match net {
        NetworkParse::Never => None,
        NetworkParse::Always => Some(network(&h, &b).map_err(E::Net)?),
        NetworkParse::IgnoreOnError => network(&h, &b).ok(),
    };
    Ok(Replay {
        header_size,
        header_crc,
        major_version: h.major,
        minor_version: h.minor,
        net_version: h.net,
        game_type: h.game_type,
        properties: h.props,
        content_size,
        content_crc,
        network_frames,
        levels: b.levels,
        keyframes: b.keyframes,
        debug_info: b.debug_info,
        tick_marks: b.tick_marks,
        packages: b.packages,
        objects: b.objects,
        names: b.names,
        class_indices: b.class_indices,
        net_cache: b.net_cache,
    })
}

fn section<'a, T>(
    c: &mut Cur<'a>,
    size: i32,
    crc: u32,
    view: &'static str,
    name: &'static str,
    mode: CrcCheck,
    f: impl FnOnce(&mut Cur<'a>) -> R<T>,
) -> R<T> {
    if size < 0 || size as usize > c.left() {
        let e = E::Short { need: size as i64, left: c.left() as i64 };
        return Err(E::Sec(view, c.pos as i64, Box::new(e)));
    }
    let data = &c.d[c.pos..c.pos + size as usize];
    let r = f(c);
    match mode {
        CrcCheck::Never => r,
        CrcCheck::Always => {
            let actual = crc_ref(data);
            if actual != crc {
                Err(E::Crc(crc, actual))
            } else {
                r
            }
        }
        CrcCheck::OnError => r.map_err(|e| {
            if crc_ref(data) != crc {
                E::Corrupt(name, Box::new(e))
            } else {
                e
            }
        }),
    }
}

// ---------------------------------------------------------------- classes

pub fn normalize(name: &str) -> &str {
    const PRE: &str = "TheWorld:PersistentLevel.";
    const KNOWN: &[(&str, &str)] = &[
        ("CrowdActor_TA", "TheWorld:PersistentLevel.CrowdActor_TA"),
        ("CrowdManager_TA", "TheWorld:PersistentLevel.CrowdManager_TA"),
        ("VehiclePickup_Boost_TA", "TheWorld:PersistentLevel.VehiclePickup_Boost_TA"),
        ("InMapScoreboard_TA", "TheWorld:PersistentLevel.InMapScoreboard_TA"),
        ("BreakOutActor_Platform_TA", "TheWorld:PersistentLevel.BreakOutActor_Platform_TA"),
        ("PlayerStart_Platform_TA", "TheWorld:PersistentLevel.PlayerStart_Platform_TA"),
    ];
    // "X" or "stadium.X" where X starts with the prefix; a stadium name has no dot.
    let rest = if let Some(r) = name.strip_prefix(PRE) {
        r
    } else {
        match name.find('.') {
            Some(i) => match name[i + 1..].strip_prefix(PRE) {
                Some(r) => r,
                None => return name,
            },
            None => return name,
        }
    };
    for (k, full) in KNOWN {
        if rest.starts_with(k) {
            return full;
        }
    }
    name
}

pub struct ClassInfo {
    /// stream id -> (attribute tag, object id)
    pub attrs: BTreeMap<i32, (Tag, i32)>,
    /// None: wider than any read can be
    pub max: Option<u64>,
}

pub struct World {
    pub spawn: Vec<Spawn>,
    pub class: Vec<Option<ClassInfo>>,
}

fn max_id(attrs: &BTreeMap<i32, (Tag, i32)>) -> Option<u64> {
    let m = attrs.keys().next_back().copied().unwrap_or(2) as i64 + 1;
    let m = m.min(i32::MAX as i64);
    if m < 0 {
        None
    } else {
        Some(m as u64)
    }
}

pub fn world(b: &Body) -> Result<World, N> {
    let mut first: HashMap<&str, usize> = HashMap::new();
    for (i, o) in b.objects.iter().enumerate() {
        first.entry(o.as_str()).or_insert(i);
    }
    let mut declared: HashMap<i32, Vec<(i32, i32)>> = HashMap::new();
    for c in &b.net_cache {
        for p in &c.properties {
            if p.object_ind < 0 || p.object_ind as usize >= b.objects.len() {
                return Err(N::StreamIdx(p.stream_id, p.object_ind));
            }
        }
        declared
            .entry(c.object_ind)
            .or_default()
            .extend(c.properties.iter().map(|p| (p.stream_id, p.object_ind)));
    }
    let mut spawn = vec![Spawn::None; b.objects.len()];
    let mut class: Vec<Option<ClassInfo>> = (0..b.objects.len()).map(|_| None).collect();
    for (i, name) in b.objects.iter().enumerate() {
        if first[name.as_str()] != i {
            continue;
        }
        // self, then ancestors, as object ids; classes without a parent end the chain
        let mut chain = Vec::new();
        let mut cur: &str = name;
        while let Some(p) = parents().get(normalize(cur)) {
            if let Some(&id) = first.get(cur) {
                chain.push(id);
            }
            cur = p;
        }
        for &id in &chain {
            if let Some(s) = spawns().get(b.objects[id].as_str()) {
                spawn[i] = *s;
                break;
            }
        }
        if chain.is_empty() {
            continue;
        }
        let mut attrs_: BTreeMap<i32, (Tag, i32)> = BTreeMap::new();
        for &id in chain.iter().rev() {
            for &(stream, obj) in declared.get(&(id as i32)).into_iter().flatten() {
                let tag = attrs()
                    .get(b.objects[obj as usize].as_str())
                    .copied()
                    .unwrap_or(Tag::NotImplemented);
                attrs_.insert(stream, (tag, obj));
            }
        }
        let max = max_id(&attrs_);
        class[i] = Some(ClassInfo { attrs: attrs_, max });
    }
    Ok(World { spawn, class })
}

// ---------------------------------------------------------------- network

pub type Ver = (i32, i32, i32);

pub struct NetCfg {
    pub ver: Ver,
    pub lan: bool,
    pub rl223: bool,
    pub max_channels: u32,
    pub products: Products,
}

#[derive(Clone, Copy)]
pub struct Products {
    pub color: Option<i32>,
    pub painted: Option<i32>,
    pub title: Option<i32>,
    pub special: Option<i32>,
    pub team: Option<i32>,
}

pub fn products(objects: &[String]) -> Products {
    let f = |n: &str| {
        objects
            .iter()
            .position(|o| o == &format!("TAGame.ProductAttribute_{n}_TA"))
            .map(|i| i as i32)
    };
    Products {
        color: f("UserColor"),
        painted: f("Painted"),
        title: f("TitleID"),
        special: f("SpecialEdition"),
        team: f("TeamEdition"),
    }
}

pub fn network(h: &Hdr, b: &Body) -> Result<NetworkFrames, N> {
    let w = world(b)?;
    let cfg = NetCfg {
        ver: (h.major, h.minor, h.net.unwrap_or(0)),
        lan: h.text("MatchType") == Some("Lan"),
        rl223: h.text("BuildVersion").is_some_and(|x| x.as_bytes() >= b"221120.42953.406184"),
        max_channels: h.int("MaxChannels").unwrap_or(1023) as u32,
        products: products(&b.objects),
    };
    let Some(n) = h.int("NumFrames") else {
        return Ok(NetworkFrames { frames: vec![] });
    };
    if n < 0 || n as usize > b.network.len() {
        return Err(N::TooManyFrames(n));
    }
    let mut bits = BitR::new(b.network);
    let mut frames = vec![];
    let mut actors = Actors::default();
    while bits.left() > 0 && frames.len() < n as usize {
        let mut f = Frame {
            time: 0.0,
            delta: 0.0,
            new_actors: vec![],
            deleted_actors: vec![],
            updated_actors: vec![],
        };
        match frame(&mut bits, &cfg, &w, &mut actors, &mut f) {
            Ok(true) => frames.push(f),
            Ok(false) => break,
            Err(e) => {
                if WATCH.with(|s| s.get()) {
                    let st = Stop { frames, current: f, objects: b.objects.clone(), error: e.clone(), world: w };
                    STOP.with(|s| *s.borrow_mut() = Some(st));
                }
                return Err(N::Frame(e));
            }
        }
    }
    let mut one = 0;
    while let Some(b) = bits.bit() {
        one += b as usize;
    }
    LEFT.with(|l| l.set(one));
    Ok(NetworkFrames { frames })
}

/// Ones in the network data behind the last frame of the last accepted parse.
pub fn ones_left() -> usize {
    LEFT.with(|l| l.get())
}

fn bad_time(t: f32) -> bool {
    t < 0.0 || (t > 0.0 && t < 1e-10)
}

fn frame(
    r: &mut BitR,
    cfg: &NetCfg,
    w: &World,
    actors: &mut Actors,
    f: &mut Frame,
) -> Result<bool, F> {
    let time = r.f32().ok_or(F::Short)?;
    if bad_time(time) {
        return Err(F::Time(time.to_bits()));
    }
    let delta = r.f32().ok_or(F::Short)?;
    if bad_time(delta) {
        return Err(F::Delta(delta.to_bits()));
    }
    if time == 0.0 && delta == 0.0 {
        return Ok(false);
    }
    (f.time, f.delta) = (time, delta);
    while r.bit().ok_or(F::Short)? {
        let id = r.bounded(cfg.max_channels as u64).ok_or(F::Short)? as i32;
        let alive = r.bit().ok_or(F::Short)?;
        if !alive {
            if r.left() == 0 {
                return Err(F::Short);
            }
            f.deleted_actors.push(ActorId(id));
            actors.delete(id);
            continue;
        }
        if r.bit().ok_or(F::Short)? {
            let name_id = if cfg.ver >= (868, 20, 0) || (cfg.ver >= (868, 14, 0) && !cfg.lan) {
                Some(r.i32().ok_or(F::Short)?)
            } else {
                None
            };
            r.bit().ok_or(F::Short)?;
            let obj = r.i32().ok_or(F::Short)?;
            if obj < 0 || obj as usize >= w.spawn.len() {
                return Err(F::Object(obj));
            }
            let (mut location, mut rotation) = (None, None);
            let s = w.spawn[obj as usize];
            if s != Spawn::None {
                location = Some(vec3i(r, cfg.ver.2).ok_or(F::Short)?);
            }
            if s == Spawn::LocationAndRotation {
                rotation = Some(rot(r).ok_or(F::Short)?);
            }
            if w.class[obj as usize].is_none() {
                return Err(F::MissingCache(id, obj));
            }
            actors.insert(id, obj);
            f.new_actors.push(NewActor {
                actor_id: ActorId(id),
                name_id,
                object_id: ObjectId(obj),
                initial_trajectory: Trajectory { location, rotation },
            });
        } else {
            let obj = actors.get(id).ok_or(F::MissingActor(id))?;
            let class = w.class[obj as usize].as_ref().unwrap();
            while r.bit().ok_or(F::Short)? {
                let max = class.max.ok_or(F::Short)?;
                if r.left() < low_bits(max) as usize + 1 {
                    return Err(F::Short);
                }
                let sid = r.bounded(max).ok_or(F::Short)? as i32;
                let Some(&(tag, aobj)) = class.attrs.get(&sid) else {
                    return Err(F::MissingAttr(id, obj, sid));
                };
                let attribute = attr(r, tag, cfg).map_err(|e| match e {
                    A::Unknown => F::MissingAttr(id, obj, sid),
                    e => F::Attr(id, obj, sid, e),
                })?;
                f.updated_actors.push(UpdatedAttribute {
                    actor_id: ActorId(id),
                    stream_id: StreamId(sid),
                    object_id: ObjectId(aobj),
                    attribute,
                });
            }
        }
    }
    Ok(true)
}

/// Where decoding of frames stopped.
pub struct Stop {
    pub frames: Vec<Frame>,
    pub current: Frame,
    pub objects: Vec<String>,
    /// the error that stopped it, and what is declared
    pub error: F,
    pub world: World,
}

thread_local! {
    static LEFT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static STOP: std::cell::RefCell<Option<Stop>> = const { std::cell::RefCell::new(None) };
    static WATCH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static UNSPEC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Keeps (or no longer keeps) where decoding of frames stops.
pub fn watch(on: bool) {
    WATCH.with(|w| w.set(on));
    STOP.with(|s| *s.borrow_mut() = None);
}
pub fn stopped() -> Option<Stop> {
    STOP.with(|s| s.borrow_mut().take())
}
/// Resets (or sets) the note that the last parse met a situation no property defines.
pub fn unspecified(v: bool) {
    UNSPEC.with(|u| u.set(v));
}
pub fn was_unspecified() -> bool {
    UNSPEC.with(|u| u.get())
}

/// Live and deleted actors by id.
#[derive(Default)]
struct Actors {
    live: HashMap<i32, i32>,
    dead: HashMap<i32, i32>,
}

impl Actors {
    fn insert(&mut self, id: i32, obj: i32) {
        self.dead.remove(&id);
        self.live.insert(id, obj);
    }
    fn delete(&mut self, id: i32) {
        if let Some(o) = self.live.remove(&id) {
            self.dead.insert(id, o);
        }
    }
    /// What an update to a deleted actor means is not part of any property: noted, and read as
    /// replays need it (see DESIGN.md).
    fn get(&self, id: i32) -> Option<i32> {
        if let Some(o) = self.live.get(&id) {
            return Some(*o);
        }
        let o = self.dead.get(&id)?;
        unspecified(true);
        if (0..200).contains(&id) {
            Some(*o)
        } else {
            None
        }
    }
}

pub fn vec3i(r: &mut BitR, net: i32) -> Option<Vector3i> {
    let size = r.bounded(if net >= 7 { 22 } else { 20 })?;
    let bias = 1i64 << (size + 1);
    let n = size as u32 + 2;
    let mut c = [0i32; 3];
    for x in &mut c {
        *x = (r.get(n)? as i64 - bias) as i32;
    }
    Some(Vector3i { x: c[0], y: c[1], z: c[2] })
}

pub fn vec3f(r: &mut BitR, net: i32) -> Option<Vector3f> {
    let v = vec3i(r, net)?;
    Some(Vector3f { x: v.x as f32 / 100.0, y: v.y as f32 / 100.0, z: v.z as f32 / 100.0 })
}

pub fn rot(r: &mut BitR) -> Option<Rotation> {
    let mut c = [None; 3];
    for x in &mut c {
        if r.bit()? {
            *x = Some(r.i8()?);
        }
    }
    Some(Rotation { yaw: c[0], pitch: c[1], roll: c[2] })
}

pub fn quat(r: &mut BitR) -> Option<Quaternion> {
    let largest = r.get(2)?;
    let mut c = [0f32; 3];
    for x in &mut c {
        let v = r.get(18)? as f32;
        *x = ((v / 262143.0) - 0.5) * 2.0 * std::f32::consts::FRAC_1_SQRT_2;
    }
    let [a, b, d] = c;
    // 1 - a² - b² - d², each step rounded once
    let e = f32::mul_add(d, -d, f32::mul_add(b, -b, f32::mul_add(a, -a, 1.0))).sqrt();
    let (x, y, z, w) = match largest {
        0 => (e, a, b, d),
        1 => (a, e, b, d),
        2 => (a, b, e, d),
        _ => (a, b, d, e),
    };
    Some(Quaternion { x, y, z, w })
}

pub fn quat16(r: &mut BitR) -> Option<Quaternion> {
    let mut c = [0f32; 3];
    for x in &mut c {
        *x = (r.get(16)? as i32 - 32768) as f32 * (32767f32).recip();
    }
    Some(Quaternion { x: c[0], y: c[1], z: c[2], w: 0.0 })
}

fn active(r: &mut BitR) -> Option<ActiveActor> {
    Some(ActiveActor { active: r.bit()?, actor: ActorId(r.i32()?) })
}

fn explosion(r: &mut BitR, net: i32) -> Option<Explosion> {
    Some(Explosion { flag: r.bit()?, actor: ActorId(r.i32()?), location: vec3f(r, net)? })
}

fn net_text(r: &mut BitR) -> Result<String, A> {
    let n = r.i32().ok_or(A::Short)?;
    if n == 0 {
        return Ok(String::new());
    }
    let bytes = if n < 0 { n as i64 * -2 } else { n as i64 };
    if bytes > 1024 {
        return Err(A::TooBig(n));
    }
    let d = r.bytes(bytes as usize).ok_or(A::TextShort(n))?;
    Ok(if n < 0 { utf16(&d) } else { w1252(&d) })
}

fn loadout(r: &mut BitR) -> Option<Loadout> {
    let version = r.u8()?;
    let mut l = Loadout {
        version,
        body: r.u32()?,
        decal: r.u32()?,
        wheels: r.u32()?,
        rocket_trail: r.u32()?,
        antenna: r.u32()?,
        topper: r.u32()?,
        unknown1: r.u32()?,
        unknown2: None,
        engine_audio: None,
        trail: None,
        goal_explosion: None,
        banner: None,
        product_id: None,
    };
    if version >= 11 {
        l.unknown2 = Some(r.u32()?);
    }
    if version >= 16 {
        l.engine_audio = Some(r.u32()?);
        l.trail = Some(r.u32()?);
        l.goal_explosion = Some(r.u32()?);
    }
    if version >= 17 {
        l.banner = Some(r.u32()?);
    }
    if version >= 19 {
        l.product_id = Some(r.u32()?);
    }
    if version >= 22 {
        for _ in 0..3 {
            r.u32()?;
        }
    }
    Some(l)
}

fn unique_id(r: &mut BitR, net: i32) -> Result<UniqueId, A> {
    let sys = r.u8().ok_or(A::Short)?;
    unique_id_of(r, net, sys)
}

fn unique_id_of(r: &mut BitR, net: i32, sys: u8) -> Result<UniqueId, A> {
    let s = A::Short;
    let remote_id = match sys {
        0 => RemoteId::SplitScreen(r.get(24).ok_or(s)? as u32),
        1 => RemoteId::Steam(r.u64().ok_or(s)?),
        2 => {
            let n = r.bytes(16).ok_or(A::Short)?;
            let name: String = n.iter().take_while(|b| **b != 0).map(|b| win1252(*b)).collect();
            let unknown1 = r.bytes(if net >= 1 { 16 } else { 8 }).ok_or(A::Short)?;
            let online_id = r.u64().ok_or(A::Short)?;
            RemoteId::PlayStation(Ps4Id { online_id, name, unknown1 })
        }
        4 => RemoteId::Xbox(r.u64().ok_or(s)?),
        5 => RemoteId::QQ(r.u64().ok_or(s)?),
        6 => {
            let online_id = r.u64().ok_or(A::Short)?;
            RemoteId::Switch(SwitchId { online_id, unknown1: r.bytes(24).ok_or(A::Short)? })
        }
        7 => {
            let online_id = r.u64().ok_or(A::Short)?;
            let unknown1 = if net < 10 { r.bytes(24).ok_or(A::Short)? } else { vec![] };
            RemoteId::PsyNet(PsyNetId { online_id, unknown1 })
        }
        11 => RemoteId::Epic(net_text(r)?),
        x => return Err(A::Remote(x)),
    };
    let local_id = r.u8().ok_or(A::Short)?;
    Ok(UniqueId { system_id: sys, remote_id, local_id })
}

fn product(r: &mut BitR, cfg: &NetCfg) -> Option<Product> {
    let unknown = r.bit()?;
    let obj = r.i32()?;
    let p = &cfg.products;
    let old = |r: &mut BitR| r.bounded(14).map(|x| x as u32);
    let n31 = |r: &mut BitR| r.get(31).map(|x| x as u32);
    let value = if Some(obj) == p.color {
        if cfg.ver >= (868, 23, 8) {
            ProductValue::NewColor(r.u32()?)
        } else if r.bit()? {
            ProductValue::OldColor(n31(r)?)
        } else {
            ProductValue::NoColor
        }
    } else if Some(obj) == p.painted {
        if cfg.ver >= (868, 18, 0) {
            ProductValue::NewPaint(n31(r)?)
        } else {
            ProductValue::OldPaint(old(r)?)
        }
    } else if Some(obj) == p.title {
        ProductValue::Title(net_text(r).ok()?)
    } else if Some(obj) == p.special {
        ProductValue::SpecialEdition(n31(r)?)
    } else if Some(obj) == p.team {
        if cfg.ver >= (868, 18, 0) {
            ProductValue::NewTeamEdition(n31(r)?)
        } else {
            ProductValue::OldTeamEdition(old(r)?)
        }
    } else {
        ProductValue::Absent
    };
    Some(Product { unknown, object_ind: ObjectId(obj), value })
}

fn online(r: &mut BitR, cfg: &NetCfg) -> Option<Vec<Vec<Product>>> {
    let n = r.u8()?;
    let mut out = vec![];
    for _ in 0..n {
        let k = r.u8()?;
        let mut v = vec![];
        for _ in 0..k {
            v.push(product(r, cfg)?);
        }
        out.push(v);
    }
    Some(out)
}

pub fn attr(r: &mut BitR, tag: Tag, cfg: &NetCfg) -> Result<Attribute, A> {
    // String valued kinds report their own errors; everything else can only run out of bits.
    match tag {
        Tag::NotImplemented => return Err(A::Unknown),
        Tag::String => return net_text(r).map(Attribute::String),
        Tag::QWordString if cfg.rl223 => return net_text(r).map(Attribute::String),
        Tag::UniqueId => {
            return unique_id(r, cfg.ver.2).map(|u| Attribute::UniqueId(Box::new(u)))
        }
        Tag::PartyLeader => {
            let sys = r.u8().ok_or(A::Short)?;
            if sys == 0 {
                return Ok(Attribute::PartyLeader(None));
            }
            return unique_id_of(r, cfg.ver.2, sys)
                .map(|u| Attribute::PartyLeader(Some(Box::new(u))));
        }
        Tag::Reservation => {
            let number = r.get(3).ok_or(A::Short)? as u32;
            let unique_id = unique_id(r, cfg.ver.2)?;
            let name = if unique_id.system_id != 0 {
                Some(net_text(r)?)
            } else if unique_id.remote_id != RemoteId::SplitScreen(0) {
                let mut s = String::new();
                while s.len() < 255 {
                    match r.u8().ok_or(A::Short)? {
                        0 => break,
                        c => s.push(char::from(c)),
                    }
                }
                Some(s)
            } else {
                None
            };
            let unknown1 = r.bit().ok_or(A::Short)?;
            let unknown2 = r.bit().ok_or(A::Short)?;
            let unknown3 = if cfg.ver >= (868, 12, 0) {
                Some(r.get(6).ok_or(A::Short)? as u8)
            } else {
                None
            };
            return Ok(Attribute::Reservation(Box::new(Reservation {
                number, unique_id, name, unknown1, unknown2, unknown3,
            })));
        }
        Tag::PrivateMatchSettings => {
            let mutators = net_text(r)?;
            let joinable_by = r.u32().ok_or(A::Short)?;
            let max_players = r.u32().ok_or(A::Short)?;
            let game_name = net_text(r)?;
            let password = net_text(r)?;
            let flag = r.bit().ok_or(A::Short)?;
            return Ok(Attribute::PrivateMatch(Box::new(PrivateMatchSettings {
                mutators, joinable_by, max_players, game_name, password, flag,
            })));
        }
        Tag::RepStatTitle => {
            let unknown = r.bit().ok_or(A::Short)?;
            let name = net_text(r)?;
            let unknown2 = r.bit().ok_or(A::Short)?;
            let index = r.u32().ok_or(A::Short)?;
            let value = r.u32().ok_or(A::Short)?;
            return Ok(Attribute::RepStatTitle(RepStatTitle {
                unknown, name, unknown2, index, value,
            }));
        }
        _ => {}
    }
    plain(r, tag, cfg).ok_or(A::Short)
}

fn plain(r: &mut BitR, tag: Tag, cfg: &NetCfg) -> Option<Attribute> {
    let net = cfg.ver.2;
    Some(match tag {
        Tag::Boolean => Attribute::Boolean(r.bit()?),
        Tag::Byte => Attribute::Byte(r.u8()?),
        Tag::Enum => Attribute::Enum(r.get(11)? as u16),
        Tag::Float => Attribute::Float(r.f32()?),
        Tag::Int => Attribute::Int(r.i32()?),
        Tag::Int64 => Attribute::Int64(r.u64()? as i64),
        Tag::QWordString => Attribute::QWord(r.u64()?),
        Tag::PlayerHistoryKey => Attribute::PlayerHistoryKey(r.get(14)? as u16),
        Tag::FlaggedByte => Attribute::FlaggedByte(r.bit()?, r.u8()?),
        Tag::ActiveActor => Attribute::ActiveActor(active(r)?),
        Tag::GameMode => {
            let n = if cfg.ver < (868, 12, 0) { 2 } else { 8 };
            Attribute::GameMode(n, r.get(n as u32)? as u8)
        }
        Tag::AppliedDamage => Attribute::AppliedDamage(AppliedDamage {
            id: r.u8()?,
            position: vec3f(r, net)?,
            damage_index: r.i32()?,
            total_damage: r.i32()?,
        }),
        Tag::DamageState => Attribute::DamageState(DamageState {
            tile_state: r.u8()?,
            damaged: r.bit()?,
            offender: ActorId(r.i32()?),
            ball_position: vec3f(r, net)?,
            direct_hit: r.bit()?,
            unknown1: r.bit()?,
        }),
        Tag::CamSettings => Attribute::CamSettings(Box::new(CamSettings {
            fov: r.f32()?,
            height: r.f32()?,
            angle: r.f32()?,
            distance: r.f32()?,
            stiffness: r.f32()?,
            swivel: r.f32()?,
            transition: if cfg.ver >= (868, 20, 0) { Some(r.f32()?) } else { None },
        })),
        Tag::ClubColors => Attribute::ClubColors(ClubColors {
            blue_flag: r.bit()?,
            blue_color: r.u8()?,
            orange_flag: r.bit()?,
            orange_color: r.u8()?,
        }),
        Tag::Demolish => Attribute::Demolish(Box::new(Demolish {
            attacker_flag: r.bit()?,
            attacker: ActorId(r.i32()?),
            victim_flag: r.bit()?,
            victim: ActorId(r.i32()?),
            attack_velocity: vec3f(r, net)?,
            victim_velocity: vec3f(r, net)?,
        })),
        Tag::DemolishFx => Attribute::DemolishFx(Box::new(DemolishFx {
            custom_demo_flag: r.bit()?,
            custom_demo_id: r.i32()?,
            attacker_flag: r.bit()?,
            attacker: ActorId(r.i32()?),
            victim_flag: r.bit()?,
            victim: ActorId(r.i32()?),
            attack_velocity: vec3f(r, net)?,
            victim_velocity: vec3f(r, net)?,
        })),
        Tag::DemolishExtended => Attribute::DemolishExtended(Box::new(DemolishExtended {
            attacker_pri: active(r)?,
            self_demo: active(r)?,
            self_demolish: r.bit()?,
            goal_explosion_owner: active(r)?,
            attacker: active(r)?,
            victim: active(r)?,
            attacker_velocity: vec3f(r, net)?,
            victim_velocity: vec3f(r, net)?,
        })),
        Tag::Explosion => Attribute::Explosion(explosion(r, net)?),
        Tag::ExtendedExplosion => Attribute::ExtendedExplosion(ExtendedExplosion {
            explosion: explosion(r, net)?,
            unknown1: r.bit()?,
            secondary_actor: ActorId(r.i32()?),
        }),
        Tag::Loadout => Attribute::Loadout(Box::new(loadout(r)?)),
        Tag::TeamLoadout => Attribute::TeamLoadout(Box::new(TeamLoadout {
            blue: loadout(r)?,
            orange: loadout(r)?,
        })),
        Tag::Location => Attribute::Location(vec3f(r, net)?),
        Tag::MusicStinger => Attribute::MusicStinger(MusicStinger {
            flag: r.bit()?,
            cue: r.u32()?,
            trigger: r.u8()?,
        }),
        Tag::Pickup => Attribute::Pickup(Pickup {
            instigator: if r.bit()? { Some(ActorId(r.i32()?)) } else { None },
            picked_up: r.bit()?,
        }),
        Tag::PickupNew => Attribute::PickupNew(PickupNew {
            instigator: if r.bit()? { Some(ActorId(r.i32()?)) } else { None },
            picked_up: r.u8()?,
        }),
        Tag::Welded => Attribute::Welded(Welded {
            active: r.bit()?,
            actor: ActorId(r.i32()?),
            offset: vec3f(r, net)?,
            mass: r.f32()?,
            rotation: rot(r)?,
        }),
        Tag::RotationTag => Attribute::Rotation(rot(r)?),
        Tag::Title => Attribute::Title(
            r.bit()?,
            r.bit()?,
            r.u32()?,
            r.u32()?,
            r.u32()?,
            r.u32()?,
            r.u32()?,
            r.bit()?,
        ),
        Tag::TeamPaint => Attribute::TeamPaint(TeamPaint {
            team: r.u8()?,
            primary_color: r.u8()?,
            accent_color: r.u8()?,
            primary_finish: r.u32()?,
            accent_finish: r.u32()?,
        }),
        Tag::RigidBody => {
            let sleeping = r.bit()?;
            let location = vec3f(r, net)?;
            let rotation = if net >= 7 { quat(r)? } else { quat16(r)? };
            let (mut linear_velocity, mut angular_velocity) = (None, None);
            if !sleeping {
                linear_velocity = Some(vec3f(r, net)?);
                angular_velocity = Some(vec3f(r, net)?);
            }
            Attribute::RigidBody(RigidBody {
                sleeping, location, rotation, linear_velocity, angular_velocity,
            })
        }
        Tag::StatEvent => {
            Attribute::StatEvent(StatEvent { unknown1: r.bit()?, object_id: r.i32()? })
        }
        Tag::PickupInfo => Attribute::PickupInfo(PickupInfo {
            available_pickups: [active(r)?, active(r)?, active(r)?],
            items_are_preview: r.bit()?,
        }),
        Tag::Impulse => {
            Attribute::Impulse(Impulse { compressed_rotation: r.i32()?, speed: r.f32()? })
        }
        Tag::ReplicatedBoost => Attribute::ReplicatedBoost(ReplicatedBoost {
            grant_count: r.u8()?,
            boost_amount: r.u8()?,
            unused1: r.u8()?,
            unused2: r.u8()?,
        }),
        Tag::LogoData => {
            Attribute::LogoData(LogoData { logo_id: r.u32()?, swap_colors: r.bit()? })
        }
        Tag::LoadoutOnline => Attribute::LoadoutOnline(online(r, cfg)?),
        Tag::LoadoutsOnline => Attribute::LoadoutsOnline(LoadoutsOnline {
            blue: online(r, cfg)?,
            orange: online(r, cfg)?,
            unknown1: r.bit()?,
            unknown2: r.bit()?,
        }),
        _ => unreachable!("kind handled elsewhere"),
    })
}
