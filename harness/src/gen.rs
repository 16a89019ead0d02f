//! Generators shared by the families: worlds, attribute payloads, seed replays.

use crate::bits::BitW;
use crate::explore::Ch;
use crate::golden::{Tag, ATTRS};
use crate::refdec::Ver;
use crate::rep::*;

pub const TAGS: [Tag; 44] = [
    Tag::ActiveActor, Tag::AppliedDamage, Tag::Boolean, Tag::Byte, Tag::CamSettings, Tag::ClubColors,
    Tag::DamageState, Tag::Demolish, Tag::DemolishExtended, Tag::DemolishFx, Tag::Enum, Tag::Explosion,
    Tag::ExtendedExplosion, Tag::FlaggedByte, Tag::Float, Tag::GameMode, Tag::Impulse, Tag::Int,
    Tag::Int64, Tag::Loadout, Tag::LoadoutOnline, Tag::LoadoutsOnline, Tag::Location, Tag::LogoData,
    Tag::MusicStinger, Tag::PartyLeader, Tag::Pickup, Tag::PickupInfo, Tag::PickupNew,
    Tag::PlayerHistoryKey, Tag::PrivateMatchSettings, Tag::QWordString, Tag::RepStatTitle,
    Tag::ReplicatedBoost, Tag::Reservation, Tag::RigidBody, Tag::RotationTag, Tag::StatEvent,
    Tag::String, Tag::TeamLoadout, Tag::TeamPaint, Tag::Title, Tag::UniqueId, Tag::Welded,
];

/// A property name whose value has this kind.
pub fn name_of(tag: Tag) -> &'static str {
    ATTRS.iter().find(|a| a.1 == tag).map(|a| a.0).unwrap_or_else(|| panic!("no name for {tag:?}"))
}

pub const PRI: &str = "TAGame.Default__PRI_TA";
pub const UNKNOWN_ATTR: &str = "Verif.Unknown_TA:Zzz";
pub const PRODUCTS: [&str; 5] = [
    "TAGame.ProductAttribute_UserColor_TA",
    "TAGame.ProductAttribute_Painted_TA",
    "TAGame.ProductAttribute_TitleID_TA",
    "TAGame.ProductAttribute_SpecialEdition_TA",
    "TAGame.ProductAttribute_TeamEdition_TA",
];

pub const LAST_VER: Ver = (868, 32, 10);

/// A world with one class (object 0) whose stream id i is attribute object i; product classes and
/// an unknown class last.
pub struct W {
    pub rep: Rep,
    pub largest: i32,
    pub max_ch: u32,
    pub product0: i32,
}

impl W {
    /// `attrs[i]` gets stream id i + 1.
    pub fn new(ver: Ver, attrs: &[&str]) -> W {
        let mut objs: Vec<&str> = vec![PRI];
        objs.extend_from_slice(attrs);
        let product0 = objs.len() as i32;
        objs.extend_from_slice(&PRODUCTS);
        objs.push("Verif.NoProduct_TA");
        let mut rep = Rep::new().with_ver(ver).objs(&objs);
        rep.cache = vec![(0, 0, 0, (1..=attrs.len() as i32).map(|i| (i, i)).collect())];
        W { rep, largest: attrs.len() as i32, max_ch: 1023, product0 }
    }
    pub fn net(&self) -> Net {
        Net::new(self.max_ch, self.rep.ver(), false)
    }
    pub fn file(&self, frames: i32, network: Vec<u8>) -> Vec<u8> {
        let mut r = self.rep.clone();
        r.props.push(k("NumFrames", P::Int(frames)));
        r.network = network;
        r.bytes()
    }
}

/// Distinct, bit-rich default for the n-th field.
pub fn mix(n: u64) -> u64 {
    let mut x = (n + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 31;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 29)
}

pub struct G<'a, 'b> {
    pub c: &'a mut Ch<'b>,
    pub w: BitW,
    pub n: u64,
    pub ver: Ver,
    pub rl223: bool,
    pub product0: i32,
    /// Longest text tried, in bytes
    pub long: bool,
}

impl<'a, 'b> G<'a, 'b> {
    pub fn new(c: &'a mut Ch<'b>, ver: Ver, product0: i32) -> Self {
        G { c, w: BitW::new(), n: 0, ver, rl223: false, product0, long: false }
    }
    fn next(&mut self) -> u64 {
        self.n += 1;
        mix(self.n)
    }
    pub fn bit(&mut self) -> bool {
        self.n += 1;
        let d = self.n % 2 == 1;
        let v = (self.c.dev(2) == 1) ^ d;
        self.w.bit(v);
        v
    }
    /// Bit whose default is given.
    pub fn bit_d(&mut self, d: bool) -> bool {
        let v = (self.c.dev(2) == 1) ^ d;
        self.w.bit(v);
        v
    }
    pub fn int(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let d = self.next() & m;
        let v = self.c.devof(&[d, 0, 1, m, m >> 1, (m >> 1) + 1]);
        self.w.put(v, bits);
        v
    }
    pub fn f32(&mut self) {
        let d = (self.next() as u32 & 0x007f_ffff) | 0x4140_0000;
        let v = self.c.devof(&[d, 0, 0x8000_0000, 0x3f80_0000, 1, 0x7f80_0000, 0xff80_0000, 0x7fc0_1234, 0x7f80_0001]);
        self.w.put(v as u64, 32);
    }
    pub fn bounded(&mut self, max: u64) {
        let d = self.next() % max;
        let v = self.c.devof(&[d, 0, 1, max - 1, max / 2, 7.min(max - 1), 8.min(max - 1)]);
        self.w.bounded(v, max);
    }
    pub fn vec(&mut self) {
        let lim: u64 = if self.ver.2 >= 7 { 22 } else { 20 };
        let sizes = [11, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21];
        let n = lim as usize;
        let size = sizes[self.c.dev(n)];
        self.w.bounded(size, lim);
        let b = size as u32 + 2;
        for _ in 0..3 {
            let m = (1u64 << b) - 1;
            let d = self.next() & m;
            let v = self.c.devof(&[d, 0, m, 1 << (b - 1), (1 << (b - 1)) - 1]);
            self.w.put(v, b);
        }
    }
    pub fn rot(&mut self) {
        for i in 0..3 {
            if self.bit_d(i != 1) {
                self.int(8);
            }
        }
    }
    pub fn quat(&mut self) {
        if self.ver.2 >= 7 {
            let l = self.c.devof(&[1u64, 0, 2, 3]);
            self.w.put(l, 2);
            for _ in 0..3 {
                let d = 131072 + (self.next() & 0xffff);
                let v = self.c.devof(&[d, 0, 262143, 131071, 131072]);
                self.w.put(v, 18);
            }
        } else {
            for _ in 0..3 {
                self.int(16);
            }
        }
    }
    pub fn active(&mut self) {
        self.bit();
        self.int(32);
    }
    pub fn text(&mut self) {
        self.n += 1;
        let tag = format!(" \t{}X\r ", self.n);
        let n = if self.long { 13 } else { 9 };
        let x = match self.c.dev(n) {
            0 => t(&tag),
            1 => Txt::Raw(0, vec![]),
            2 => Txt::W(vec![0x80, 0x99, 0xff, b'z', 0x81]),
            3 => Txt::U(vec![0x41, 0x3a9, 0x4e2d, 0xd83d, 0xde00]),
            4 => Txt::U(vec![0xd800, 0x62, 0xdc00]),
            5 => Txt::Raw(1, vec![0]),
            6 => Txt::Raw(-1, vec![0, 0]),
            7 => Txt::Raw(3, vec![b'a', 0, b'c']),
            8 => Txt::Raw(-1024, vec![b'a'; 600]),
            9 => Txt::W((0..1023).map(|i| b'a' + (i % 26) as u8).collect()),
            10 => Txt::W((0..1024).map(|i| b'a' + (i % 26) as u8).collect()),
            11 => Txt::U((0..511).map(|i| 0x100 + i as u16).collect()),
            _ => Txt::U((0..512).map(|i| 0x100 + i as u16).collect()),
        };
        x.bits(&mut self.w);
    }
    /// Size and bytes of raw data of `n` bytes.
    fn raw(&mut self, n: usize) {
        self.n += 1;
        let base = mix(self.n) as u8;
        let which = self.c.dev(4);
        for i in 0..n {
            let v = match which {
                0 => base.wrapping_add(i as u8 * 7),
                1 => 0,
                2 => 0xff,
                _ => {
                    if i == n - 1 {
                        0x80
                    } else {
                        1
                    }
                }
            };
            self.w.u8(v);
        }
    }
    pub fn uid_body(&mut self, sys: u8) {
        match sys {
            0 => {
                self.int(24);
            }
            1 | 4 | 5 => {
                self.int(64);
            }
            2 => {
                let names: [&[u8]; 6] = [b" Player ", b"", b"0123456789abcdef", b"a\0b", b"\x80\xff", b"0123456789abcde"];
                let nm = self.c.devof(&names);
                for i in 0..16 {
                    self.w.u8(nm.get(i).copied().unwrap_or(0));
                }
                self.raw(if self.ver.2 >= 1 { 16 } else { 8 });
                self.int(64);
            }
            6 => {
                self.int(64);
                self.raw(24);
            }
            7 => {
                self.int(64);
                if self.ver.2 < 10 {
                    self.raw(24);
                }
            }
            11 => self.text(),
            _ => {}
        }
        self.int(8);
    }
    pub fn uid(&mut self) -> u8 {
        let sys = self.c.devof(&SYSTEMS);
        self.w.u8(sys);
        self.uid_body(sys);
        sys
    }
    pub fn loadout(&mut self) {
        let v = self.c.devof(&[22u8, 0, 1, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 23, 28, 127, 128, 255]);
        self.w.u8(v);
        let n = 7 + (v >= 11) as usize
            + 3 * (v >= 16) as usize
            + (v >= 17) as usize
            + (v >= 19) as usize
            + 3 * (v >= 22) as usize;
        for _ in 0..n {
            self.int(32);
        }
    }
    /// `kind`: index into PRODUCTS, 5 none of them, 6 an object id beyond the list, 7 object 0
    pub fn product(&mut self, kind: usize) {
        self.bit();
        let obj = match kind {
            6 => self.product0 + 1000,
            7 => 0,
            8 => -1,
            x => self.product0 + x as i32,
        };
        self.w.i32(obj);
        match kind {
            0 => {
                if self.ver >= (868, 23, 8) {
                    self.int(32);
                } else if self.bit_d(true) {
                    self.int(31);
                }
            }
            1 | 4 => {
                if self.ver >= (868, 18, 0) {
                    self.int(31);
                } else {
                    self.bounded(14);
                }
            }
            2 => self.text(),
            3 => {
                self.int(31);
            }
            _ => {}
        }
    }
    pub fn online(&mut self) {
        // default: one slot per kind, the first with two products
        let shape: &[&[usize]] = match self.c.dev(6) {
            0 => &[&[0, 1], &[2], &[3, 4, 5], &[]],
            1 => &[],
            2 => &[&[]],
            3 => &[&[6, 7, 8]],
            4 => &[&[4], &[4], &[0]],
            _ => &[&[5], &[2, 2], &[1]],
        };
        self.w.u8(shape.len() as u8);
        for s in shape {
            self.w.u8(s.len() as u8);
            for p in *s {
                self.product(*p);
            }
        }
    }
    pub fn attr(&mut self, tag: Tag) {
        match tag {
            Tag::Boolean => {
                self.bit();
            }
            Tag::Byte => {
                self.int(8);
            }
            Tag::Enum => {
                self.int(11);
            }
            Tag::Float => self.f32(),
            Tag::Int => {
                self.int(32);
            }
            Tag::Int64 => {
                self.int(64);
            }
            Tag::QWordString if self.rl223 => self.text(),
            Tag::QWordString => {
                self.int(64);
            }
            Tag::PlayerHistoryKey => {
                self.int(14);
            }
            Tag::FlaggedByte => {
                self.bit();
                self.int(8);
            }
            Tag::ActiveActor => self.active(),
            Tag::GameMode => {
                self.int(if self.ver < (868, 12, 0) { 2 } else { 8 });
            }
            Tag::AppliedDamage => {
                self.int(8);
                self.vec();
                self.int(32);
                self.int(32);
            }
            Tag::DamageState => {
                self.int(8);
                self.bit();
                self.int(32);
                self.vec();
                self.bit();
                self.bit_d(false);
            }
            Tag::CamSettings => {
                for _ in 0..if self.ver >= (868, 20, 0) { 7 } else { 6 } {
                    self.f32();
                }
            }
            Tag::ClubColors => {
                self.bit_d(true);
                self.int(8);
                self.bit_d(false);
                self.int(8);
            }
            Tag::Demolish => {
                for d in [true, false] {
                    self.bit_d(d);
                    self.int(32);
                }
                self.vec();
                self.vec();
            }
            Tag::DemolishFx => {
                self.bit_d(false);
                self.int(32);
                for d in [true, false] {
                    self.bit_d(d);
                    self.int(32);
                }
                self.vec();
                self.vec();
            }
            Tag::DemolishExtended => {
                self.bit_d(true);
                self.int(32);
                self.bit_d(false);
                self.int(32);
                self.bit_d(true);
                for d in [true, false, true] {
                    self.bit_d(d);
                    self.int(32);
                }
                self.vec();
                self.vec();
            }
            Tag::Explosion => {
                self.bit();
                self.int(32);
                self.vec();
            }
            Tag::ExtendedExplosion => {
                self.bit();
                self.int(32);
                self.vec();
                self.bit_d(true);
                self.int(32);
            }
            Tag::Loadout => self.loadout(),
            Tag::TeamLoadout => {
                self.loadout();
                self.loadout();
            }
            Tag::Location => self.vec(),
            Tag::MusicStinger => {
                self.bit();
                self.int(32);
                self.int(8);
            }
            Tag::Pickup => {
                if self.bit_d(true) {
                    self.int(32);
                }
                self.bit_d(false);
            }
            Tag::PickupNew => {
                if self.bit_d(true) {
                    self.int(32);
                }
                self.int(8);
            }
            Tag::Welded => {
                self.bit();
                self.int(32);
                self.vec();
                self.f32();
                self.rot();
            }
            Tag::RotationTag => self.rot(),
            Tag::Title => {
                self.bit_d(true);
                self.bit_d(false);
                for _ in 0..5 {
                    self.int(32);
                }
                self.bit_d(true);
            }
            Tag::TeamPaint => {
                for _ in 0..3 {
                    self.int(8);
                }
                self.int(32);
                self.int(32);
            }
            Tag::RigidBody => {
                let sleeping = self.bit_d(false);
                self.vec();
                self.quat();
                if !sleeping {
                    self.vec();
                    self.vec();
                }
            }
            Tag::StatEvent => {
                self.bit();
                self.int(32);
            }
            Tag::PickupInfo => {
                for d in [true, false, true] {
                    self.bit_d(d);
                    self.int(32);
                }
                self.bit_d(false);
            }
            Tag::Impulse => {
                self.int(32);
                self.f32();
            }
            Tag::ReplicatedBoost => {
                for _ in 0..4 {
                    self.int(8);
                }
            }
            Tag::LogoData => {
                self.int(32);
                self.bit();
            }
            Tag::String => self.text(),
            Tag::UniqueId => {
                self.uid();
            }
            Tag::PartyLeader => {
                let sys = self.c.devof(&[1u8, 0, 2, 4, 5, 6, 7, 11, 3, 8, 12, 255]);
                self.w.u8(sys);
                if sys != 0 {
                    self.uid_body(sys);
                }
            }
            Tag::Reservation => {
                self.int(3);
                let before = self.w.n;
                let sys = self.uid();
                if sys != 0 {
                    self.text();
                } else {
                    let v = (0..24).fold(0u32, |a, i| {
                        let p = before + 8 + i;
                        a | (((self.w.bytes[p / 8] >> (p % 8)) & 1) as u32) << i
                    });
                    if v != 0 {
                        let lens = [5usize, 0, 1, 253, 254, 255];
                        let n = self.c.devof(&lens);
                        for i in 0..n {
                            self.w.u8(b'a' + (i % 26) as u8);
                        }
                        if n < 255 {
                            self.w.u8(0);
                        }
                    }
                }
                self.bit_d(true);
                self.bit_d(false);
                if self.ver >= (868, 12, 0) {
                    self.int(6);
                }
            }
            Tag::PrivateMatchSettings => {
                self.text();
                self.int(32);
                self.int(32);
                self.text();
                self.text();
                self.bit();
            }
            Tag::RepStatTitle => {
                self.bit_d(true);
                self.text();
                self.bit_d(false);
                self.int(32);
                self.int(32);
            }
            Tag::LoadoutOnline => self.online(),
            Tag::LoadoutsOnline => {
                self.online();
                self.online();
                self.bit_d(true);
                self.bit_d(false);
            }
            Tag::NotImplemented => {}
        }
    }
}

pub const SYSTEMS: [u8; 13] = [1, 0, 2, 4, 5, 6, 7, 11, 3, 8, 9, 12, 255];

/// Default payload of an attribute (no deviations).
pub fn default_attr(tag: Tag, ver: Ver, product0: i32, rl223: bool) -> BitW {
    let mut c = Ch::new(&[], 0);
    let mut g = G::new(&mut c, ver, product0);
    g.rl223 = rl223;
    g.attr(tag);
    g.w
}

/// All attributes, each once, in one world.
pub fn all_world(ver: Ver) -> W {
    let names: Vec<&str> = TAGS.iter().map(|t| name_of(*t)).collect();
    W::new(ver, &names)
}

/// A small complete replay with something in every section and a few frames.
pub fn seed(kind: usize) -> Rep {
    match kind {
        // modern replay, many attribute kinds
        0 => {
            let mut w = all_world(LAST_VER);
            let mut n = w.net();
            n.frame(1.5, 0.25);
            n.new_actor(3, 7, 0);
            n.upd(3);
            for (i, tag) in TAGS.iter().enumerate() {
                n.attr(i as u32 + 1, w.largest);
                n.w.append(&default_attr(*tag, LAST_VER, w.product0, false));
            }
            n.end_upd().end_frame();
            n.frame(1.75, 0.25).upd(3);
            n.attr(3, w.largest).w.bit(true);
            n.end_upd().del(3).end_frame();
            w.rep.network = n.bytes();
            fill(&mut w.rep, 2);
            w.rep
        }
        // legacy replay, quirky properties
        1 => {
            let mut r = Rep::new().with_ver((0, 0, 0));
            fill(&mut r, 0);
            r
        }
        // mid generation, trajectories, lan
        2 => {
            let mut r = Rep::new().with_ver((868, 14, 0)).objs(&[
                "Archetypes.Ball.Ball_Default",
                "TAGame.Ball_TA",
                "Engine.Actor",
                "TAGame.RBActor_TA:ReplicatedRBState",
                "Engine.Actor:bNetOwner",
                "TAGame.RBActor_TA",
            ]);
            r.cache = vec![(1, 0, 1, vec![(3, 5)]), (2, 0, 0, vec![(4, 2)])];
            let mut n = Net::new(1023, r.ver(), true);
            n.frame(0.5, 0.5);
            n.new_actor(1, 0, 0).vec(11, 100, 200, 300).rot([Some(3), None, Some(-4)]);
            n.upd(1).attr(5, 5);
            n.w.append(&default_attr(Tag::RigidBody, r.ver(), 0, false));
            n.end_upd().end_frame();
            r.network = n.bytes();
            r.props.push(k("MatchType", P::Name(t("Lan"))));
            fill(&mut r, 1);
            r
        }
        // no frames declared, minimal
        _ => Rep::new(),
    }
}

fn fill(r: &mut Rep, frames: i32) {
    r.props.push(k("NumFrames", P::Int(frames)));
    r.props.push(k("MaxChannels", P::Int(1023)));
    r.props.push(k("TeamSize", P::Int(3)));
    r.props.push(k("Won", P::Bool(1)));
    r.props.push(k("Id", P::Str(t("ABCDEF"))));
    r.props.push(k("Name", P::Name(Txt::U(vec![0x41, 0x3a9]))));
    r.props.push(k("Fps", P::Float(0x41f0_0000)));
    r.props.push(k("Online", P::QWord(76561198122624102)));
    r.props.push(k("Platform", P::Byte(b"OnlinePlatform".to_vec(), b"OnlinePlatform_Steam".to_vec())));
    r.props.push(k("Goals", P::Arr(vec![vec![k("frame", P::Int(9))], vec![k("frame", P::Int(11)), k("Who", P::Str(t("x")))]])));
    if !r.quirks() {
        r.props.push(k("S", P::Struct("Thing".into(), vec![k("a", P::Int(1))])));
        r.props.push(k("None2", P::ByteNone(0)));
    }
    r.levels = vec![t("stadium_p"), t("field")];
    r.keyframes = vec![(0x3f80_0000, 1, 2), (0x4000_0000, 3, 4)];
    r.debug = vec![(5, t("user"), t("text"))];
    r.ticks = vec![(t("Team1Goal"), 42)];
    r.packages = vec![t("pkg")];
    r.names = vec![t("n0"), Txt::U(vec![0x4e2d])];
    r.classes = vec![(b"Core.Object".to_vec(), 0)];
}
