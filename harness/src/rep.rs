//! Writer of replay files: the inverse direction of the reference decoder.

use crate::bits::BitW;
use crate::refdec::crc_ref;

#[derive(Clone, Debug)]
pub enum Txt {
    /// windows-1252 bytes; terminator added
    W(Vec<u8>),
    /// UTF-16 units; terminator added
    U(Vec<u16>),
    /// declared size and the bytes that follow, as they are
    Raw(i32, Vec<u8>),
}

pub fn t(s: &str) -> Txt {
    Txt::W(s.as_bytes().to_vec())
}

impl Txt {
    pub fn enc(&self) -> (i32, Vec<u8>) {
        match self {
            Txt::W(b) => {
                let mut v = b.clone();
                v.push(0);
                (v.len() as i32, v)
            }
            Txt::U(u) => {
                let mut v: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
                v.extend_from_slice(&[0, 0]);
                (-(u.len() as i32 + 1), v)
            }
            Txt::Raw(n, b) => (*n, b.clone()),
        }
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        let (n, b) = self.enc();
        i32le(o, n);
        o.extend_from_slice(&b);
    }
    pub fn bits(&self, w: &mut BitW) {
        let (n, b) = self.enc();
        w.i32(n);
        w.raw(&b);
    }
}

pub fn i32le(o: &mut Vec<u8>, x: i32) {
    o.extend_from_slice(&x.to_le_bytes());
}

pub fn str_(o: &mut Vec<u8>, s: &str) {
    strb(o, s.as_bytes());
}
pub fn strb(o: &mut Vec<u8>, s: &[u8]) {
    i32le(o, s.len() as i32 + 1);
    o.extend_from_slice(s);
    o.push(0);
}

#[derive(Clone, Debug)]
pub enum P {
    Bool(u8),
    Byte(Vec<u8>, Vec<u8>),
    /// kind "None" and the byte that follows
    ByteNone(u8),
    Float(u32),
    Int(i32),
    QWord(u64),
    Name(Txt),
    Str(Txt),
    Arr(Vec<Props>),
    ArrRaw(i32, Vec<u8>),
    Struct(String, Props),
    /// kind and payload
    Raw(Vec<u8>, Vec<u8>),
}

pub type Props = Vec<(Vec<u8>, P)>;

pub fn k(key: &str, p: P) -> (Vec<u8>, P) {
    (key.as_bytes().to_vec(), p)
}

#[derive(Clone, Debug)]
pub struct Style {
    pub quirks: bool,
    /// Declared size: None writes the payload's length
    pub size: Option<u32>,
    pub pad: u32,
}

pub fn put_props(o: &mut Vec<u8>, ps: &Props, st: &Style) {
    for (key, p) in ps {
        strb(o, key);
        let mut b = vec![];
        let kind: &[u8] = match p {
            P::Bool(x) => {
                b.push(*x);
                if st.quirks {
                    b.extend_from_slice(&[1, 2, 3]);
                }
                b"BoolProperty"
            }
            P::Byte(x, y) => {
                strb(&mut b, x);
                if !st.quirks {
                    strb(&mut b, y);
                }
                b"ByteProperty"
            }
            P::ByteNone(x) => {
                str_(&mut b, "None");
                if !st.quirks {
                    b.push(*x);
                }
                b"ByteProperty"
            }
            P::Float(x) => {
                b.extend_from_slice(&x.to_le_bytes());
                b"FloatProperty"
            }
            P::Int(x) => {
                i32le(&mut b, *x);
                b"IntProperty"
            }
            P::QWord(x) => {
                b.extend_from_slice(&x.to_le_bytes());
                b"QWordProperty"
            }
            P::Name(x) => {
                x.put(&mut b);
                b"NameProperty"
            }
            P::Str(x) => {
                x.put(&mut b);
                b"StrProperty"
            }
            P::Arr(v) => {
                i32le(&mut b, v.len() as i32);
                for ps in v {
                    put_props(&mut b, ps, st);
                }
                b"ArrayProperty"
            }
            P::ArrRaw(n, v) => {
                i32le(&mut b, *n);
                b.extend_from_slice(v);
                b"ArrayProperty"
            }
            P::Struct(n, ps) => {
                str_(&mut b, n);
                put_props(&mut b, ps, st);
                b"StructProperty"
            }
            P::Raw(kind, v) => {
                b.extend_from_slice(v);
                kind
            }
        };
        strb(o, kind);
        o.extend_from_slice(&st.size.unwrap_or(b.len() as u32).to_le_bytes());
        o.extend_from_slice(&st.pad.to_le_bytes());
        o.extend_from_slice(&b);
    }
    str_(o, "None");
}

#[derive(Clone, Debug)]
pub struct Rep {
    pub major: i32,
    pub minor: i32,
    pub net: i32,
    pub game: Txt,
    pub props: Props,
    pub size: Option<u32>,
    pub pad: u32,
    pub levels: Vec<Txt>,
    pub keyframes: Vec<(u32, i32, i32)>,
    pub network: Vec<u8>,
    pub debug: Vec<(i32, Txt, Txt)>,
    pub ticks: Vec<(Txt, i32)>,
    pub packages: Vec<Txt>,
    pub objects: Vec<Txt>,
    pub names: Vec<Txt>,
    pub classes: Vec<(Vec<u8>, i32)>,
    pub cache: Vec<(i32, i32, i32, Vec<(i32, i32)>)>,
}

impl Rep {
    /// Current version, no frames declared, everything empty.
    pub fn new() -> Rep {
        Rep {
            major: 868,
            minor: 32,
            net: 10,
            game: t("TAGame.Replay_Soccar_TA"),
            props: vec![],
            size: None,
            pad: 0,
            levels: vec![],
            keyframes: vec![],
            network: vec![],
            debug: vec![],
            ticks: vec![],
            packages: vec![],
            objects: vec![],
            names: vec![],
            classes: vec![],
            cache: vec![],
        }
    }
    pub fn ver(&self) -> (i32, i32, i32) {
        (self.major, self.minor, if self.has_net() { self.net } else { 0 })
    }
    pub fn has_net(&self) -> bool {
        self.major > 865 && self.minor > 17
    }
    pub fn quirks(&self) -> bool {
        self.major == 0 && self.minor == 0
    }
    pub fn with_ver(mut self, v: (i32, i32, i32)) -> Rep {
        (self.major, self.minor, self.net) = v;
        self
    }
    pub fn prop(mut self, key: &str, p: P) -> Rep {
        self.props.push(k(key, p));
        self
    }
    pub fn objs<S: AsRef<str>>(mut self, o: &[S]) -> Rep {
        self.objects = o.iter().map(|x| t(x.as_ref())).collect();
        self
    }
    pub fn head_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        i32le(&mut o, self.major);
        i32le(&mut o, self.minor);
        if self.has_net() {
            i32le(&mut o, self.net);
        }
        self.game.put(&mut o);
        let st = Style { quirks: self.quirks(), size: self.size, pad: self.pad };
        put_props(&mut o, &self.props, &st);
        o
    }
    pub fn body_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        let texts = |o: &mut Vec<u8>, v: &[Txt]| {
            i32le(o, v.len() as i32);
            v.iter().for_each(|x| x.put(o));
        };
        texts(&mut o, &self.levels);
        i32le(&mut o, self.keyframes.len() as i32);
        for (a, b, c) in &self.keyframes {
            o.extend_from_slice(&a.to_le_bytes());
            i32le(&mut o, *b);
            i32le(&mut o, *c);
        }
        i32le(&mut o, self.network.len() as i32);
        o.extend_from_slice(&self.network);
        i32le(&mut o, self.debug.len() as i32);
        for (a, b, c) in &self.debug {
            i32le(&mut o, *a);
            b.put(&mut o);
            c.put(&mut o);
        }
        i32le(&mut o, self.ticks.len() as i32);
        for (a, b) in &self.ticks {
            a.put(&mut o);
            i32le(&mut o, *b);
        }
        texts(&mut o, &self.packages);
        texts(&mut o, &self.objects);
        texts(&mut o, &self.names);
        i32le(&mut o, self.classes.len() as i32);
        for (a, b) in &self.classes {
            strb(&mut o, a);
            i32le(&mut o, *b);
        }
        i32le(&mut o, self.cache.len() as i32);
        for (a, b, c, d) in &self.cache {
            i32le(&mut o, *a);
            i32le(&mut o, *b);
            i32le(&mut o, *c);
            i32le(&mut o, d.len() as i32);
            for (x, y) in d {
                i32le(&mut o, *x);
                i32le(&mut o, *y);
            }
        }
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        file(&self.head_bytes(), &self.body_bytes())
    }
}

/// Two sections with right sizes and checksums.
pub fn file(h: &[u8], b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(h.len() + b.len() + 16);
    for s in [h, b] {
        i32le(&mut o, s.len() as i32);
        o.extend_from_slice(&crc_ref(s).to_le_bytes());
        o.extend_from_slice(s);
    }
    o
}

/// As `file` with the words that precede the sections given.
pub fn file_with(h: &[u8], hs: i32, hc: u32, b: &[u8], bs: i32, bc: u32) -> Vec<u8> {
    let mut o = Vec::with_capacity(h.len() + b.len() + 16);
    for (s, n, c) in [(h, hs, hc), (b, bs, bc)] {
        i32le(&mut o, n);
        o.extend_from_slice(&c.to_le_bytes());
        o.extend_from_slice(s);
    }
    o
}

/// Writer of network data for one world.
pub struct Net {
    pub w: BitW,
    pub max_ch: u32,
    /// new actors carry a name id
    pub named: bool,
    pub net: i32,
}

impl Net {
    pub fn new(max_ch: u32, ver: (i32, i32, i32), lan: bool) -> Net {
        let named = ver >= (868, 20, 0) || (ver >= (868, 14, 0) && !lan);
        Net { w: BitW::new(), max_ch, named, net: ver.2 }
    }
    pub fn frame(&mut self, time: f32, delta: f32) -> &mut Self {
        self.w.f32(time).f32(delta);
        self
    }
    pub fn end_frame(&mut self) -> &mut Self {
        self.w.bit(false);
        self
    }
    fn id(&mut self, id: u32) {
        self.w.bit(true).bounded(id as u64, self.max_ch as u64);
    }
    pub fn del(&mut self, id: u32) -> &mut Self {
        self.id(id);
        self.w.bit(false);
        self
    }
    /// Up to the trajectory.
    pub fn new_actor(&mut self, id: u32, name: i32, obj: i32) -> &mut Self {
        self.id(id);
        self.w.bit(true).bit(true);
        if self.named {
            self.w.i32(name);
        }
        self.w.bit(false).i32(obj);
        self
    }
    pub fn upd(&mut self, id: u32) -> &mut Self {
        self.id(id);
        self.w.bit(true).bit(false);
        self
    }
    /// Attribute follows.
    pub fn attr(&mut self, stream: u32, largest: i32) -> &mut Self {
        self.w.bit(true).bounded(stream as u64, largest as u64 + 1);
        self
    }
    pub fn end_upd(&mut self) -> &mut Self {
        self.w.bit(false);
        self
    }
    pub fn vec(&mut self, class: u32, x: u64, y: u64, z: u64) -> &mut Self {
        let lim = if self.net >= 7 { 22 } else { 20 };
        self.w.bounded(class as u64, lim);
        for c in [x, y, z] {
            self.w.put(c, class + 2);
        }
        self
    }
    pub fn rot(&mut self, c: [Option<i8>; 3]) -> &mut Self {
        for x in c {
            self.w.bit(x.is_some());
            if let Some(x) = x {
                self.w.u8(x as u8);
            }
        }
        self
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.w.bytes.clone()
    }
}
