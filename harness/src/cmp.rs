//! Comparison of what the code under test did with what the reference says.

use crate::explore::Cx;
use crate::imp::{self, Got};
use crate::refdec::{self, A, E, F, N};
use crate::shape::{canon, Parts, Shape};
use boxcars::*;

/// How much of an error must agree.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lvl {
    /// Both reject
    Any,
    /// Same kind of cause
    Kind,
    /// Same cause with the same values
    Full,
}

/// How much of a success must agree.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part {
    Header,
    Sections,
    Frames,
    All,
}

pub fn part_bytes(r: &Replay, p: Part) -> Vec<u8> {
    let mut o = vec![];
    match p {
        Part::Header => r.header_part(&mut o),
        Part::Sections => return r.sections(),
        Part::Frames => r.network_frames.c(&mut o),
        Part::All => r.c(&mut o),
    }
    o
}

pub fn frame_error(e: &FrameError, f: &F, lvl: Lvl) -> bool {
    let same_kind = match (e, f) {
        (FrameError::NotEnoughDataFor(_), F::Short)
        | (FrameError::TimeOutOfRange { .. }, F::Time(_))
        | (FrameError::DeltaOutOfRange { .. }, F::Delta(_))
        | (FrameError::ObjectIdOutOfRange { .. }, F::Object(_))
        | (FrameError::MissingActor { .. }, F::MissingActor(_))
        | (FrameError::MissingCache { .. }, F::MissingCache(..))
        | (FrameError::MissingAttribute { .. }, F::MissingAttr(..))
        | (FrameError::AttributeError { .. }, F::Attr(..)) => true,
        _ => false,
    };
    if lvl != Lvl::Full || !same_kind {
        return same_kind;
    }
    match (e, f) {
        (FrameError::TimeOutOfRange { time }, F::Time(t)) => time.to_bits() == *t,
        (FrameError::DeltaOutOfRange { delta }, F::Delta(t)) => delta.to_bits() == *t,
        (FrameError::ObjectIdOutOfRange { obj }, F::Object(o)) => obj.0 == *o,
        (FrameError::MissingActor { actor }, F::MissingActor(a)) => actor.0 == *a,
        (FrameError::MissingCache { actor, actor_object }, F::MissingCache(a, o)) => {
            (actor.0, actor_object.0) == (*a, *o)
        }
        (
            FrameError::MissingAttribute { actor, actor_object, attribute_stream },
            F::MissingAttr(a, o, s),
        ) => (actor.0, actor_object.0, attribute_stream.0) == (*a, *o, *s),
        (
            FrameError::AttributeError { actor, actor_object, attribute_stream, error },
            F::Attr(a, o, s, x),
        ) => {
            (actor.0, actor_object.0, attribute_stream.0) == (*a, *o, *s)
                && match (error, x) {
                    (AttributeError::NotEnoughDataFor(_), A::Short) => true,
                    (AttributeError::NotEnoughDataFor(_), A::TextShort(_)) => true,
                    (AttributeError::TooBigString(n), A::TextShort(m)) => n == m,
                    (AttributeError::TooBigString(n), A::TooBig(m)) => n == m,
                    (AttributeError::UnrecognizedRemoteId(n), A::Remote(m)) => n == m,
                    (AttributeError::Unimplemented, A::Unknown) => true,
                    _ => false,
                }
        }
        _ => true,
    }
}

pub fn net_error(e: &NetworkError, n: &N, lvl: Lvl) -> bool {
    match (e, n) {
        (NetworkError::TooManyFrames(a), N::TooManyFrames(b)) => lvl != Lvl::Full || a == b,
        (NetworkError::StreamTooLargeIndex(a, b), N::StreamIdx(c, d)) => {
            lvl != Lvl::Full || (a, b) == (c, d)
        }
        (NetworkError::FrameError(f, _), N::Frame(g)) => frame_error(f, g, lvl),
        _ => false,
    }
}

pub fn error(e: &ParseError, w: &E, lvl: Lvl) -> bool {
    if lvl == Lvl::Any {
        return true;
    }
    // Below Full the sections wrapped around a cause do not matter.
    if lvl == Lvl::Kind {
        if let ParseError::ParseError(_, _, e) = e {
            return error(e, w, lvl);
        }
        if let E::Sec(_, _, w) = w {
            return error(e, w, lvl);
        }
    }
    let full = lvl == Lvl::Full;
    match (e, w) {
        (ParseError::ParseError(s, o, e), E::Sec(t, p, w)) => {
            s == t && *o == *p as i32 && error(e, w, lvl)
        }
        (ParseError::Utf8Error(_), E::Utf8) => true,
        (ParseError::TextTooLarge(a), E::TextTooLarge(b)) => !full || a == b,
        (ParseError::InsufficientData(a, b), E::Short { need, left }) => {
            !full || (*a, *b) == (*need as i32, *left as i32)
        }
        (ParseError::UnexpectedProperty(a), E::Unexpected(b)) => !full || a == b,
        (ParseError::UnexpectedProperty(_), E::TooDeep) => true,
        (ParseError::CrcMismatch(a, b), E::Crc(c, d)) => (a, b) == (c, d),
        (ParseError::CorruptReplay(s, e), E::Corrupt(t, w)) => s == t && error(e, w, lvl),
        (ParseError::ListTooLarge(a), E::ListTooLarge(b)) => !full || *a as u64 == *b,
        (ParseError::NetworkError(e), E::Net(n)) => net_error(e, n, lvl),
        _ => false,
    }
}

fn short<T: std::fmt::Debug>(x: T) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 300 {
        let mut i = 300;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str("...");
    }
    s
}

/// First difference of two replays, for people.
pub fn diff(got: &Replay, want: &Replay) -> String {
    macro_rules! f { ($($n:ident)*) => { $(
        if format!("{:?}", got.$n) != format!("{:?}", want.$n) {
            return format!("{}: got {}, want {}", stringify!($n), short(&got.$n), short(&want.$n));
        }
    )* } }
    f!(header_size header_crc major_version minor_version net_version game_type);
    f!(content_size content_crc levels keyframes debug_info tick_marks packages objects names);
    f!(class_indices net_cache);
    if got.properties.len() != want.properties.len() {
        return format!("{} properties, want {}", got.properties.len(), want.properties.len());
    }
    for (i, (a, b)) in got.properties.iter().zip(&want.properties).enumerate() {
        if format!("{a:?}") != format!("{b:?}") {
            return format!("property {i}: got {}, want {}", short(a), short(b));
        }
    }
    match (&got.network_frames, &want.network_frames) {
        (Some(a), Some(b)) => frames_diff(&a.frames, &b.frames),
        (a, b) if a.is_some() != b.is_some() => {
            format!("frames present: got {}, want {}", a.is_some(), b.is_some())
        }
        _ => "values differ in bits only".into(),
    }
}

pub fn frames_diff(a: &[Frame], b: &[Frame]) -> String {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if canon(x) == canon(y) {
            continue;
        }
        for (u, v) in x.updated_actors.iter().zip(&y.updated_actors) {
            if canon(u) != canon(v) {
                return format!("frame {i}: got {}, want {}", short(u), short(v));
            }
        }
        for (u, v) in x.new_actors.iter().zip(&y.new_actors) {
            if canon(u) != canon(v) {
                return format!("frame {i}: got {}, want {}", short(u), short(v));
            }
        }
        return format!("frame {i}: got {}, want {}", short(x), short(y));
    }
    format!("{} frames, want {}", a.len(), b.len())
}

pub type Want = Result<Replay, E>;

/// Compares the answer of the code with the reference's and records the outcome.
pub fn judge(cx: &mut Cx, got: &Got, want: &Want, part: Part, lvl: Lvl) {
    cx.compared += 1;
    match want {
        Ok(_) => cx.accepted += 1,
        Err(_) => cx.rejected += 1,
    }
    match (got, want) {
        (Got::Panic(m), _) => cx.fail(format!("panicked: {m}")),
        (Got::Ok(g), Ok(w)) => {
            let (a, b) = (part_bytes(g, part), part_bytes(w, part));
            cx.outcome(&a);
            if a != b {
                cx.fail(diff(g, w));
            }
        }
        (Got::Err(e), Err(w)) => {
            cx.outcome(format!("{w:?}").as_bytes());
            if !error(e, w, lvl) {
                cx.fail(format!("got error {}, want {}", short(e), short(w)));
            }
        }
        (Got::Ok(_), Err(w)) => cx.fail(format!("accepted, but {}", short(w))),
        (Got::Err(e), Ok(_)) => cx.fail(format!("rejected with {}", short(e))),
    }
}

/// Parses and compares under one option pair.
pub fn check(cx: &mut Cx, d: &[u8], crc: CrcCheck, net: NetworkParse, part: Part, lvl: Lvl) -> (Got, Want) {
    refdec::unspecified(false);
    let want = refdec::parse(d, crc, net);
    let got = imp::parse(d, crc, net);
    if refdec::was_unspecified() {
        cx.skipped += 1;
        if let Got::Panic(m) = &got {
            cx.fail(format!("panicked: {m}"));
        }
        return (got, want);
    }
    judge(cx, &got, &want, part, lvl);
    if let (Err(e), true) = (&want, cx.want_trace) {
        let s = short(e);
        cx.say(|| format!("reference rejects: {s}"));
    }
    (got, want)
}

/// The usual comparison: checksums off, network data required.
pub fn net_check(cx: &mut Cx, d: &[u8], lvl: Lvl) -> Want {
    check(cx, d, CrcCheck::Never, NetworkParse::Always, Part::Frames, lvl).1
}

/// The same for an input that is well formed: the reference, too, has to accept it.
pub fn net_valid(cx: &mut Cx, d: &[u8]) -> bool {
    if let Err(e) = net_check(cx, d, Lvl::Any) {
        // values the generators include on purpose
        if matches!(e, E::Net(N::Frame(F::Attr(_, _, _, A::Remote(_) | A::TooBig(_))))) {
            return false;
        }
        cx.fail(format!("the input was meant to be well formed: {}", short(e)));
        return false;
    }
    true
}

/// The same where nothing but zeros follows the last frame.
pub fn net_exact(cx: &mut Cx, d: &[u8]) {
    if net_valid(cx, d) && refdec::ones_left() > 0 {
        cx.fail("the frames were meant to fill the data");
    }
}
