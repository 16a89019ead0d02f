//! Serialization to formats other than JSON, and back.

use super::c17::*;
use super::*;
use crate::form::{self, By, How, Text};
use crate::imp;
use crate::shape::{canon, finite, Shape};
use boxcars::Replay;
use serde::de::DeserializeOwned;
use serde::Serialize;

fn ways() -> Vec<How> {
    let mut v = vec![];
    for human in [false, true] {
        for (i, by) in [By::Position, By::Name, By::Backwards].into_iter().enumerate() {
            for (j, text) in [Text::Borrowed, Text::Passing, Text::Owned].into_iter().enumerate() {
                v.push(How { human, by, text, hints: (i + j) % 2 == 0, told: false });
                if by != By::Position {
                    v.push(How { human, by, text, hints: (i + j) % 2 == 1, told: true });
                }
            }
        }
    }
    v
}

/// To a tree, which says what the JSON says, and back in every way.
pub fn trip<T: Shape + Serialize + DeserializeOwned>(cx: &mut Cx, x: &T) {
    let want = canon(x);
    let finite = finite(x);
    cx.outcome(&want);
    let made = imp::call(|| {
        let a = form::write(x, false).map_err(|e| e.0)?;
        let b = form::write(x, true).map_err(|e| e.0)?;
        let mut out = vec![];
        let all = ways();
        let step = if form::size(&a) > 20_000 { 7 } else { 1 };
        for h in all.into_iter().step_by(step) {
            // a float on its way through a longer one need not stay the same if it is no number
            if !h.told || finite {
                out.push((h, form::read::<T>(if h.human { &b } else { &a }, h).map(|y| canon(&y)).map_err(|e| e.0)));
            }
        }
        Ok::<_, String>((a, b, out))
    });
    let (a, b, out) = match made {
        Err(m) => return cx.fail(format!("panicked: {m}")),
        Ok(Err(e)) => return cx.fail(format!("does not serialize: {e}")),
        Ok(Ok(x)) => x,
    };
    let json = x.j();
    for v in [&a, &b] {
        cx.compared += 1;
        if let Err(e) = form::same(&json, v, &mut String::new()) {
            return cx.fail(e);
        }
    }
    for (h, y) in out {
        cx.compared += 1;
        match y {
            Err(e) => return cx.fail(format!("{h:?}: {e}")),
            Ok(y) if y != want => return cx.fail(format!("{h:?}: another value")),
            _ => {}
        }
    }
    // damaged in one place
    let all = if form::size(&a) < 600 && want.iter().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(*b))) % cx.forms == 0 { form::damage(&a) } else { vec![] };
    for (what, v) in all.iter().take(400) {
        let told = what.starts_with(|c: char| c.is_lowercase());
        for h in ways().into_iter().filter(|h| !h.human && h.text == Text::Passing && (!h.told || told)) {
            cx.compared += 1;
            match imp::call(|| form::read::<T>(v, h).is_ok()) {
                Err(m) => return cx.fail(format!("{what}, {h:?}: panicked: {m}")),
                Ok(true) => return cx.fail(format!("{what}, {h:?}: accepted {v:?}")),
                Ok(false) => {}
            }
        }
    }
}

/// A replay says the same in every format.
pub fn says(cx: &mut Cx, r: &Replay) {
    let want = r.j();
    cx.outcome(&canon(r));
    for human in [false, true] {
        cx.compared += 1;
        match imp::call(|| form::write(r, human)) {
            Err(m) => return cx.fail(format!("panicked: {m}")),
            Ok(Err(e)) => return cx.fail(format!("does not serialize: {e}")),
            Ok(Ok(v)) => {
                if let Err(e) = form::same(&want, &v, &mut String::new()) {
                    return cx.fail(e);
                }
            }
        }
    }
}

macro_rules! with_forms {
    ($($n:literal $b:literal $g:path, $every:literal;)*) => {
        vec![$(f($n, $b, |ch, cx| {
            cx.forms = $every;
            $g(ch, cx);
            cx.forms = 0;
        })),*]
    };
}

pub fn c32() -> Vec<Fam> {
    with_forms![
        "attrs" 1 t_attrs, 1;
        "floats" 0 t_floats, 64;
        "longs" 0 t_longs, 1;
        "shapes" 0 t_shapes, 16;
        "repeats" 0 t_repeats, 16;
        "chars" 0 t_chars, 16;
        "ints" 0 t_ints, 1;
        "real" 0 t_real, 1;
        "lists" 0 j_lists, 1;
        "order" 0 j_order, 1;
        "trees" 0 j_trees, 1;
        "values" 0 j_values, 1;
        "head_floats" 0 j_floats, 1;
        "body" 4 j_body, 1;
        "patterns" 0 j_patterns, 1;
        "head" 0 j_head, 1;
        "all_attrs" 1 j_attrs, 1;
        "seeds" 0 j_seeds, 1;
        "replays" 0 j_real, 1;
    ]
}
