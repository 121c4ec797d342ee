//! C12: positions and spans against the naive view of the text.
use crate::text::{self, *};
use pest3_core::span::merge_spans;
use pest3_core::{Position, Span};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use vkit::prop::*;
use vkit::stage::*;

macro_rules! same {
    ($sig:expr, $got:expr, $want:expr, $($ctx:tt)*) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return Err(Fail::new($sig, format!("{}: {:?} instead of {:?}", format!($($ctx)*), g, w)));
        }
    }};
}
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn ends(s: &Span<'_>) -> (usize, usize) {
    (s.start(), s.end())
}
fn check_pos(t: &str, p: usize) -> Result<(), Fail> {
    let bs = boundaries(t);
    let got = Position::new(t, p);
    same!("Position::new", got.is_some(), bs.contains(&p), "Position::new({t:?}, {p}).is_some()");
    let Some(x) = got else { return Ok(()) };
    same!("pos", x.pos(), p, "Position::new({t:?}, {p}).pos()");
    same!("line_col", x.line_col(), text::line_col(t, p), "{t:?} at {p}: line_col");
    let (s, e) = text::line_of(t, p);
    same!("line_of", x.line_of(), &t[s..e], "{t:?} at {p}: line_of");
    let two: pest2::Position = x.into();
    same!("pest2", two.pos(), p, "{t:?} at {p}: pest2::Position");
    let _ = format!("{x:?}");
    if p == 0 {
        same!("from_start", Position::from_start(t), x, "{t:?}: from_start");
    }
    Ok(())
}
/// Everything that can be asked of a span which should be `t[s..e]`.
fn check_span(t: &str, x: &Span<'_>, s: usize, e: usize) -> Result<(), Fail> {
    same!("span", ends(x), (s, e), "{t:?} {s}..{e}: start and end");
    same!("as_str", x.as_str(), &t[s..e], "{t:?} {s}..{e}: as_str");
    same!("get_input", x.get_input(), t, "{t:?} {s}..{e}: get_input");
    same!("start_pos", x.start_pos().pos(), s, "{t:?} {s}..{e}: start_pos");
    same!("end_pos", x.end_pos().pos(), e, "{t:?} {s}..{e}: end_pos");
    let (a, b) = x.split();
    same!("split", (a, b), (x.start_pos(), x.end_pos()), "{t:?} {s}..{e}: split");
    same!("span of split", a.span(&b), *x, "{t:?} {s}..{e}: split, joined again");
    // A line is touched when a position of the span, its end included, is in it.
    let want: Vec<(usize, usize)> = lines(t).into_iter().filter(|&(ls, le)| ls <= e && (s < le)).collect();
    let got: Vec<(usize, usize)> = x.lines_span().map(|l| ends(&l)).collect();
    same!("lines_span", &got, &want, "{t:?} {s}..{e}: lines_span");
    let got: Vec<&str> = x.lines().collect();
    let strs: Vec<&str> = want.iter().map(|&(s, e)| &t[s..e]).collect();
    same!("lines", got, strs, "{t:?} {s}..{e}: lines");
    let mut it = x.lines_span();
    while it.next().is_some() {}
    same!("fused", it.next().is_none(), true, "{t:?} {s}..{e}: lines_span after its end");
    let d = format!("{x:?}");
    if !d.contains(&format!("start: {s}")) || !d.contains(&format!("end: {e}")) {
        return Err(Fail::new("Debug", format!("{t:?} {s}..{e}: Debug is {d}")));
    }
    Ok(())
}
fn all_positions(s: &mut Src) -> CaseResult {
    let t = text(s, 24);
    let mut r = Rep::default();
    for p in (0..t.len() + 3).chain([usize::MAX, usize::MAX - 1, usize::MAX / 2]) {
        check_pos(&t, p)?;
        r.evals += 1;
    }
    let bs = boundaries(&t);
    for &a in &bs {
        for &b in &bs {
            let (x, y) = (Position::new(&t, a).unwrap(), Position::new(&t, b).unwrap());
            same!("eq", x == y, a == b, "{t:?}: position {a} == {b}");
            same!("ne", x != y, a != b, "{t:?}: position {a} != {b}");
            same!("cmp", x.cmp(&y), a.cmp(&b), "{t:?}: position {a} cmp {b}");
            same!("partial_cmp", x.partial_cmp(&y), a.partial_cmp(&b), "{t:?}: position {a} partial_cmp {b}");
            same!("lt", (x < y, x <= y, x > y, x >= y), (a < b, a <= b, a > b, a >= b), "{t:?}: position {a} < {b}");
            same!("hash", h(&x) == h(&y), a == b, "{t:?}: equal hashes of positions {a} and {b}");
            r.evals += 1;
        }
    }
    if lines(&t).len() > 1 {
        r.tag("several lines");
    }
    if t.contains("\r\n") {
        r.tag("CR LF");
    }
    if t.contains('\n') && !t.is_ascii() {
        r.tag("not ASCII, several lines");
        r.keys.push(hash64(t.as_bytes()));
    }
    r.sample = Some(format!("every offset of {t:?}"));
    Ok(r)
}
fn pick_offset(s: &mut Src, t: &str) -> usize {
    match s.weighted(&[12, 3, 1]) {
        0 => *s.pick(&boundaries(t)),
        1 => s.n(t.len() + 3),
        _ => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1, t.len() + 1]),
    }
}
fn bound(s: &mut Src, len: usize) -> Bound<usize> {
    let v = match s.weighted(&[12, 1]) {
        0 => s.n(len + 2),
        _ => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 63]),
    };
    match s.weighted(&[4, 3, 2]) {
        0 => Bound::Included(v),
        1 => Bound::Excluded(v),
        _ => Bound::Unbounded,
    }
}
/// A history of operations, each of which makes a span out of earlier ones.
fn history(s: &mut Src) -> CaseResult {
    let t = match s.n(24) {
        0 => tall(s),
        1 => long(s),
        _ => text(s, 24),
    };
    let other = t.clone() + "x";
    let mut r = Rep::default();
    let mut have: Vec<(Span<'_>, usize, usize)> = vec![];
    let bs = boundaries(&t);
    let mut log = vec![];
    let mut n = 0;
    while s.more(n, 1, 24, 10) {
        n += 1;
        r.evals += 1;
        let k = if have.is_empty() { s.n(2) } else { s.weighted(&[3, 2, 5, 4, 2, 2]) };
        let made: Option<(Span<'_>, usize, usize)> = match k {
            0 => {
                let (a, b) = (pick_offset(s, &t), pick_offset(s, &t));
                let want = bs.contains(&a) && bs.contains(&b) && a <= b;
                let x = Span::new(&t, a, b);
                log.push(format!("new({a}, {b})"));
                same!("Span::new", x.is_some(), want, "Span::new({t:?}, {a}, {b}).is_some()");
                x.map(|x| (x, a, b))
            }
            1 => {
                let (a, b) = (*s.pick(&bs), *s.pick(&bs));
                let (x, y) = (Position::new(&t, a).unwrap(), Position::new(&t, b).unwrap());
                log.push(format!("position {a} . span({b})"));
                match guarded(|| x.span(&y)) {
                    Ok(x) if a <= b => Some((x, a, b)),
                    Err(_) if a > b => {
                        r.tag("wrong order refused");
                        None
                    }
                    Ok(x) => return Err(Fail::new("span", format!("{t:?}: the span from {a} to {b} is {:?}", ends(&x)))),
                    Err(e) => return Err(Fail::new("span", format!("{t:?}: no span from {a} to {b}: {e}"))),
                }
            }
            2 => {
                let (x, a, b) = have[s.n(have.len())];
                let rg = (bound(s, b - a), bound(s, b - a));
                let lo = match rg.0 {
                    Bound::Included(v) => Some(v),
                    Bound::Excluded(v) => v.checked_add(1),
                    Bound::Unbounded => Some(0),
                };
                let hi = match rg.1 {
                    Bound::Included(v) => v.checked_add(1),
                    Bound::Excluded(v) => Some(v),
                    Bound::Unbounded => Some(b - a),
                };
                let want = match (lo, hi) {
                    (Some(lo), Some(hi)) if lo <= hi && hi <= b - a && bs.contains(&(a + lo)) && bs.contains(&(a + hi)) => Some((a + lo, a + hi)),
                    _ => None,
                };
                let g = x.get(rg);
                log.push(format!("{a}..{b} . get({rg:?})"));
                same!("get", g.map(|g| ends(&g)), want, "{t:?}: {a}..{b} get({rg:?})");
                g.map(|g| (g, want.unwrap().0, want.unwrap().1))
            }
            3 => {
                let (x, a, b) = have[s.n(have.len())];
                let (y, c, d) = have[s.n(have.len())];
                // The two have no gap between them.
                let want = (a.max(c) <= b.min(d)).then(|| (a.min(c), b.max(d)));
                let m = merge_spans(&x, &y);
                log.push(format!("merge({a}..{b}, {c}..{d})"));
                same!("merge", m.map(|m| ends(&m)), want, "{t:?}: merge_spans({a}..{b}, {c}..{d})");
                same!("eq", x == y, (a, b) == (c, d), "{t:?}: {a}..{b} == {c}..{d}");
                same!("ne", x != y, (a, b) != (c, d), "{t:?}: {a}..{b} != {c}..{d}");
                same!("hash", h(&x) == h(&y), (a, b) == (c, d), "{t:?}: equal hashes of {a}..{b} and {c}..{d}");
                m.map(|m| (m, want.unwrap().0, want.unwrap().1))
            }
            4 => {
                let (x, a, b) = have[s.n(have.len())];
                let w = lines(&t).into_iter().filter(|&(ls, le)| ls <= b && a < le).collect::<Vec<_>>();
                let x2 = x;
                let got = x2.lines_span().map(|l| ends(&l)).collect::<Vec<_>>();
                same!("lines_span", &got, &w, "{t:?}: lines of {a}..{b}");
                log.push(format!("a line of {a}..{b}"));
                (!got.is_empty()).then(|| got[s.n(got.len())]).map(|(s, e)| (Span::new(&t, s, e).unwrap(), s, e))
            }
            _ => {
                let (x, a, b) = have[s.n(have.len())];
                let y = Position::new(&other, s.n(1)).unwrap();
                log.push(format!("{a}..{b} . start . span(of another text)"));
                if let Ok(z) = guarded(|| x.start_pos().span(&y)) {
                    return Err(Fail::new("span", format!("a span {:?} between positions of different texts", ends(&z))));
                }
                None
            }
        };
        if let Some((x, a, b)) = made {
            check_span(&t, &x, a, b).map_err(|mut f| {
                f.msg += &format!("\nafter {log:?}");
                f
            })?;
            have.push((x, a, b));
        }
    }
    if have.len() > 2 {
        r.keys.push(hash64(format!("{t:?}{log:?}").as_bytes()));
    }
    r.sample = Some(format!("{t:?}: {}", log.join("; ")));
    Ok(r)
}
/// Some offsets of a text of long lines or many.
fn large(s: &mut Src) -> CaseResult {
    let t = if s.chance(1, 2) { tall(s) } else { long(s) };
    let mut r = Rep::default();
    for _ in 0..12 {
        let p = pick_offset(s, &t);
        check_pos(&t, p)?;
        r.evals += 1;
        let q = pick_offset(s, &t);
        if let (Some(x), Some(y)) = (Position::new(&t, p), Position::new(&t, q)) {
            same!("cmp", x.cmp(&y), p.cmp(&q), "{t:?}: position {p} cmp {q}");
            same!("eq", x == y, p == q, "{t:?}: position {p} == {q}");
        }
    }
    r.keys.push(hash64(t.as_bytes()));
    r.sample = Some(format!("offsets of {t:?}"));
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let k = if o.thorough() { 20 } else { 1 };
    search(o, "every-offset", "a text with line feeds and characters of several bytes: every offset and pair of offsets is asked for", 100_000 * k, out, &all_positions);
    search(o, "large-texts", "a text with long lines or many", 40_000 * k, out, &large);
    search(o, "span-histories", "at least three spans were made one out of another", 500_000 * k, out, &history);
}
