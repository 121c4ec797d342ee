//! C10: literals and numbers denote exactly what is spelled.
use crate::conv;
use pest::error::InputLocation;
use pest3_meta::parser::parse;
use vkit::gram::*;
use vkit::layout::{Lay, Style};
use vkit::prop::*;
use vkit::stage::*;

pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[4, 3, 3, 3, 2]) {
        0 => char::from(b'a' + s.n(26) as u8),
        1 => char::from(s.n(128) as u8),
        2 => *s.pick(&['"', '\'', '\\', '\n', '\r', '\t', '\0', '#', '{', '}', 'u', 'x', 'n', 'r', '0']),
        3 => {
            let v = *s.pick(&[0x7eu32, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x300, 0x85, 0x2028, 0xfeff]);
            char::from_u32(v).unwrap()
        }
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{e000}'),
    }
}
fn any_text(s: &mut Src) -> String {
    let mut t = String::new();
    let mut n = 0;
    while s.more(n, 0, 14, 5) {
        n += 1;
        t.push(any_char(s));
    }
    t
}
fn one(text: &str) -> Result<Rule, String> {
    match parse(text, &conv::root()) {
        Ok(m) if m.rules.len() == 1 => Ok(conv::rule(&m.rules[0])),
        Ok(m) => Err(format!("{} rules", m.rules.len())),
        Err(e) => Err(e.to_string()),
    }
}
fn where_of<R>(e: &pest::error::Error<R>) -> (usize, usize) {
    match e.location {
        InputLocation::Pos(p) => (p, p),
        InputLocation::Span(x) => x,
    }
}
/// The characters, in any spelling.
fn spelled(s: &mut Src) -> CaseResult {
    let e = match s.weighted(&[6, 3, 4]) {
        0 => E::Str(any_text(s)),
        1 => E::Ins(any_text(s)),
        _ => E::Rng(any_char(s), any_char(s)),
    };
    let mut st = Style::gen(s);
    st.spell = *s.pick(&[0, 30, 60, 100]);
    let mut l = Lay::new(s, st);
    l.out.push_str("a = {");
    l.expr(&e);
    l.tok("}");
    let t = l.out;
    let mut r = Rep { evals: 1, ..Default::default() };
    match one(&t) {
        Ok(g) if g.body == e => {}
        Ok(g) => return Err(Fail::new("literal", format!("{t:?} is read as {:?}, not {e:?}", g.body))),
        Err(m) => return Err(Fail::new("literal refused", format!("{t:?} denotes {e:?} but is refused: {m}"))),
    }
    if t.contains('\\') {
        r.tag("escaped");
    }
    if t.contains("r\"") || t.contains("r#") {
        r.tag("raw");
    }
    if t.contains("\\u{") {
        r.tag("unicode escape");
    }
    if !t.is_ascii() || t.contains('\\') || t.contains('#') {
        r.keys.push(hash64(t.as_bytes()));
    }
    r.sample = Some(t);
    Ok(r)
}
/// One invalid escape or literal: refused, whatever is around it.
fn invalid(s: &mut Src) -> CaseResult {
    fn part(s: &mut Src) -> String {
        let mut t = String::new();
        let mut n = 0;
        while s.more(n, 0, 5, 2) {
            n += 1;
            match s.weighted(&[4, 2, 1]) {
                0 => t.push(char::from(b'g' + s.n(20) as u8)),
                1 => t.push_str(s.pick(&["\\n", "\\\\", "\\\"", "\\x41", "\\u{e9}", "\\'", "\\0", "\\u{00e9}"])),
                _ => t.push(*s.pick(&['é', '嗨', ' ', '\n', '#', '{', '}'])),
            }
        }
        t
    }
    let hex = |s: &mut Src| *s.pick(&['0', '1', '7', '9', 'a', 'f', 'A', 'F']);
    let bad = match s.weighted(&[3, 3, 2, 2, 3, 3, 2, 2, 2, 2]) {
        // Not an escape.
        0 => {
            let mut c = char::from(32 + s.n(95) as u8);
            if "\"\\rnt0'xu".contains(c) {
                c = 'q';
            }
            format!("\\{c}")
        }
        // \x above 7f
        1 => format!("\\x{}{}", s.pick(&['8', '9', 'a', 'f', 'A', 'F', 'c']), hex(s)),
        // \x with less than two digits
        2 => format!("\\x{}{}", hex(s), s.pick(&["g", " ", "嗨", "\\n", "-"])),
        3 => format!("\\x{}", s.pick(&["g0", " 1", "+1", "-1", "é", "{41}"])),
        // surrogates
        4 => format!("\\u{{{}d{}{}{}}}", s.pick(&["", "0", "00"]), s.pick(&['8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'B', 'F']), hex(s), hex(s)),
        // above 10ffff
        5 => {
            let v = 0x110000 + s.below(0x1000000 - 0x110000);
            format!("\\u{{{v:x}}}")
        }
        6 => "\\u{}".into(),
        // seven digits or more
        7 => format!("\\u{{{}{}}}", "0".repeat(1 + s.n(4)), s.pick(&["000041", "00e900", "012345"])),
        8 => format!("\\u{}", s.pick(&["0041", "{41g", "{g}", "{ 41}", "{41 }", "{+41}", "{-1}", "(41)", "{0x41}", "41}"])),
        _ => format!("\\u{{{}}}", s.pick(&["é", "é1", "1_0", "嗨", "4\\n"])),
    };
    // What follows must not complete it.
    let after = s.pick(&["", " ", "g", "-"]).to_string();
    let (p, q) = (part(s), part(s));
    let t = match s.weighted(&[5, 2, 1, 1]) {
        0 => format!("a = {{ \"{p}{bad}{after}{q}\" }}"),
        1 => format!("a = {{ i\"{p}{bad}{after}{q}\" }}"),
        2 => format!("a = {{ '{bad}'..'z' }}"),
        _ => format!("a = {{ 'a'..'{bad}' }}"),
    };
    let mut r = Rep { evals: 1, ..Default::default() };
    match parse(&t, &conv::root()) {
        Err(e) => {
            let _ = e.to_string();
            // It says where: within the literal, that is.
            let at = where_of(&e);
            let (a, b) = (t.find("= { ").unwrap() + 4, t.rfind(" }").unwrap());
            if at.0 < a || at.1 > b || at.0 > at.1 {
                return Err(Fail::new("place of an invalid escape", format!("{t:?} has the invalid escape {bad:?} at {a}..{b}, but the error is at {at:?}: {e}")));
            }
        }
        Ok(m) => {
            return Err(Fail::new("invalid escape accepted", format!("{t:?} has the invalid escape {bad:?} but is read as {}", m.rules[0].node)));
        }
    }
    r.keys.push(hash64(t.as_bytes()));
    r.sample = Some(t);
    Ok(r)
}
fn big(s: &mut Src) -> u128 {
    let around = |s: &mut Src, c: u128| (c + 2).saturating_sub(s.n(5) as u128);
    match s.weighted(&[5, 2, 2, 1, 1, 1, 1]) {
        0 => s.n(12) as u128,
        1 => around(s, u64::MAX as u128),
        2 => around(s, i64::MAX as u128),
        3 => around(s, u32::MAX as u128),
        4 => s.below(u64::MAX) as u128,
        5 => s.below(u64::MAX) as u128 * (1 + s.n(1000) as u128),
        _ => 10u128.pow(s.n(38) as u32),
    }
}
/// Counts and slice indices.
fn numbers(s: &mut Src) -> CaseResult {
    let st = Style { spell: 0, bare: 0, ..Style::gen(s) };
    let mut l = Lay::new(s, st);
    l.out.push_str("a = {");
    let mut ok = true;
    let want;
    if l.s.chance(1, 2) {
        // repetition
        l.tok("b");
        let t = *l.s.pick(&[Triv::None, Triv::Opt, Triv::Man]);
        if t != Triv::None {
            l.tok(t.op());
        }
        l.tok("{");
        let form = l.s.weighted(&[3, 3, 2, 2, 1]);
        let mut num = |l: &mut Lay| {
            let v = big(l.s);
            ok &= v <= usize::MAX as u128;
            let bad = l.s.chance(1, 20);
            if bad {
                // Not a number in this language.
                let x = *l.s.pick(&["0", "+", "-", "00"]);
                l.tok(&format!("{x}{v}"));
                ok = false;
            } else {
                l.tok(&v.to_string());
            }
            v as usize
        };
        let k = match form {
            0 => RepK::Exact(num(&mut l)),
            1 => {
                let a = num(&mut l);
                l.tok("..");
                let b = num(&mut l);
                RepK::Range(Some(a), Some(b))
            }
            2 => {
                let a = num(&mut l);
                l.tok("..");
                RepK::Range(Some(a), None)
            }
            3 => {
                l.tok("..");
                RepK::Range(None, Some(num(&mut l)))
            }
            _ => {
                l.tok("..");
                RepK::Range(None, None)
            }
        };
        l.tok("}");
        // Nothing can be repeated zero times or fewer times than the least.
        ok &= match &k {
            RepK::Exact(n) => *n > 0,
            RepK::Range(Some(a), Some(b)) => a <= b && *b > 0,
            RepK::Range(None, Some(b)) => *b > 0,
            _ => true,
        };
        want = E::rep(E::name("b"), k, t);
    } else {
        l.tok("b");
        l.tok("[");
        let mut idx = |l: &mut Lay| {
            if l.s.chance(1, 3) {
                return None;
            }
            let v = big(l.s);
            let sign = *l.s.pick(&["", "-", "+"]);
            let w = if sign == "-" { -(v.min(1 << 120) as i128) } else { v.min(1 << 120) as i128 };
            ok &= i64::try_from(w).is_ok();
            let lead = if l.s.chance(1, 20) {
                ok = false;
                *l.s.pick(&["0", "00", "--", "+-", "- "])
            } else {
                ""
            };
            l.tok(&if lead == "0" || lead == "00" { format!("{sign}{lead}{v}") } else { format!("{lead}{sign}{v}") });
            Some(w as i64)
        };
        let a = idx(&mut l);
        l.tok("..");
        let b = idx(&mut l);
        l.tok("]");
        // "- 5" is neither; "- " before nothing but digits is a sign apart from its number.
        want = E::Path(vec!["b".into()], Args::Slice(a, b));
    }
    l.tok("}");
    let t = l.out;
    match (one(&t), ok) {
        (Ok(g), true) if g.body == conv::norm(&want) => {}
        (Ok(g), true) => return Err(Fail::new("number", format!("{t:?} is read as {:?}, not {want:?}", g.body))),
        (Ok(g), false) => return Err(Fail::new("number accepted", format!("{t:?} has an invalid number but is read as {:?}", g.body))),
        (Err(e), true) => return Err(Fail::new("number refused", format!("{t:?} denotes {want:?} but is refused: {e}"))),
        (Err(_), false) => {
            if let Err(e) = parse(&t, &conv::root()) {
                let (a, b) = where_of(&e);
                let from = 4 + t[4..].find('b').unwrap_or(0);
                if a > b || a < from || b >= t.len() {
                    return Err(Fail::new("place of an invalid number", format!("{t:?} has an invalid number behind byte {from}, but the error is at {a}..{b}: {e}")));
                }
            }
        }
    }
    let mut r = Rep { evals: 1, ..Default::default() };
    r.tag(if ok { "valid" } else { "invalid" });
    r.keys.push(hash64(t.as_bytes()));
    r.sample = Some(t);
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let n = if o.thorough() { 20 } else { 1 };
    search(
        o,
        "spelled-literals",
        "a random text or pair of characters spelled as a string, raw string, insensitive string or range with random escapes; non-trivial: has an escape, pound or non-ASCII character",
        600_000 * n,
        out,
        &spelled,
    );
    search(
        o,
        "invalid-escapes",
        "a literal with one invalid escape between random parts must be refused; each distinct text counts",
        300_000 * n,
        out,
        &invalid,
    );
    search(
        o,
        "numbers",
        "counts and indices around the limits of their types, in all forms of ranges, with signs and leading zeros; each distinct text counts",
        400_000 * n,
        out,
        &numbers,
    );
}
