//! C11: any text is read as a grammar, or refused, without a panic; and always in the same way.
use crate::{conv, syntax};
use pest::error::InputLocation;
use pest3_meta::parser::{parse, GrammarModule, Import};
use std::sync::Arc;
use vkit::prop::*;
use vkit::stage::*;

const TOKENS: [&str; 74] = [
    "a", "b", "=", "{", "}", "(", ")", "|", "-", "~", "^", "*", "+", "?", "!", "&", "\"x\"", "'a'..'z'", ",", "::", "[", "]", "..", "0", "1", "23", "_", " ", "\n", "use ", "pest", "as",
    "in", "\"", "'", "\\", "i\"X\"", "r\"", "r#\"", "\"#", "#", "//", "///", "//!", "/*", "*/", "/", "\r\n", "\t", "\r", "\\n", "\\x", "\\u{", "é", "嗨", "\u{10ffff}", "\0", "99999999999999999999", "-1", "use pest::x",
    "super", "use m", "a = ", "~ = ", "{1..}", "{..2}", "[..]", "a = { b }\n", "\\", "i", "r", "$", "@", "'",
];
fn soup(s: &mut Src) -> String {
    let mut t = String::new();
    let max = if s.chance(1, 8) { 250 } else { 40 };
    let sep = s.chance(1, 2);
    let mut n = 0;
    while s.more(n, 0, max, 24) {
        n += 1;
        t.push_str(TOKENS[s.n(TOKENS.len())]);
        if sep {
            t.push(' ');
        }
    }
    t
}
fn chars(s: &mut Src) -> String {
    let mut t = String::new();
    let mut n = 0;
    while s.more(n, 0, 60, 12) {
        n += 1;
        t.push(crate::literals::any_char(s));
    }
    t
}
/// A text, changed at some places.
fn damage(s: &mut Src, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let mut n = 0;
    while s.more(n, 1, 6, 1) {
        n += 1;
        let at = s.n(c.len() + 1);
        match s.weighted(&[3, 3, 2, 2, 2, 1, 1, 1]) {
            0 => {
                let e = (at + 1 + s.n(4)).min(c.len());
                if at < e {
                    c.drain(at..e);
                }
            }
            1 => {
                let x = TOKENS[s.n(TOKENS.len())];
                c.splice(at..at, x.chars());
            }
            2 => {
                let x = crate::literals::any_char(s);
                if at < c.len() {
                    c[at] = x;
                }
            }
            3 => {
                // a piece of it again, elsewhere
                let e = (at + 1 + s.n(12)).min(c.len());
                let p: Vec<char> = c[at..e].to_vec();
                let to = s.n(c.len() + 1);
                c.splice(to..to, p);
            }
            4 => c.truncate(at),
            5 => {
                c.drain(..at);
            }
            6 => {
                let o = s.n(c.len().max(1));
                if at < c.len() {
                    c.swap(at, o);
                }
            }
            _ => {
                let e = (at + 1 + s.n(5)).min(c.len());
                let p: Vec<char> = c[at..e].to_vec();
                let k = s.n(12);
                for _ in 0..k {
                    c.splice(at..at, p.iter().copied());
                }
            }
        }
    }
    c.into_iter().collect()
}
/// Deep in one direction.
fn deep(s: &mut Src) -> String {
    let n = 1 + s.n(60);
    let (a, x, b) = *s.pick(&[
        ("(", "b", ")"),
        ("a(", "b", ")"),
        ("/*", "", "*/"),
        ("!", "b", ""),
        ("&", "b", ""),
        ("b | ", "b", ""),
        ("b - (", "b", ")"),
        ("(b | ", "b", ")"),
        ("", "b", "?"),
        ("", "b", "~*"),
        ("", "b", "^{2..3}"),
        ("b::", "b", ""),
        ("", "\"x\"", " - \"x\""),
        ("b~", "b", ""),
        ("(| ", "b", ")"),
        ("b[..]-", "b", ""),
        ("\\\\", "", "\\\""),
        ("", "b", "{1}"),
    ]);
    let m = if s.chance(1, 4) { s.n(60) } else { n };
    format!("a = {{ {}{x}{} }}", a.repeat(n), b.repeat(m))
}
fn describe(m: &Arc<GrammarModule>) -> String {
    let im: Vec<String> = m
        .imports
        .iter()
        .map(|i| match i {
            Import::Builtin(a, p) => format!("{a} {p:?}"),
            Import::File(a, m) => format!("{a} file {}", describe(m)),
        })
        .collect();
    format!("{:?} {:?} {:?} {im:?}", m.rules, m.doc.grammar_doc, m.dependencies)
}
fn verdict(t: &str) -> Result<(bool, String), Fail> {
    let root = conv::root();
    match parse(t, &root) {
        Ok(m) => {
            for r in &m.rules {
                let x = r.node.to_string();
                if x.is_empty() {
                    return Err(Fail::new("empty text", format!("a rule of {t:?} is rendered as nothing")));
                }
                if !(r.span.start <= r.span.end && t.is_char_boundary(r.span.start) && t.is_char_boundary(r.span.end)) {
                    return Err(Fail::new("rule span", format!("a rule of {t:?} has span {:?}", r.span)));
                }
            }
            Ok((true, describe(&m)))
        }
        Err(e) => {
            if e.path().is_none() {
                let (a, b) = match e.location {
                    InputLocation::Pos(p) => (p, p),
                    InputLocation::Span((a, b)) => (a, b),
                };
                if !(a <= b && b <= t.len() && t.is_char_boundary(a) && t.is_char_boundary(b)) {
                    return Err(Fail::new("error position", format!("the error for {t:?} is at {a}..{b}")));
                }
            }
            let x = e.to_string();
            let y = e.renamed_rules(pest3_meta::error::rename_meta_rule).to_string();
            if x.is_empty() || y.is_empty() {
                return Err(Fail::new("empty error", format!("the error for {t:?} is rendered as nothing")));
            }
            Ok((false, format!("{x}\n{y}")))
        }
    }
}
fn check(s: &mut Src, kind: usize) -> CaseResult {
    let t = match kind {
        0 => soup(s),
        1 => {
            let m = syntax::module(s);
            let l = vkit::layout::module(&m, s);
            damage(s, &l.text)
        }
        2 => chars(s),
        _ => {
            let d = deep(s);
            if s.chance(1, 3) {
                damage(s, &d)
            } else {
                d
            }
        }
    };
    let a = guarded(|| verdict(&t)).map_err(|p| Fail::new("panic", format!("reading {t:?} panics: {p}")))??;
    let b = verdict(&t)?;
    if a != b {
        return Err(Fail::new("differs", format!("reading {t:?} twice gives\n{}\nand\n{}", a.1, b.1)));
    }
    let mut r = Rep { evals: 1, ..Default::default() };
    r.tag(if a.0 { "read" } else { "refused" });
    if t.chars().count() > 3 {
        r.keys.push(hash64(t.as_bytes()));
    }
    r.sample = Some(format!("{t:?}"));
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let n = if o.thorough() { 25 } else { 1 };
    let rule = "a text of more than three characters, read twice; each distinct one counts";
    search(o, "token-soup", rule, 900_000 * n, out, &|s| check(s, 0));
    search(o, "damaged-grammars", rule, 700_000 * n, out, &|s| check(s, 1));
    search(o, "characters", rule, 400_000 * n, out, &|s| check(s, 2));
    search(o, "deep", rule, 150_000 * n, out, &|s| check(s, 3));
}
