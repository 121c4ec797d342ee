//! C09: a grammar, printed in any layout, is read back as that grammar.
use crate::conv;
use pest3_meta::parser::{parse, Import as PImport};
use vkit::gram::*;
use vkit::layout;
use vkit::prop::*;
use vkit::stage::*;

const NAMES: [&str; 28] = [
    "a", "b", "c", "ab", "A", "x1", "_x", "__", "_0", "_9a", "i", "r", "in", "inner", "as", "ascii", "asx", "use", "used", "pest", "super", "Rule", "u", "x", "fn", "o_0", "R2_D2", "z",
];
pub fn name(s: &mut Src) -> String {
    NAMES[s.n(NAMES.len())].to_string()
}
pub fn text(s: &mut Src) -> String {
    layout::odd_text(s, 7)
}
fn chr(s: &mut Src) -> char {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => char::from(b'a' + s.n(26) as u8),
        1 => char::from(s.n(128) as u8),
        2 => *s.pick(&['é', '嗨', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{300}', '\'', '"', '\\']),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}
fn count(s: &mut Src) -> usize {
    match s.weighted(&[8, 1]) {
        0 => s.n(12),
        _ => s.below(u64::MAX) as usize,
    }
}
pub fn expr(s: &mut Src, d: usize) -> E {
    let w: [u32; 12] = if d == 0 { [6, 2, 2, 6, 0, 0, 0, 0, 0, 0, 1, 0] } else { [5, 2, 2, 5, 3, 3, 7, 6, 4, 6, 2, 3] };
    match s.weighted(&w) {
        0 => E::Str(text(s)),
        1 => E::Ins(text(s)),
        2 => E::Rng(chr(s), chr(s)),
        3 | 10 | 11 => {
            let mut p = vec![name(s)];
            while s.more(p.len(), 1, 4, 1) && s.chance(1, 2) {
                p.push(name(s));
            }
            let a = match s.weighted(&[6, if d > 0 { 3 } else { 1 }, 2]) {
                0 => Args::None,
                1 => {
                    let mut v = vec![];
                    while d > 0 && s.more(v.len(), 0, 4, 2) {
                        v.push(expr(s, d - 1));
                    }
                    Args::Call(v)
                }
                _ => {
                    let mut b = |s: &mut Src| s.chance(2, 3).then(|| s.int(-9, 9));
                    Args::Slice(b(s), b(s))
                }
            };
            E::Path(p, a)
        }
        4 => E::Pos(Box::new(expr(s, d - 1))),
        5 => E::Neg(Box::new(expr(s, d - 1))),
        6 => {
            let t = *s.pick(&[Triv::None, Triv::Opt, Triv::Man]);
            E::seq(expr(s, d - 1), t, expr(s, d - 1))
        }
        7 => E::cho(expr(s, d - 1), expr(s, d - 1)),
        8 => E::Opt(Box::new(expr(s, d - 1))),
        _ => {
            let t = *s.pick(&[Triv::None, Triv::Opt, Triv::Man]);
            let k = match s.weighted(&[3, 2, 2, 2, 1, 1, 1]) {
                0 => RepK::Star,
                1 => RepK::Plus,
                2 => RepK::Exact(count(s).max(1)),
                3 => {
                    let (a, b) = (count(s), count(s).max(1));
                    RepK::Range(Some(a.min(b)), Some(b.max(a)))
                }
                4 => RepK::Range(Some(count(s)), None),
                5 => RepK::Range(None, Some(count(s).max(1))),
                _ => RepK::Range(None, None),
            };
            E::rep(expr(s, d - 1), k, t)
        }
    }
}
fn doc(s: &mut Src) -> Vec<String> {
    let mut v = vec![];
    while s.chance(1, 5) && v.len() < 4 {
        v.push(text(s).trim().to_string());
    }
    v
}
pub fn module(s: &mut Src) -> Module {
    let mut m = Module { doc: doc(s), ..Default::default() };
    while s.chance(1, 4) && m.imports.len() < 4 {
        let mut path = vec!["pest".to_string()];
        while s.more(path.len(), 1, 4, 1) {
            path.push(name(s));
        }
        let file = s.chance(1, 6).then(|| text(s));
        let alias = s.chance(1, 3).then(|| name(s));
        m.imports.push(Import { path, file, alias, target: Target::Builtin });
    }
    while s.more(m.rules.len(), 1, 5, 1) {
        let mut r = Rule::new("", E::Str(String::new()));
        r.doc = doc(s);
        r.name = match s.weighted(&[8, 1, 1]) {
            0 => name(s),
            1 => "~".into(),
            _ => "^".into(),
        };
        if !r.is_trivia() && s.chance(1, 4) {
            while s.more(r.args.len(), 1, 4, 1) {
                r.args.push(name(s));
            }
        }
        r.silent = s.chance(1, 4);
        let d = 1 + s.n(4);
        r.body = expr(s, d);
        m.rules.push(r);
    }
    m
}

pub fn check(s: &mut Src) -> CaseResult {
    let m = module(s);
    let laid = layout::module(&m, s);
    let t = &laid.text;
    let show = |x: &str| format!("{x}\n--- grammar text\n{t}\n--- written for\n{}", m.text());
    let got = match parse(t, &conv::root()) {
        Ok(g) => g,
        Err(e) => return Err(Fail::new("refused", show(&format!("a grammar in the documented syntax is refused: {e}")))),
    };
    if got.doc.grammar_doc != m.doc {
        return Err(Fail::new("grammar doc", show(&format!("grammar documentation is {:?}, not {:?}", got.doc.grammar_doc, m.doc))));
    }
    let im: Vec<(String, Vec<String>)> = got
        .imports
        .iter()
        .map(|i| match i {
            PImport::Builtin(a, p) => (a.clone(), p.clone()),
            PImport::File(a, _) => (format!("file {a}"), vec![]),
        })
        .collect();
    let want: Vec<_> = m.imports.iter().map(|i| (i.local().to_string(), i.path.clone())).collect();
    if im != want {
        return Err(Fail::new("imports", show(&format!("imports are {im:?}, not {want:?}"))));
    }
    let rules: Vec<Rule> = got.rules.iter().map(conv::rule).collect();
    if rules.len() != m.rules.len() {
        return Err(Fail::new("rules", show(&format!("{} rules are read, not {}", rules.len(), m.rules.len()))));
    }
    let mut at = 0;
    for (k, (g, w)) in rules.iter().zip(&m.rules).enumerate() {
        if (&g.name, &g.args, g.silent, &g.doc) != (&w.name, &w.args, w.silent, &w.doc) {
            return Err(Fail::new("head", show(&format!("rule {k} is read as {:?} {:?} silent {} doc {:?}", g.name, g.args, g.silent, g.doc))));
        }
        if g.body != conv::norm(&w.body) {
            return Err(Fail::new("body", show(&format!("the body of rule {k} is read as {:?}\nwritten was         {:?}", g.body, w.body))));
        }
        let sp = &got.rules[k].span;
        let (a, b) = laid.rules[k];
        if !(at <= sp.start && sp.start <= a && b <= sp.end && sp.end <= t.len() && t.is_char_boundary(sp.start) && t.is_char_boundary(sp.end)) || sp.path != conv::root() {
            return Err(Fail::new("rule span", show(&format!("rule {k} is at {a}..{b}, but its span is {sp:?} (the rule before ends at {at})"))));
        }
        at = sp.end;
        let mut bad = None;
        conv::leaves(&got.rules[k].node, &mut |n| {
            let Some(x) = t.get(n.span.start..n.span.end) else {
                bad = Some(format!("span {:?} of {n} is not within the text", n.span));
                return;
            };
            if n.span.start < a || n.span.end > sp.end {
                bad = Some(format!("span {:?} of {n} is not within its rule", n.span));
            }
            match parse(&format!("x = {{ {x} }}"), &conv::root()) {
                Ok(m) if m.rules.len() == 1 && conv::expr(&m.rules[0].node) == conv::expr(n) => {}
                _ => bad = Some(format!("span {:?} of {n} covers {x:?}", n.span)),
            }
        });
        if let Some(b) = bad {
            return Err(Fail::new("node span", show(&b)));
        }
    }
    let mut r = Rep { evals: 1, ..Default::default() };
    let size: usize = m.rules.iter().map(|r| r.body.size()).sum();
    if t.contains("/*") {
        r.tag("comments");
    }
    if size >= 10 {
        r.tag("ten or more nodes");
    }
    if !m.imports.is_empty() {
        r.tag("imports");
    }
    if m.rules.iter().any(|r| !r.args.is_empty()) {
        r.tag("parameters");
    }
    if size >= 4 && *t != m.text() {
        r.keys.push(hash64(t.as_bytes()));
    }
    r.sample = Some(t.clone());
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let n = if o.thorough() { 3_000_000 } else { 500_000 };
    search(
        o,
        "layout",
        "a generated syntax tree (any rule heads, imports, documentation, expressions) printed in a random layout and spelling; non-trivial: at least four expression nodes, in a layout other than the plain one",
        n,
        out,
        &check,
    );
}
