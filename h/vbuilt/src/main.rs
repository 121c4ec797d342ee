//! C15: every built-in rule against what it is documented to take.
mod g;
use g::{CONTENT, RULES};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use vkit::json::J;
use vkit::prop::*;
use vkit::stage::*;

const FIXED: usize = 22;
/// The class of a built-in that takes one character; by name, from the documentation.
fn class(name: &str, unicode: bool) -> Option<Box<dyn Fn(char) -> bool>> {
    if unicode {
        return Some(pest::unicode::by_name(&name.to_ascii_uppercase()).expect("a property of that name"));
    }
    let f: fn(char) -> bool = match name {
        "ascii_digit" => |c| matches!(c, '0'..='9'),
        "ascii_nonzero_digit" => |c| matches!(c, '1'..='9'),
        "ascii_bin_digit" => |c| matches!(c, '0' | '1'),
        "ascii_oct_digit" => |c| matches!(c, '0'..='7'),
        "ascii_hex_digit" => |c| matches!(c, '0'..='9' | 'a'..='f' | 'A'..='F'),
        "ascii_alpha_lower" => |c| matches!(c, 'a'..='z'),
        "ascii_alpha_upper" => |c| matches!(c, 'A'..='Z'),
        "ascii_alpha" => |c| matches!(c, 'a'..='z' | 'A'..='Z'),
        "ascii_alphanumeric" => |c| matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9'),
        "ascii" => |c| (c as u32) < 128,
        "any" => |_| true,
        _ => return None,
    };
    Some(Box::new(f))
}
/// The end offset at which a built-in should stop, with a stack that holds `held`.
fn model(name: &str, unicode: bool, t: &str, at: usize, held: &[(usize, usize)]) -> Option<usize> {
    let rest = &t[at..];
    if let Some(f) = class(name, unicode) {
        return rest.chars().next().filter(|c| f(*c)).map(|c| at + c.len_utf8());
    }
    let lit = |s: &str| rest.starts_with(s).then_some(at + s.len());
    let txt = |h: &(usize, usize)| &t[h.0..h.1];
    match name {
        "newline" => lit("\r\n").or(lit("\n")).or(lit("\r")),
        "soi" => (at == 0).then_some(at),
        "eoi" => (at == t.len()).then_some(at),
        "push" => rest.chars().next().map(|c| at + c.len_utf8()),
        "drop" => held.last().map(|_| at),
        "peek" | "pop" => held.last().and_then(|h| lit(txt(h))),
        "peek_all" | "pop_all" => lit(&held.iter().rev().map(txt).collect::<String>()),
        "peek_slice" => (!held.is_empty()).then(|| lit(txt(&held[0]))).flatten(),
        "peek_from" => lit(&held.iter().map(txt).collect::<String>()),
        x => panic!("no model of {x}"),
    }
}
fn one(k: usize, t: &str, at: usize, held: &[(usize, usize)]) -> Option<String> {
    let (name, uni, f) = RULES[k];
    let want = model(name, uni, t, at, held);
    let got = match guarded(|| f(t, at, held)) {
        Ok(x) => x,
        Err(e) => return Some(format!("{name} panics: {e}")),
    };
    let show = |x: Option<usize>| x.map_or("no match".to_string(), |e| format!("a match up to byte {e}"));
    if got != (want, want) {
        return Some(format!(
            "pest::{}{name} at byte {at} of {t:?}{}: expected {}; parsing gives {}, checking {}",
            if uni { "unicode::" } else { "" },
            if held.is_empty() { String::new() } else { format!(", stack {:?}", held.iter().map(|h| &t[h.0..h.1]).collect::<Vec<_>>()) },
            show(want),
            show(got.0),
            show(got.1)
        ));
    }
    if uni && want.is_some() {
        let c = CONTENT[k - FIXED](t, at);
        if c != t[at..].chars().next() {
            return Some(format!("the node of pest::unicode::{name} at byte {at} of {t:?} holds {c:?}"));
        }
    }
    None
}

/// Every scalar value, in texts of a random order, against every rule that takes a character.
fn scalars(o: &Opts, out: &mut Vec<Stage>) {
    let name = "every-scalar";
    let rule = "each rule that takes one character, parsed and checked at each of the scalar values, which come in a random order in texts of 1 to 64; a match counts";
    let mut st = Stage::new(name, rule);
    if let Some(r) = o.get("replay") {
        let j = J::parse(&std::fs::read_to_string(r).unwrap()).unwrap();
        let j = j.get("replay").cloned().unwrap_or(j);
        if j.get("stage").map(|s| s.str()) != Some(name) {
            return;
        }
        let n = |k: &str| j.get(k).unwrap().int() as usize;
        if let Some(d) = one(n("rule"), j.get("text").unwrap().str(), n("at"), &[]) {
            st.violations.push(Violation { sig: "built-in".into(), detail: d, replay: j });
        }
        out.push(st);
        return;
    }
    let rounds = if o.thorough() { 12 } else { 1 };
    let mut matches = 0u64;
    let mut per: Vec<u64> = vec![];
    for round in 0..rounds {
        let mut s = Src::random(hash64(format!("scalars {} {round}", o.seed()).as_bytes()));
        let mut all: Vec<char> = (0..=0x10ffff).filter_map(char::from_u32).collect();
        for i in (1..all.len()).rev() {
            all.swap(i, s.n(i + 1));
        }
        let mut texts = vec![];
        let mut i = 0;
        while i < all.len() {
            let n = (1 + s.n(64)).min(all.len() - i);
            texts.push(all[i..i + n].iter().collect::<String>());
            i += n;
        }
        let ks: Vec<usize> = (0..RULES.len()).filter(|k| class(RULES[*k].0, RULES[*k].1).is_some()).collect();
        let next = AtomicUsize::new(0);
        let found: Mutex<Vec<(usize, usize, usize)>> = Mutex::new(vec![]);
        let hits: Vec<AtomicUsize> = (0..RULES.len()).map(|_| AtomicUsize::new(0)).collect();
        std::thread::scope(|sc| {
            for _ in 0..o.threads() {
                sc.spawn(|| loop {
                    let n = next.fetch_add(1, Relaxed);
                    if n >= ks.len() {
                        break;
                    }
                    let k = ks[n];
                    let (nm, uni, f) = RULES[k];
                    let cl = class(nm, uni).unwrap();
                    let mut hit = 0;
                    'rule: for (ti, t) in texts.iter().enumerate() {
                        for (at, c) in t.char_indices() {
                            let want = cl(c).then_some(at + c.len_utf8());
                            hit += want.is_some() as usize;
                            let bad = match guarded(|| f(t, at, &[])) {
                                Ok(got) => got != (want, want) || uni && want.is_some() && CONTENT[k - FIXED](t, at) != Some(c),
                                Err(_) => true,
                            };
                            if bad {
                                found.lock().unwrap().push((k, ti, at));
                                break 'rule;
                            }
                        }
                    }
                    hits[k].fetch_add(hit, Relaxed);
                });
            }
        });
        st.evals += (all.len() * ks.len()) as u64;
        matches += hits.iter().map(|h| h.load(Relaxed) as u64).sum::<u64>();
        per = ks.iter().map(|k| hits[*k].load(Relaxed) as u64).collect();
        let mut found = found.into_inner().unwrap();
        found.sort();
        if let Some((k, ti, at)) = found.first().copied() {
            // The least text that shows it.
            let t = &texts[ti];
            let c = t[at..].chars().next().unwrap();
            let (mut t, mut at) = (t.clone(), at);
            let forms = [(c.to_string(), 0), (format!("{c}a"), 0), (format!("a{c}"), 1), (t[at..].to_string(), 0), (t[..at + c.len_utf8()].to_string(), at)];
            for (u, b) in forms {
                if one(k, &u, b, &[]).is_some() {
                    (t, at) = (u, b);
                    break;
                }
            }
            let d = one(k, &t, at, &[]).unwrap_or_else(|| format!("{} at byte {at} of {t:?}", RULES[k].0));
            let names: Vec<&str> = found.iter().map(|f| RULES[f.0].0).collect();
            st.violations.push(Violation {
                sig: "built-in".into(),
                detail: format!("{d}\n(U+{:04X}; rules that fail: {})", c as u32, names.join(", ")),
                replay: J::obj([("stage", J::s(name)), ("rule", J::Int(k as i64)), ("text", J::s(&t)), ("at", J::Int(at as i64))]),
            });
            break;
        }
    }
    st.nontrivial = matches;
    st.classes.insert("rules".into(), per.len() as u64);
    st.classes.insert("rules that take something".into(), per.iter().filter(|n| **n > 0).count() as u64);
    st.samples.push(format!("{} rules; e.g. pest::unicode::han takes {} scalar values", per.len(), {
        let ks: Vec<usize> = (0..RULES.len()).filter(|k| class(RULES[*k].0, RULES[*k].1).is_some()).collect();
        per.get(ks.iter().position(|k| RULES[*k].0 == "han").unwrap_or(0)).copied().unwrap_or(0)
    }));
    out.push(st);
}

/// Any built-in at any place of a text, with something on the stack.
fn places(s: &mut Src) -> CaseResult {
    let mut r = Rep { evals: 0, ..Default::default() };
    let mut t = String::new();
    let n = s.n(9);
    for _ in 0..n {
        match s.n(8) {
            0 => t.push('\n'),
            1 => t.push_str("\r\n"),
            2 => t.push('\r'),
            3 => t.push(*s.pick(&['a', 'Z', '0', '9', 'f', 'G', '7', '8', '1', '2', '@', '[', '`', '{', '/', ':'])),
            4 => t.push(*s.pick(&['\u{7f}', '\u{80}', '\u{0}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{85}', '\u{2028}', '\u{b}', '\u{c}', '\u{feff}'])),
            5 => t.push_str(s.pick(&["ab", "aab", "嗨", "é", "😀", "e\u{301}"])),
            6 => {
                // once more what was there
                let cut: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                let a = cut[s.n(cut.len())];
                let u = t[a..].to_string();
                t.push_str(&u);
            }
            _ => t.push(char::from_u32(s.n(0x110000) as u32).unwrap_or('x')),
        }
    }
    let cut: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
    let held: Vec<(usize, usize)> = (0..s.n(4))
        .map(|_| {
            let (a, b) = (cut[s.n(cut.len())], cut[s.n(cut.len())]);
            (a.min(b), a.max(b))
        })
        .collect();
    // Those that take no single character, at every place; one of the others.
    let other = FIXED + s.n(RULES.len() - FIXED);
    for at in &cut {
        for k in (0..FIXED).chain([other]) {
            r.evals += 1;
            if let Some(d) = one(k, &t, *at, &held) {
                return Err(Fail::new("built-in", d));
            }
            if model(RULES[k].0, RULES[k].1, &t, *at, &held).is_some_and(|e| e > *at || RULES[k].0.ends_with('i')) {
                r.keys.push(hash64(format!("{k} {at} {t} {held:?}").as_bytes()));
                r.tag(RULES[k].0);
            }
        }
    }
    if s.chance(1, 50) {
        r.sample = Some(format!("{t:?} with {:?} on the stack", held.iter().map(|h| &t[h.0..h.1]).collect::<Vec<_>>()));
    }
    Ok(r)
}

fn main() {
    let o = Opts::parse();
    install_panic_hook();
    // The list in g.rs is that of the Unicode tables.
    let mut a: Vec<String> = pest::unicode::unicode_property_names().map(|x| x.to_ascii_lowercase()).collect();
    let mut b: Vec<String> = RULES[FIXED..].iter().map(|x| x.0.to_string()).collect();
    a.sort();
    b.sort();
    assert_eq!(a, b);
    let mut out = vec![];
    scalars(&o, &mut out);
    search(
        &o,
        "places",
        "a random text and stack, every built-in but those of Unicode (of which one is drawn) at every place; a match that consumes something (or soi, eoi) counts",
        300_000 * if o.thorough() { 40 } else { 1 },
        &mut out,
        &places,
    );
    o.write(&out);
}
