//! C21: grammars with one planted fault, and without.
use crate::derive::*;
use crate::given::*;
use vkit::gram::*;
use vkit::prop::*;
use vkit::stage::*;

fn p(path: &[&str], a: Args) -> E {
    E::Path(path.iter().map(|x| x.to_string()).collect(), a)
}
fn word(s: &str) -> E {
    E::Str(s.into())
}
fn call(v: Vec<E>) -> Args {
    Args::Call(v)
}
fn slice(s: &mut Src) -> Args {
    match s.n(4) {
        0 => Args::Slice(Some(0), Some(1)),
        1 => Args::Slice(None, None),
        2 => Args::Slice(Some(-1), None),
        _ => Args::Slice(None, Some(2)),
    }
}
/// Names that are defined in a module: rules with their number of parameters, imports.
struct Known {
    rules: Vec<(String, usize)>,
    files: Vec<String>,
    /// rules of imported files
    foreign: Vec<(Vec<String>, usize)>,
}
fn known(g: &Grammar, mi: usize) -> Known {
    let m = &g.mods[mi];
    let rules = m.rules.iter().filter(|r| !r.is_trivia()).map(|r| (r.name.clone(), r.args.len())).collect();
    let mut files = vec![];
    let mut foreign = vec![];
    for im in &m.imports {
        if let Target::Module(j) = im.target {
            files.push(im.local().to_string());
            for r in g.mods[j].rules.iter().filter(|r| !r.is_trivia()) {
                foreign.push((vec![im.local().to_string(), r.name.clone()], r.args.len()));
            }
        }
    }
    Known { rules, files, foreign }
}
/// An expression that refers to something in a wrong way, for a rule with parameters `params`.
fn bad(s: &mut Src, k: &Known, params: &[String], silent_meta: bool) -> (E, &'static str) {
    let any = |k: &Known| -> Vec<(Vec<String>, usize)> {
        k.rules
            .iter()
            .filter(|(n, _)| !params.contains(n))
            .map(|(n, c)| (vec![n.clone()], *c))
            .chain(k.foreign.iter().cloned())
            .collect()
    };
    let _ = silent_meta;
    let arg = |s: &mut Src| match s.n(3) {
        0 => word("a"),
        1 => p(&["pest", "any"], Args::None),
        _ => E::Opt(Box::new(word("b"))),
    };
    loop {
        match s.n(14) {
            0 => {
                let a = match s.n(3) {
                    0 => Args::None,
                    1 => call(vec![arg(s)]),
                    _ => slice(s),
                };
                return (p(&["nowhere"], a), "undefined rule");
            }
            1 => return (p(&["nowhere", "x"], Args::None), "undefined module"),
            2 => {
                let q: &[&str] = s.pick(&[&["pest", "nope"][..], &["pest", "stack", "nope"], &["pest", "unicode", "nope"], &["pest", "nope", "any"], &["pest", "any", "x"], &["pest", "stack", "peek", "x"]]);
                return (p(q, Args::None), "undefined built-in");
            }
            3 => {
                if k.files.is_empty() {
                    continue;
                }
                let f = s.pick(&k.files).clone();
                let q = if s.chance(1, 2) { vec![f.as_str(), "nowhere"] } else { vec![f.as_str(), "nowhere", "x"] };
                return (p(&q, Args::None), "undefined rule of a module");
            }
            4 => {
                if s.chance(1, 2) || k.files.is_empty() {
                    let q: &[&str] = s.pick(&[&["pest"][..], &["pest", "stack"], &["pest", "unicode"]]);
                    let a = if s.chance(1, 3) { call(vec![arg(s)]) } else { Args::None };
                    return (p(q, a), "module used as a rule");
                }
                let f = s.pick(&k.files).clone();
                if params.contains(&f) {
                    continue;
                }
                return (p(&[f.as_str()], Args::None), "module used as a rule");
            }
            5 | 6 => {
                let v = any(k);
                if v.is_empty() {
                    continue;
                }
                let (q, c) = v[s.n(v.len())].clone();
                let mut n = s.n(4);
                if n == c {
                    n = c + 1;
                }
                let a = if n == 0 && s.chance(1, 2) { Args::None } else { call((0..n).map(|_| arg(s)).collect()) };
                return (E::Path(q, a), "wrong number of arguments");
            }
            7 => {
                let v = any(k);
                if v.is_empty() {
                    continue;
                }
                let (q, _) = v[s.n(v.len())].clone();
                let a = slice(s);
                return (E::Path(q, a), "slice of a rule");
            }
            8 => {
                let v = any(k);
                if v.is_empty() {
                    continue;
                }
                let (mut q, _) = v[s.n(v.len())].clone();
                q.push("x".into());
                return (E::Path(q, Args::None), "rule used as a module");
            }
            9 => {
                let q: &[&str] = s.pick(&[
                    &["pest", "any"][..],
                    &["pest", "soi"],
                    &["pest", "ascii_digit"],
                    &["pest", "newline"],
                    &["pest", "stack", "pop"],
                    &["pest", "stack", "drop"],
                    &["pest", "stack", "peek"],
                    &["pest", "stack", "peek_all"],
                    &["pest", "unicode", "han"],
                ]);
                let a = call((0..1 + s.n(2)).map(|_| arg(s)).collect());
                return (p(q, a), "call of a built-in that takes no arguments");
            }
            10 => {
                let q: &[&str] = s.pick(&[
                    &["pest", "any"][..],
                    &["pest", "eoi"],
                    &["pest", "ascii_digit"],
                    &["pest", "stack", "pop"],
                    &["pest", "stack", "push"],
                    &["pest", "stack", "drop"],
                    &["pest", "stack", "peek_all"],
                    &["pest", "stack", "pop_all"],
                    &["pest", "unicode", "latin"],
                ]);
                let a = slice(s);
                return (p(q, a), "slice of a built-in that has none");
            }
            11 => {
                let a = match s.n(3) {
                    0 => Args::None,
                    1 => call(vec![]),
                    _ => call(vec![arg(s), arg(s)]),
                };
                return (p(&["pest", "stack", "push"], a), "push without its argument");
            }
            _ => {
                if params.is_empty() {
                    continue;
                }
                let q = s.pick(params).clone();
                return match s.n(3) {
                    0 => (p(&[q.as_str()], call(vec![arg(s)])), "call of a parameter"),
                    1 => {
                        let a = slice(s);
                        (p(&[q.as_str()], a), "slice of a parameter")
                    }
                    _ => {
                        // unless something else has this name
                        if k.files.contains(&q) {
                            continue;
                        }
                        (p(&[q.as_str(), "x"], Args::None), "parameter used as a module")
                    }
                };
            }
        }
    }
}
/// Puts `b` at some place of `e`: instead of, before, after, or as another choice to a part.
fn plant(s: &mut Src, e: &E, b: &E) -> E {
    let at = s.n(e.size());
    let how = s.n(5);
    let mut n = 0;
    e.map(&mut |x| {
        n += 1;
        if n - 1 != at {
            return None;
        }
        let (x, b) = (x.clone(), b.clone());
        Some(match how {
            0 => E::seq(b, Triv::None, x),
            1 => E::seq(x, Triv::None, b),
            2 => E::cho(x, b),
            3 => E::seq(E::Neg(Box::new(b)), Triv::None, x),
            _ => E::seq(x, Triv::None, E::Opt(Box::new(b))),
        })
    })
}
fn fault(s: &mut Src, g: &Grammar) -> Option<(Grammar, &'static str)> {
    let r = reachable(g);
    let mi = r[s.n(r.len())];
    let mut g = g.clone();
    let kn = known(&g, mi);
    let m = &mut g.mods[mi];
    match s.weighted(&[12, 4, 4, 2, 2, 3, 1, 2]) {
        0 => {
            let i = s.n(m.rules.len());
            let sm = m.rules[i].silent && !m.rules[i].args.is_empty();
            let (b, what) = bad(s, &kn, &m.rules[i].args.clone(), sm);
            m.rules[i].body = plant(s, &m.rules[i].body.clone(), &b);
            return Some((g, what));
        }
        1 => {
            // a trivia operator without the rule
            let (t, n) = *s.pick(&[(Triv::Opt, "~"), (Triv::Man, "^")]);
            if m.rules.iter().any(|r| r.name == n) {
                return None;
            }
            let i = s.n(m.rules.len());
            if m.rules[i].silent && !m.rules[i].args.is_empty() {
                // Whose trivia it means is left open in an imported module or when it is never called.
                let name = m.rules[i].name.clone();
                let called = m.rules.iter().any(|r| {
                    let mut hit = false;
                    r.body.visit(&mut |e| hit |= matches!(e, E::Path(q, Args::Call(_)) if q.len() == 1 && q[0] == name));
                    hit && (!r.silent || r.args.is_empty()) && !r.args.contains(&name)
                });
                if mi != 0 || !called {
                    return None;
                }
            }
            let b = match s.n(4) {
                0 => E::seq(word("a"), t, word("b")),
                1 => E::rep(word("a"), RepK::Star, t),
                2 => E::rep(word("a"), RepK::Plus, t),
                _ => E::rep(word("a"), RepK::Range(Some(1), Some(3)), t),
            };
            m.rules[i].body = plant(s, &m.rules[i].body.clone(), &b);
            Some((g, "undefined trivia"))
        }
        2 => {
            // a name twice: two rules
            let i = s.n(m.rules.len());
            let mut d = m.rules[i].clone();
            if !d.is_trivia() {
                match s.n(4) {
                    0 => {
                        d.args.clear();
                        d.body = word("z");
                    }
                    1 => {
                        d.args = vec!["q".into()];
                        d.body = E::name("q");
                        d.silent = s.chance(1, 2);
                    }
                    2 => d.silent = !d.silent,
                    _ => {}
                }
            }
            let at = s.n(m.rules.len() + 1);
            m.rules.insert(at, d);
            Some((g, "a rule twice"))
        }
        3 => {
            // a rule with the name of an import
            if m.imports.is_empty() {
                return None;
            }
            let n = m.imports[s.n(m.imports.len())].local().to_string();
            let mut r = Rule::new(&n, word("z"));
            match s.n(3) {
                0 => {}
                1 => r.silent = true,
                _ => {
                    r.args = vec!["q".into()];
                    r.body = E::name("q");
                    r.silent = s.chance(1, 2);
                }
            }
            let at = s.n(m.rules.len() + 1);
            m.rules.insert(at, r);
            Some((g, "a rule with the name of an import"))
        }
        4 => {
            // two imports of one name
            if m.imports.is_empty() {
                return None;
            }
            let mut im = m.imports[s.n(m.imports.len())].clone();
            im.alias = Some(im.local().to_string());
            if s.chance(1, 2) {
                im = Import { path: vec!["pest".into(), "any".into()], file: None, alias: im.alias, target: Target::Builtin };
            }
            let at = s.n(m.imports.len() + 1);
            m.imports.insert(at, im);
            Some((g, "two imports of one name"))
        }
        5 => {
            // two parameters of one name
            let silent = s.chance(1, 2);
            let mut args: Vec<String> = ["q", "w", "q2"][..1 + s.n(3)].iter().map(|x| x.to_string()).collect();
            let d = args[s.n(args.len())].clone();
            let at = s.n(args.len() + 1);
            args.insert(at, d);
            let body = E::chos(args.iter().map(|a| E::name(a)).collect());
            let n = args.len();
            m.rules.push(Rule { doc: vec![], name: "twice_q".into(), args, silent, body });
            if s.chance(1, 2) {
                m.rules.push(Rule::new("calls_q", p(&["twice_q"], call((0..n).map(|_| word("a")).collect()))));
            }
            Some((g, "two parameters of one name"))
        }
        7 => {
            // substitution without an end
            let n = 1 + s.n(3);
            for i in 0..n {
                let next = format!("loop_q{}", (i + 1) % n);
                let again = p(&[next.as_str()], call(vec![if s.chance(1, 2) { E::name("q") } else { E::seq(word("a"), Triv::None, E::name("q")) }]));
                let body = E::cho(E::name("q"), E::seq(word("("), Triv::None, again));
                m.rules.push(Rule { doc: vec![], name: format!("loop_q{i}"), args: vec!["q".into()], silent: true, body });
            }
            m.rules.push(Rule::new("calls_q", p(&["loop_q0"], call(vec![word("a")]))));
            Some((g, "a silent rule with arguments that calls itself"))
        }
        _ => {
            let q: &[&str] = s.pick(&[&["pest", "nope"][..], &["pest", "stack", "nope"], &["pest", "any", "x"], &["pest", "unicode", "Han"]]);
            let at = s.n(m.imports.len() + 1);
            m.imports.insert(at, Import { path: q.iter().map(|x| x.to_string()).collect(), file: None, alias: Some("unknown_q".into()), target: Target::Builtin });
            Some((g, "import of an undefined built-in"))
        }
    }
}
fn bad_attributes(s: &mut Src, v: &mut Given) -> &'static str {
    let flag = *s.pick(&["no_pair", "no_getter", "box_rules_only_if_needed", "no_span", "no_warnings"]);
    let (a, what) = match s.n(9) {
        0 => (format!("#[{flag} = \"true\"]"), "a flag that is no boolean"),
        1 => (format!("#[{flag}(true)]"), "a flag with a list"),
        2 => (format!("#[{flag} = 1]"), "a flag that is no boolean"),
        3 => (format!("#[rules_mod = {}]", s.pick(&["\"\"", "\"a b\"", "\"1x\"", "\"fn\"", "\"a::b\"", "\"a-b\"", "1", "true", "\" \""])), "rules_mod that is no identifier"),
        4 => (s.pick(&["#[rules_mod]", "#[rules_mod(x)]", "#[rules_mod = x]"]).to_string(), "rules_mod that is no string"),
        5 => (s.pick(&["#[grammar]", "#[grammar = 1]", "#[grammar(\"x\")]", "#[grammar = x]"]).to_string(), "grammar that is no string"),
        6 => (s.pick(&["#[grammar_inline]", "#[grammar_inline = 1]", "#[grammar_inline(\"a = {b}\")]", "#[grammar_inline = 'a']"]).to_string(), "grammar_inline that is no string"),
        7 => (s.pick(&["#[grammar = \"nowhere.pest\"]", "#[grammar = \"src\"]", "#[grammar = \"\"]", "#[grammar = \"..\"]"]).to_string(), "a grammar file that does not exist"),
        _ => (s.pick(&["#[grammar_inline = \"a = {\"]", "#[grammar_inline = \"use nowhere a = {\\\"x\\\"}\"]", "#[grammar_inline = \"\"]"]).to_string(), "a grammar that is none"),
    };
    let at = s.n(v.attrs.len() + 1);
    v.attrs.insert(at, a);
    what
}
fn one(s: &mut Src) -> CaseResult {
    let mut r = Rep { evals: 1, ..Default::default() };
    let Some(g) = grammar(s) else {
        return Ok(Rep { discard: true, ..Default::default() });
    };
    let mut v = given(s);
    let (g0, dir) = place(&g, v.source);
    let good = derive(input(attributes(&g0, &dir, &v), &v.attrs));
    let ok = match good {
        Err(e) => Err(Fail::new("refused", format!("{}\nis refused: {e}", show(&g, &v)))),
        Ok(t) => syn::parse2::<syn::File>(t).map(|_| ()).map_err(|e| Fail::new("not Rust", format!("{}\ngives what is no Rust: {e}", show(&g, &v)))),
    };
    unplace(&dir);
    ok?;
    r.tag("well-formed");
    let (gf, what) = match s.weighted(&[10, 1, 1]) {
        1 => (g.clone(), bad_attributes(s, &mut v)),
        2 => (g.clone(), "no grammar"),
        _ => match fault(s, &g) {
            Some(x) => x,
            None => return Ok(r),
        },
    };
    let (gp, dir) = place(&gf, v.source);
    let at = if what == "no grammar" { Default::default() } else { attributes(&gp, &dir, &v) };
    let got = derive(input(at, &v.attrs));
    unplace(&dir);
    r.evals += 1;
    r.tag(what);
    let text = show(&gf, &v);
    match got {
        Ok(_) => return Err(Fail::new(format!("accepted: {what}"), format!("accepted in spite of: {what}\n{text}"))),
        Err(e) if e.trim().is_empty() => return Err(Fail::new("no diagnostic", format!("refused without a word: {what}\n{text}"))),
        Err(e) => {
            r.sample = Some(format!("{what}: {}\n{text}", e.lines().next().unwrap_or("")));
        }
    }
    r.keys.push(hash64(text.as_bytes()));
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let k = if o.thorough() { 30 } else { 1 };
    search(
        o,
        "planted-faults",
        "a generated grammar (up to four modules) that is accepted, and again with one fault planted at a random place; each distinct faulty grammar counts",
        25_000 * k,
        out,
        &one,
    );
}
