//! C07: putting an expression in place of a name, on the syntax tree itself.
use crate::{conv, syntax};
use pest3_meta::parser::{parse, ParseExpr, PathArgs};
use vkit::gram::*;
use vkit::layout;
use vkit::prop::*;
use vkit::stage::*;

/// `e` with `new` in place of every plain `name`, and how many there were.
fn put(e: &E, name: &str, new: &E, n: &mut usize) -> E {
    let mut go = |x: &E| Box::new(put(x, name, new, n));
    match e {
        E::Path(p, Args::None) if p.len() == 1 && p[0] == name => {
            *n += 1;
            new.clone()
        }
        E::Path(p, Args::Call(v)) => E::Path(p.clone(), Args::Call(v.iter().map(|x| *go(x)).collect())),
        E::Pos(x) => E::Pos(go(x)),
        E::Neg(x) => E::Neg(go(x)),
        E::Opt(x) => E::Opt(go(x)),
        E::Rep(x, k, t) => E::Rep(go(x), k.clone(), *t),
        E::Seq(a, b, t) => E::Seq(go(a), go(b), *t),
        E::Cho(a, b) => E::Cho(go(a), go(b)),
        _ => e.clone(),
    }
}
/// Every path, those in the arguments of a call before it.
fn paths(e: &E, out: &mut Vec<E>) {
    match e {
        E::Path(_, a) => {
            if let Args::Call(v) = a {
                v.iter().for_each(|x| paths(x, out));
            }
            out.push(e.clone());
        }
        E::Pos(x) | E::Neg(x) | E::Opt(x) | E::Rep(x, ..) => paths(x, out),
        E::Seq(a, b, _) | E::Cho(a, b) => {
            paths(a, out);
            paths(b, out);
        }
        _ => {}
    }
}
/// Fewer different names, so that some are the one looked for.
fn few(e: &mut E, s: &mut Src) {
    match e {
        E::Path(p, a) => {
            if s.chance(1, 2) {
                p[0] = "a".into();
            }
            if s.chance(2, 3) {
                p.truncate(1);
            }
            if s.chance(1, 3) {
                *a = Args::None;
            }
            if let Args::Call(v) = a {
                v.iter_mut().for_each(|x| few(x, s));
            }
        }
        E::Pos(x) | E::Neg(x) | E::Opt(x) | E::Rep(x, ..) => few(x, s),
        E::Seq(a, b, _) | E::Cho(a, b) => {
            few(a, s);
            few(b, s);
        }
        _ => {}
    }
}

pub fn check(s: &mut Src) -> CaseResult {
    let mut m = Module::default();
    for n in ["body", "new"] {
        let d = 2 + s.n(4);
        let mut e = syntax::expr(s, d);
        few(&mut e, s);
        m.rules.push(Rule::new(n, e));
    }
    let name = if s.chance(1, 4) { syntax::name(s) } else { "a".into() };
    let t = layout::module(&m, s).text;
    let show = |x: String| format!("{x}\n--- grammar text\n{t}");
    let got = parse(&t, &conv::root()).map_err(|e| Fail::new("refused", show(format!("a grammar in the documented syntax is refused: {e}"))))?;
    let (body, new) = (conv::norm(&m.rules[0].body), conv::norm(&m.rules[1].body));
    let span = got.rules[0].node.span.clone();
    let as_node = |e: ParseExpr| pest3_meta::parser::ParseNode { expr: e, span: span.clone() };
    // In place of a name.
    let mut n = 0;
    let want = put(&body, &name, &new, &mut n);
    let mut e = got.rules[0].node.expr.clone();
    let any = e.replace(&name, &got.rules[1].node.expr);
    let e = conv::expr(&as_node(e));
    if e != want || any != (n > 0) {
        return Err(Fail::new("replace", show(format!("`new` in place of {name:?} in `body` is (returning {any}) {e:?}\nnot (with {n} places)         {want:?}"))));
    }
    // Every path once, those in arguments first, and each can be replaced by something with paths.
    let mut want = vec![];
    paths(&body, &mut want);
    let mut seen = vec![];
    let mut e = got.rules[0].node.expr.clone();
    e.for_each_path_mut(&mut |x| {
        seen.push(conv::expr(&as_node(x.clone())));
    });
    if seen != want || e != got.rules[0].node.expr {
        return Err(Fail::new("paths", show(format!("the paths of `body` are {seen:?}\nnot {want:?}"))));
    }
    let k = want.len();
    let mut calls = 0;
    e.for_each_path_mut(&mut |x| {
        calls += 1;
        *x = ParseExpr::Path(vec!["f".into()], Some(PathArgs::Call(vec![as_node(x.clone())])));
    });
    let (mut inner, mut all) = (0, vec![]);
    paths(&conv::expr(&as_node(e)), &mut all);
    for x in &all {
        inner += matches!(x, E::Path(p, Args::Call(v)) if p[0] == "f" && p.len() == 1 && v.len() == 1) as usize;
    }
    if calls != k || all.len() != 2 * k || inner < k {
        return Err(Fail::new("paths", show(format!("{k} paths, of which {calls} are visited, and {} after every one is put in an argument", all.len()))));
    }
    let mut r = Rep { evals: 3, ..Default::default() };
    if n > 0 && body.size() > 3 {
        r.keys.push(hash64(t.as_bytes()));
        r.sample = Some(format!("{n} places of {name:?}: {t}"));
    }
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let n = if o.thorough() { 2_000_000 } else { 150_000 };
    search(
        o,
        "replace",
        "an expression put in place of a name in another with ParseExpr::replace, and its paths visited, against the same on the tree the text was printed from; non-trivial: the name is in an expression of more than three nodes",
        n,
        out,
        &check,
    );
}
