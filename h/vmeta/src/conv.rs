//! pest3's syntax tree as the checks' own.
use pest3_meta::parser::*;
use std::path::PathBuf;
use vkit::gram::{Args, RepK, Rule, Triv, E};

pub fn root() -> PathBuf {
    PathBuf::from("/nowhere/in/particular/grammar.pest")
}
fn triv(t: &Trivia) -> Triv {
    match t {
        Trivia::None => Triv::None,
        Trivia::Optional => Triv::Opt,
        Trivia::Mandatory => Triv::Man,
    }
}
fn rep(n: &ParseNode, k: RepK) -> E {
    match &n.expr {
        ParseExpr::Separated(x, t) => E::Rep(Box::new(expr(x)), k, triv(t)),
        _ => E::Rep(Box::new(expr(n)), k, Triv::None),
    }
}
pub fn expr(n: &ParseNode) -> E {
    match &n.expr {
        ParseExpr::Str(s) => E::Str(s.clone()),
        ParseExpr::Insens(s) => E::Ins(s.clone()),
        ParseExpr::Range(a, b) => E::Rng(*a, *b),
        ParseExpr::Path(p, a) => E::Path(
            p.clone(),
            match a {
                None => Args::None,
                Some(PathArgs::Call(v)) => Args::Call(v.iter().map(expr).collect()),
                Some(PathArgs::Slice(r)) => Args::Slice(r.start.map(|x| x as i64), r.end.map(|x| x as i64)),
            },
        ),
        ParseExpr::PosPred(x) => E::Pos(Box::new(expr(x))),
        ParseExpr::NegPred(x) => E::Neg(Box::new(expr(x))),
        ParseExpr::Seq(a, b, t) => E::Seq(Box::new(expr(a)), Box::new(expr(b)), triv(t)),
        ParseExpr::Choice(a, b) => E::Cho(Box::new(expr(a)), Box::new(expr(b))),
        ParseExpr::Opt(x) => E::Opt(Box::new(expr(x))),
        ParseExpr::Rep(x) => rep(x, RepK::Star),
        ParseExpr::RepOnce(x) => rep(x, RepK::Plus),
        ParseExpr::RepRange(x, r) => rep(
            x,
            match (r.start, r.end) {
                (Some(a), Some(b)) if a == b => RepK::Exact(a),
                (a, b) => RepK::Range(a, b),
            },
        ),
        // Only below a repetition.
        ParseExpr::Separated(x, t) => E::Rep(Box::new(expr(x)), RepK::Exact(usize::MAX), triv(t)),
    }
}
pub fn rule(r: &ParseRule) -> Rule {
    Rule { doc: r.doc.clone(), name: r.name.clone(), args: r.args.clone(), silent: r.silent, body: expr(&r.node) }
}
/// Equal ways of writing a repetition.
pub fn norm(e: &E) -> E {
    match e {
        E::Rep(x, RepK::Range(Some(a), Some(b)), t) if a == b => E::Rep(Box::new(norm(x)), RepK::Exact(*a), *t),
        E::Rep(x, k, t) => E::Rep(Box::new(norm(x)), k.clone(), *t),
        E::Pos(x) => E::Pos(Box::new(norm(x))),
        E::Neg(x) => E::Neg(Box::new(norm(x))),
        E::Opt(x) => E::Opt(Box::new(norm(x))),
        E::Seq(a, b, t) => E::Seq(Box::new(norm(a)), Box::new(norm(b)), *t),
        E::Cho(a, b) => E::Cho(Box::new(norm(a)), Box::new(norm(b))),
        E::Path(p, Args::Call(v)) => E::Path(p.clone(), Args::Call(v.iter().map(norm).collect())),
        _ => e.clone(),
    }
}
/// Leaves of pest3's tree, with their places.
pub fn leaves<'a>(n: &'a ParseNode, f: &mut dyn FnMut(&'a ParseNode)) {
    match &n.expr {
        ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(..) => f(n),
        ParseExpr::Path(_, a) => {
            f(n);
            if let Some(PathArgs::Call(v)) = a {
                for x in v {
                    leaves(x, f);
                }
            }
        }
        ParseExpr::PosPred(x)
        | ParseExpr::NegPred(x)
        | ParseExpr::Opt(x)
        | ParseExpr::Rep(x)
        | ParseExpr::RepOnce(x)
        | ParseExpr::RepRange(x, _)
        | ParseExpr::Separated(x, _) => leaves(x, f),
        ParseExpr::Seq(a, b, _) | ParseExpr::Choice(a, b) => {
            leaves(a, f);
            leaves(b, f)
        }
    }
}
