//! Abstract grammars as JSON (replay files).
use crate::gram::*;
use crate::json::J;

fn strs(v: &[String]) -> J {
    J::Arr(v.iter().map(J::s).collect())
}
fn unstrs(j: &J) -> Vec<String> {
    j.arr().iter().map(|x| x.str().to_string()).collect()
}
fn opt(x: Option<i64>) -> J {
    x.map_or(J::Null, J::Int)
}
fn unopt(j: &J) -> Option<i64> {
    match j {
        J::Int(i) => Some(*i),
        _ => None,
    }
}
fn a(v: Vec<J>) -> J {
    J::Arr(v)
}
fn t(x: Triv) -> J {
    J::s(x.op())
}
fn unt(j: &J) -> Triv {
    match j.str() {
        "~" => Triv::Opt,
        "^" => Triv::Man,
        _ => Triv::None,
    }
}
fn big(n: usize) -> i64 {
    n.min(i64::MAX as usize) as i64
}
pub fn expr(e: &E) -> J {
    match e {
        E::Str(s) => a(vec![J::s("str"), J::s(s)]),
        E::Ins(s) => a(vec![J::s("ins"), J::s(s)]),
        E::Rng(x, y) => a(vec![J::s("rng"), J::Int(*x as i64), J::Int(*y as i64)]),
        E::Path(p, g) => a(vec![
            J::s("path"),
            strs(p),
            match g {
                Args::None => J::Null,
                Args::Call(v) => a(v.iter().map(expr).collect()),
                Args::Slice(x, y) => J::obj([("from", opt(*x)), ("to", opt(*y))]),
            },
        ]),
        E::Pos(x) => a(vec![J::s("pos"), expr(x)]),
        E::Neg(x) => a(vec![J::s("neg"), expr(x)]),
        E::Opt(x) => a(vec![J::s("opt"), expr(x)]),
        E::Seq(x, y, k) => a(vec![J::s("seq"), expr(x), expr(y), t(*k)]),
        E::Cho(x, y) => a(vec![J::s("cho"), expr(x), expr(y)]),
        E::Rep(x, k, tr) => a(vec![
            J::s("rep"),
            expr(x),
            match k {
                RepK::Star => J::s("*"),
                RepK::Plus => J::s("+"),
                RepK::Exact(n) => J::Int(big(*n)),
                RepK::Range(x, y) => a(vec![opt(x.map(big)), opt(y.map(big))]),
            },
            t(*tr),
        ]),
    }
}
pub fn unexpr(j: &J) -> E {
    let v = j.arr();
    let b = |i: usize| Box::new(unexpr(&v[i]));
    match v[0].str() {
        "str" => E::Str(v[1].str().into()),
        "ins" => E::Ins(v[1].str().into()),
        "rng" => E::Rng(char::from_u32(v[1].int() as u32).unwrap(), char::from_u32(v[2].int() as u32).unwrap()),
        "path" => E::Path(
            unstrs(&v[1]),
            match &v[2] {
                J::Null => Args::None,
                J::Arr(x) => Args::Call(x.iter().map(unexpr).collect()),
                o => Args::Slice(unopt(o.get("from").unwrap()), unopt(o.get("to").unwrap())),
            },
        ),
        "pos" => E::Pos(b(1)),
        "neg" => E::Neg(b(1)),
        "opt" => E::Opt(b(1)),
        "seq" => E::Seq(b(1), b(2), unt(&v[3])),
        "cho" => E::Cho(b(1), b(2)),
        _ => E::Rep(
            b(1),
            match &v[2] {
                J::Str(s) if s == "*" => RepK::Star,
                J::Str(_) => RepK::Plus,
                J::Int(n) => RepK::Exact(*n as usize),
                x => RepK::Range(unopt(&x.arr()[0]).map(|x| x as usize), unopt(&x.arr()[1]).map(|x| x as usize)),
            },
            unt(&v[3]),
        ),
    }
}
pub fn grammar(g: &Grammar) -> J {
    a(g.mods
        .iter()
        .map(|m| {
            J::obj([
                ("file", strs(&m.file)),
                ("doc", strs(&m.doc)),
                (
                    "imports",
                    a(m.imports
                        .iter()
                        .map(|i| {
                            J::obj([
                                ("path", strs(&i.path)),
                                ("file", i.file.as_ref().map_or(J::Null, J::s)),
                                ("alias", i.alias.as_ref().map_or(J::Null, J::s)),
                                (
                                    "target",
                                    match i.target {
                                        Target::Builtin => J::Null,
                                        Target::Module(k) => J::Int(k as i64),
                                    },
                                ),
                            ])
                        })
                        .collect()),
                ),
                (
                    "rules",
                    a(m.rules
                        .iter()
                        .map(|r| {
                            J::obj([
                                ("doc", strs(&r.doc)),
                                ("name", J::s(&r.name)),
                                ("args", strs(&r.args)),
                                ("silent", J::Bool(r.silent)),
                                ("body", expr(&r.body)),
                            ])
                        })
                        .collect()),
                ),
            ])
        })
        .collect())
}
pub fn ungrammar(j: &J) -> Grammar {
    let os = |x: &J| match x {
        J::Str(s) => Some(s.clone()),
        _ => None,
    };
    Grammar {
        mods: j
            .arr()
            .iter()
            .map(|m| Module {
                file: m.get("file").map(unstrs).unwrap_or_default(),
                doc: unstrs(m.get("doc").unwrap()),
                imports: m
                    .get("imports")
                    .unwrap()
                    .arr()
                    .iter()
                    .map(|i| Import {
                        path: unstrs(i.get("path").unwrap()),
                        file: os(i.get("file").unwrap()),
                        alias: os(i.get("alias").unwrap()),
                        target: match i.get("target").unwrap() {
                            J::Int(k) => Target::Module(*k as usize),
                            _ => Target::Builtin,
                        },
                    })
                    .collect(),
                rules: m
                    .get("rules")
                    .unwrap()
                    .arr()
                    .iter()
                    .map(|r| Rule {
                        doc: unstrs(r.get("doc").unwrap()),
                        name: r.get("name").unwrap().str().into(),
                        args: unstrs(r.get("args").unwrap()),
                        silent: r.get("silent") == Some(&J::Bool(true)),
                        body: unexpr(r.get("body").unwrap()),
                    })
                    .collect(),
            })
            .collect(),
    }
}
