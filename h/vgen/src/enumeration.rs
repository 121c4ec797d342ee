//! C20: the enumeration of the rules in the emitted code.
use crate::derive::*;
use crate::given::*;
use syn::{Attribute, Expr, Fields, Item, Lit, Meta, Type, Visibility};
use vkit::gram::*;
use vkit::prop::*;
use vkit::stage::*;

/// As Rust reads it: lines, in however many attributes.
fn docs(a: &[Attribute]) -> Vec<String> {
    let v: Vec<String> = a
        .iter()
        .filter_map(|a| match &a.meta {
            Meta::NameValue(n) if n.path.is_ident("doc") => match &n.value {
                Expr::Lit(l) => match &l.lit {
                    Lit::Str(s) => Some(s.value()),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        })
        .collect();
    v.iter().flat_map(|s| s.split('\n').map(|s| s.to_string())).collect()
}
fn plain(i: &syn::Ident) -> String {
    i.to_string().trim_start_matches("r#").to_string()
}
fn path(t: &Type) -> Vec<String> {
    match t {
        Type::Path(p) => p.path.segments.iter().map(|s| plain(&s.ident)).collect(),
        _ => vec![],
    }
}
fn check(items: &[Item], mi: usize, g: &Grammar, rm: &str, at: &str) -> Result<usize, String> {
    let m = &g.mods[mi];
    let es: Vec<_> = items.iter().filter_map(|i| if let Item::Enum(e) = i { (e.ident == "Rule").then_some(e) } else { None }).collect();
    let [e] = es[..] else { return Err(format!("{at}: {} enumerations Rule", es.len())) };
    if !matches!(e.vis, Visibility::Public(_)) {
        return Err(format!("{at}: the enumeration is not public"));
    }
    if docs(&e.attrs) != m.doc {
        return Err(format!("{at}: documented by {:?}, not {:?}", docs(&e.attrs), m.doc));
    }
    // name, documentation, path of the wrapped enumeration
    let mut want: Vec<(String, Vec<String>, Vec<String>)> = vec![("EOI".into(), vec![], vec![])];
    for r in &m.rules {
        if !r.is_trivia() && !(r.silent && !r.args.is_empty()) {
            want.push((r.name.clone(), r.doc.clone(), vec![]));
        }
    }
    for im in &m.imports {
        if im.target != Target::Builtin {
            let n = im.local().to_string();
            want.push((n.clone(), vec![], vec![rm.to_string(), n, "Rule".into()]));
        }
    }
    let got: Vec<(String, Vec<String>, Vec<String>)> = e
        .variants
        .iter()
        .map(|v| {
            let w = match &v.fields {
                Fields::Unit => vec![],
                Fields::Unnamed(f) if f.unnamed.len() == 1 => path(&f.unnamed[0].ty),
                _ => vec!["?".into()],
            };
            let w = if w.first().map(|x| x.as_str()) == Some("self") { w[1..].to_vec() } else { w };
            (plain(&v.ident), docs(&v.attrs), w)
        })
        .collect();
    let (mut gd, mut wd) = (got.clone(), want.clone());
    if gd.first().is_some_and(|x| x.0 == "EOI") {
        // Nothing is said about documentation of the end-of-input variant.
        gd[0].1.clear();
        wd[0].1.clear();
    }
    // Nor of wrapping ones.
    for (x, y) in gd.iter_mut().zip(&wd) {
        if !y.2.is_empty() {
            x.1.clear();
        }
    }
    if gd != wd {
        return Err(format!("{at}: the variants are\n{gd:?}\nnot\n{wd:?}"));
    }
    let mut n = got.len();
    let files: Vec<(&Import, usize)> = m.imports.iter().filter_map(|i| if let Target::Module(j) = i.target { Some((i, j)) } else { None }).collect();
    if !files.is_empty() {
        let module = |items: &[Item], name: &str| -> Result<Vec<Item>, String> {
            let ms: Vec<_> = items.iter().filter_map(|i| if let Item::Mod(m) = i { (plain(&m.ident) == name).then_some(m) } else { None }).collect();
            match ms[..] {
                [m] => Ok(m.content.clone().map(|c| c.1).unwrap_or_default()),
                _ => Err(format!("{at}: {} modules {name}", ms.len())),
            }
        };
        let types = module(items, rm)?;
        for (im, j) in files {
            let sub = module(&types, im.local())?;
            n += check(&sub, j, g, rm, &format!("{at}::{}", im.local()))?;
        }
    }
    Ok(n)
}
fn one(s: &mut Src) -> CaseResult {
    let Some(g) = grammar(s) else {
        return Ok(Rep { discard: true, ..Default::default() });
    };
    let v = given(s);
    let (g, dir) = place(&g, v.source);
    let got = derive(input(attributes(&g, &dir, &v), &v.attrs));
    unplace(&dir);
    let t = got.map_err(|e| Fail::new("refused", format!("{}\nis refused: {e}", show(&g, &v))))?;
    let f = syn::parse2::<syn::File>(t).map_err(|e| Fail::new("not Rust", format!("{}\ngives what is no Rust: {e}", show(&g, &v))))?;
    let n = check(&f.items, 0, &g, &rules_mod(&v), "root").map_err(|e| Fail::new("enumeration", format!("{e}\n{}", show(&g, &v))))?;
    let mut r = Rep { evals: n as u64, ..Default::default() };
    let text = show(&g, &v);
    if text.contains("use dd") || text.contains("use d") {
        r.tag("imports");
    }
    if text.contains("///") || text.contains("//!") {
        r.tag("documented");
    }
    if n > 3 {
        r.keys.push(hash64(text.as_bytes()));
    }
    r.sample = Some(text);
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let k = if o.thorough() { 30 } else { 1 };
    search(o, "emitted-enumeration", "grammars (up to four modules) with more than three variants in all", 20_000 * k, out, &one);
}
