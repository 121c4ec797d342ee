//! C19: the emitted code names every file the grammar was read from.
use crate::derive::*;
use crate::given::*;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeSet;
use std::path::PathBuf;
use vkit::prop::*;
use vkit::stage::*;

/// The arguments of `include_str!`.
fn includes(t: TokenStream, out: &mut Vec<PathBuf>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for (i, x) in v.iter().enumerate() {
        let TokenTree::Group(g) = x else { continue };
        if i > 1 && matches!(&v[i - 2], TokenTree::Ident(n) if n == "include_str") {
            if let Ok(l) = syn::parse2::<syn::LitStr>(g.stream()) {
                out.push(PathBuf::from(l.value()));
                continue;
            }
        }
        includes(g.stream(), out);
    }
}
fn one(s: &mut Src) -> CaseResult {
    let Some(g) = grammar(s) else {
        return Ok(Rep { discard: true, ..Default::default() });
    };
    let v = given(s);
    let (g, dir) = place(&g, v.source);
    let got = derive(input(attributes(&g, &dir, &v), &v.attrs));
    let mut files = vec![];
    if let Ok(t) = &got {
        includes(t.clone(), &mut files);
    }
    let have: BTreeSet<PathBuf> = files.iter().map(|p| p.canonicalize().unwrap_or_else(|_| p.clone())).collect();
    let pre = if v.source == 3 { "src/" } else { "" };
    let mut want: BTreeSet<PathBuf> =
        reachable(&g).into_iter().filter(|k| *k > 0).map(|k| base().join(format!("{pre}{dir}")).join(g.mods[k].rel(k))).collect();
    if matches!(v.source, 1 | 3 | 4) {
        want.insert(base().join(format!("{pre}{dir}{}", v.end)));
    }
    let n = want.len();
    let want: BTreeSet<PathBuf> = want.iter().map(|p| p.canonicalize().unwrap_or_else(|_| p.clone())).collect();
    unplace(&dir);
    got.map_err(|e| Fail::new("refused", format!("{}\nis refused: {e}", show(&g, &v))))?;
    if have != want {
        let m = format!("the emitted code includes\n{have:?}\nbut the grammar is read from\n{want:?}\n{}", show(&g, &v));
        return Err(Fail::new("included files", m.replace(&*base().to_string_lossy(), "BASE")));
    }
    let mut r = Rep { evals: 1, ..Default::default() };
    r.tag(match v.source {
        0 => "inline",
        1 | 3 => "a file",
        _ => "two attributes",
    });
    let text = show(&g, &v);
    if n > 1 {
        r.keys.push(hash64(text.as_bytes()));
        r.sample = Some(text);
    }
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let k = if o.thorough() { 30 } else { 1 };
    search(o, "included-files", "grammars that are read from two or more files", 10_000 * k, out, &one);
}
