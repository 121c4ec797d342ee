//! Runs the generator in this process.
use proc_macro2::TokenStream;
use quote::quote;
use std::path::{Path, PathBuf};
use vkit::gram::*;
use vkit::prop::*;

/// The manifest directory of every derivation here: grammars are laid below it.
pub fn base() -> PathBuf {
    PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap())
}
/// To be called before any thread is started.
pub fn scratch(prop: &str) -> bool {
    if std::env::var("VGEN_CHILD").is_ok() {
        return true;
    }
    let d = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join(format!("work/vgen-{prop}-{}", std::process::id()));
    std::fs::create_dir_all(d.join("src")).unwrap();
    std::env::set_var("CARGO_MANIFEST_DIR", d.canonicalize().unwrap());
    false
}
pub fn clean() {
    let b = base();
    assert!(b.to_string_lossy().contains("/work/vgen-"));
    let _ = std::fs::remove_dir_all(b);
}
pub struct Given {
    pub attrs: Vec<String>,
    /// 0 inline, 1 file, 2 two inline attributes, 3 a file in `src`, 4 file and inline
    pub source: u8,
    /// where the root is split, for 2 and 4
    pub at: usize,
    /// how the name of a grammar file ends
    pub end: &'static str,
}
pub const ENDS: [&str; 5] = [".pest", ".grammar", "-root", ".pest.txt", ".rs"];
/// Gives the grammar a directory of its own, named after what it says.
pub fn place(g: &Grammar, source: u8) -> (Grammar, String) {
    let all: String = g.mods.iter().map(|m| m.text() + "\0").collect();
    let dir = format!("d{:016x}", hash64(all.as_bytes()));
    let mut g = g.clone();
    let pre = if source == 3 { "src/" } else { "" };
    for im in &mut g.mods[0].imports {
        if im.target != Target::Builtin && im.file.is_none() {
            im.path[0] = dir.clone();
        }
    }
    let below = base().join(format!("{pre}{dir}"));
    for m in &mut g.mods {
        *m = m.below(below.to_str().unwrap());
    }
    for (i, m) in g.mods.iter().enumerate().skip(1) {
        let f = below.join(m.rel(i));
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, m.text()).unwrap();
    }
    (g, dir)
}
pub fn unplace(dir: &str) {
    for pre in ["", "src/"] {
        let d: PathBuf = base().join(format!("{pre}{dir}"));
        let _ = std::fs::remove_dir_all(&d);
        for e in ENDS {
            let _ = std::fs::remove_file(Path::new(&format!("{}{e}", d.display())));
        }
    }
}
pub fn halves(m: &Module, at: usize) -> (Module, Module) {
    let at = at % (m.rules.len() + 1);
    let (mut a, mut b) = (m.clone(), m.clone());
    a.rules.truncate(at);
    b.rules = b.rules.split_off(at);
    b.imports = a.imports.split_off((at + m.rules.len()) % (m.imports.len() + 1));
    b.doc = a.doc.split_off((at + m.rules.len()) % (m.doc.len() + 1));
    if b.rules.is_empty() || a.rules.is_empty() {
        // A grammar has at least one rule.
        return (m.clone(), Module::default());
    }
    (a, b)
}
pub fn attributes(g: &Grammar, dir: &str, v: &Given) -> TokenStream {
    let file = |m: &Module, pre: &str| {
        std::fs::write(base().join(format!("{pre}{dir}{}", v.end)), m.text()).unwrap();
        let n = format!("{dir}{}", v.end);
        quote! { #[grammar = #n] }
    };
    let inline = |m: &Module| {
        let t = m.text();
        quote! { #[grammar_inline = #t] }
    };
    match v.source {
        1 => file(&g.mods[0], ""),
        3 => file(&g.mods[0], "src/"),
        2 | 4 => {
            let (a, b) = halves(&g.mods[0], v.at);
            let one = if v.source == 4 { file(&a, "") } else { inline(&a) };
            let two = if b.rules.is_empty() { quote!() } else { inline(&b) };
            quote! { #one #two }
        }
        _ => inline(&g.mods[0]),
    }
}
pub fn input(grammar: TokenStream, attrs: &[String]) -> TokenStream {
    let attrs: Vec<TokenStream> = attrs.iter().map(|a| a.parse().unwrap()).collect();
    quote! {
        #[derive(Parser)]
        #grammar
        #(#attrs)*
        pub struct P;
    }
}
/// The emitted code, or the diagnostic.
pub fn derive(input: TokenStream) -> Result<TokenStream, String> {
    guarded(|| pest3_generator::typed::derive_typed_parser(input, true, true))
}
pub fn show(g: &Grammar, v: &Given) -> String {
    let mut t = String::new();
    if !v.attrs.is_empty() || v.source != 0 {
        t.push_str(&format!("(attributes {:?}, source {})\n", v.attrs, v.source));
    }
    for (i, m) in g.mods.iter().enumerate() {
        if i > 0 {
            t.push_str(&format!("--- {}\n", m.rel(i)));
        }
        t.push_str(&m.text());
    }
    t
}
