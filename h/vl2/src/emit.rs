//! Rust text of a generated runner module for one grammar.
use std::collections::BTreeSet;
use std::fmt::Write;
use vkit::gram::*;
use vkit::interp::*;

/// One type to run: a rule, with type arguments if it is generic.
pub struct Entry {
    pub label: String,
    pub rule: usize,
    pub args: Vec<X>,
    pub ty: String,
    pub names: Vec<String>,
    pub silent: bool,
    /// C20: an expression for what the enumeration is like, and what it should give.
    pub table: (String, String),
}

#[derive(Clone, Default, PartialEq)]
pub struct Opt {
    /// Attribute lines in addition to the grammar.
    pub attrs: Vec<String>,
    pub rules_mod: Option<String>,
    pub accessors: bool,
    /// How the grammar is given: 0 inline, 1 file (with imports relative to it), 2 split over two inline attributes
    pub source: u8,
    pub no_pair: bool,
    /// Seed of another layout of the grammar text.
    pub layout: Option<u64>,
    /// The enumeration is looked at instead of the accessors.
    pub table: bool,
    /// Written by hand instead of derived.
    pub hand: bool,
}
impl Opt {
    /// The ways to write the same parser that C16 runs through.
    pub const VARIANTS: usize = 16;
    pub fn variant(n: usize) -> Opt {
        let a = |x: &[&str]| x.iter().map(|x| format!("#[{x}]")).collect::<Vec<_>>();
        let o = |attrs, rm: &str, accessors, source, no_pair| Opt {
            attrs,
            rules_mod: (!rm.is_empty()).then(|| rm.to_string()),
            accessors,
            source,
            no_pair,
            layout: (n % Opt::VARIANTS >= 12 || n % Opt::VARIANTS == 9).then_some(n as u64),
            table: false,
            hand: false,
        };
        match n % Opt::VARIANTS {
            1 => o(a(&["box_rules_only_if_needed"]), "", true, 0, false),
            2 => o(a(&["rules_mod = \"custom\""]), "custom", true, 0, false),
            3 => o(vec![], "", true, 1, false),
            4 => o(vec![], "", true, 2, false),
            5 => o(a(&["no_getter"]), "", false, 0, false),
            6 => o(a(&["no_pair"]), "", true, 0, true),
            7 => o(a(&["box_rules_only_if_needed = true", "rules_mod = \"r#type\""]), "r#type", true, 1, false),
            8 => o(a(&["no_span", "no_warnings = true", "box_rules_only_if_needed = false", "no_getter = false", "no_pair = false"]), "", true, 0, false),
            9 => o(a(&["no_pair = true", "no_getter = true", "box_rules_only_if_needed = true"]), "", false, 2, true),
            10 => o(a(&["rules_mod = \"nodes\""]), "nodes", true, 2, false),
            11 => o(a(&["box_rules_only_if_needed", "no_getter"]), "", false, 1, false),
            12 | 13 => o(vec![], "", true, 0, false),
            14 => o(vec![], "", true, 1, false),
            15 => o(vec![], "", true, 2, false),
            _ => o(vec![], "", true, 0, false),
        }
    }
}

/// Names an accessor is expected for, with their number of occurrences.
fn names(x: &X, out: &mut Vec<(String, usize)>) {
    match x {
        X::Named(n, _) => match out.iter_mut().find(|(m, _)| m == n) {
            Some(e) => e.1 += 1,
            None => out.push((n.clone(), 1)),
        },
        X::Pos(x) | X::Opt(x) | X::Rep(x, ..) => names(x, out),
        X::Seq(v, _) => v.iter().for_each(|x| names(&x.1, out)),
        X::Cho(v) => v.iter().for_each(|x| names(x, out)),
        _ => {}
    }
}

/// The enumeration of the module that a rule is in: its values in order, the rule's own value, and
/// that as a value of the enumerations of the importing modules.
fn table(p: &Prog, rule: usize, ty: &str, rm: &str) -> (String, String) {
    let r = &p.rules[rule];
    let names = |k: usize| p.insts[k].names.clone();
    let path = |names: &[String]| names.iter().map(|n| format!("{rm}::r#{n}::")).collect::<String>() + "Rule";
    let of = |k: usize| -> Vec<String> {
        let v: Vec<&RRule> = p.rules.iter().filter(|r| r.inst == k && !r.inlined()).collect();
        v.iter().map(|r| r.name.clone()).collect()
    };
    let e = path(&names(r.inst));
    let (mut vals, mut want) = (vec![format!("{e}::EOI")], vec!["EOI".to_string()]);
    for n in of(r.inst) {
        vals.push(format!("{e}::r#{n}"));
        want.push(n);
    }
    for (n, k) in &p.insts[r.inst].children {
        let sub = path(&names(*k));
        let v = of(*k);
        for x in ["EOI"].into_iter().chain(v.last().map(|x| x.as_str())) {
            vals.push(format!("{e}::r#{n}({sub}::{}{x})", if x == "EOI" { "" } else { "r#" }));
            want.push(format!("{n}({x})"));
        }
    }
    let mut up = String::from("own_");
    let mut from = String::from("own_");
    let mut uw = r.name.clone();
    let ns = names(r.inst);
    for d in (0..ns.len()).rev() {
        up.push_str(".cvt_into()");
        from = format!("<{} as SuperRule<{}>>::cvt_from({from})", path(&ns[..d]), path(&ns[..d + 1]));
        uw = format!("{}({uw})", ns[d]);
    }
    (
        format!(
            "{{ use ::pest3::typed::{{SubRule as _, SuperRule, RuleType}}; let own_: {e} = <{ty} as ::pest3::typed::wrapper::Rule>::RULE; \
             let all_: ::std::vec::Vec<{e}> = ::std::vec![{}]; \
             let top_: Rule = {up}; let from_: Rule = {from}; \
             ::std::format!(\"{{all_:?}} {{:?}} {{own_:?}} {{:?}} {{top_:?}} {{from_:?}} {{:?}}\", all_.windows(2).all(|w_| w_[0] < w_[1]), all_.iter().position(|x_| *x_ == own_), <{e} as RuleType>::EOI) }}",
            vals.join(", ")
        ),
        format!("[{}] true {} Some({}) {uw} {uw} EOI", want.join(", "), r.name, 1 + of(r.inst).iter().position(|n| *n == r.name).unwrap()),
    )
}

pub fn entries(p: &Prog, rules_mod: &str) -> Vec<Entry> {
    let mut out = vec![];
    for (i, r) in p.rules.iter().enumerate() {
        if r.inlined() {
            continue;
        }
        let mut nm = vec![];
        names(&r.body, &mut nm);
        let nm: Vec<String> = nm.into_iter().filter(|(_, c)| *c <= 12).map(|(n, _)| n).collect();
        let path = p.rust_path(i, rules_mod).replace("r#pest::", "pest::");
        let label = r.show.clone();
        if r.argc == 0 {
            let ty = format!("{path}<'i>");
            out.push(Entry { label, rule: i, args: vec![], table: table(p, i, &ty, rules_mod), ty, names: nm, silent: r.silent });
            continue;
        }
        // Two instantiations.
        let plain: Vec<usize> = (0..p.rules.len()).filter(|k| p.rules[*k].argc == 0 && p.rules[*k].inst == 0).collect();
        for v in 0..2 {
            let mut args = vec![];
            let mut tys = vec![];
            let mut txt = vec![];
            for k in 0..r.argc {
                if (k + v) % 2 == 0 && !plain.is_empty() {
                    let q = plain[(i + k) % plain.len()];
                    args.push(X::Call(q, vec![]));
                    tys.push(format!("{}<'i>", p.rust_path(q, rules_mod)));
                    txt.push(p.rules[q].name.clone());
                } else {
                    args.push(X::Bi(B::Any));
                    tys.push("::pest3::typed::template::any".into());
                    txt.push("any".into());
                }
            }
            let ty = format!("{path}<'i, {}>", tys.join(", "));
            out.push(Entry {
                label: format!("{label}({})", txt.join(", ")),
                rule: i,
                args,
                table: table(p, i, &ty, rules_mod),
                ty,
                names: nm.clone(),
                silent: r.silent,
            });
        }
    }
    out
}

fn raw(s: &str) -> String {
    let mut k = 1;
    while s.contains(&format!("\"{}", "#".repeat(k))) {
        k += 1;
    }
    let h = "#".repeat(k);
    format!("r{h}\"{s}\"{h}")
}

fn arities(p: &Prog) -> (BTreeSet<usize>, BTreeSet<usize>) {
    fn go(x: &X, s: &mut BTreeSet<usize>, c: &mut BTreeSet<usize>) {
        match x {
            X::Named(_, x) | X::Push(x) | X::Pos(x) | X::Neg(x) | X::Opt(x) | X::Rep(x, ..) => go(x, s, c),
            X::Call(_, v) => v.iter().for_each(|x| go(x, s, c)),
            X::Seq(v, _) => {
                s.insert(v.len());
                v.iter().for_each(|x| go(&x.1, s, c))
            }
            X::Cho(v) => {
                c.insert(v.len());
                v.iter().for_each(|x| go(x, s, c))
            }
            _ => {}
        }
    }
    let (mut s, mut c) = (BTreeSet::new(), BTreeSet::new());
    p.rules.iter().for_each(|r| go(&r.body, &mut s, &mut c));
    p.trivs.iter().for_each(|x| go(x, &mut s, &mut c));
    (s, c)
}

/// Text of the module and the files it needs below the crate directory.
/// `dir` is the absolute path of the crate.
pub fn module(g: &Grammar, p: &Prog, es: &[Entry], k: usize, o: &Opt, dir: &str) -> (String, Vec<(String, String)>) {
    if o.hand {
        return (crate::hand::module(p, es), vec![]);
    }
    let rm = o.rules_mod.clone().unwrap_or("rules".into());
    let below = format!("{dir}/g{k}");
    let root = g.mods[0].below(&below);
    let text = |m: &Module, part: u64| match o.layout {
        None => m.text(),
        Some(l) => vkit::layout::module(m, &mut vkit::prop::Src::random(vkit::prop::hash64(format!("{l} {part} {}", m.text()).as_bytes()))).text,
    };
    // Line ends would be changed in a raw string.
    let quoted = |t: String| if o.layout.is_some() { format!("{t:?}") } else { raw(&t) };
    let mut files: Vec<(String, String)> = vec![];
    for (i, m) in g.mods.iter().enumerate().skip(1) {
        files.push((format!("g{k}/{}", m.rel(i)), text(&m.below(&below), i as u64)));
    }
    let mut s = String::new();
    let attr = match o.source {
        1 => {
            // No name is asked of it.
            let name = format!("g{k}{}", if k % 4 == 3 { "-grammar" } else { ".pest" });
            files.push((name.clone(), text(&root, 0)));
            format!("#[grammar = \"{name}\"]")
        }
        2 => {
            let m = &root;
            let at = m.rules.len() / 2;
            let mut a = m.clone();
            let mut b = m.clone();
            a.rules.truncate(at);
            b.rules = b.rules.split_off(at);
            b.imports = a.imports.split_off((k + at) % (m.imports.len() + 1));
            b.doc = a.doc.split_off((k + at) % (m.doc.len() + 1));
            format!("#[grammar_inline = {}]\n#[grammar_inline = {}]", quoted(text(&a, 0)), quoted(text(&b, 99)))
        }
        _ => format!("#[grammar_inline = {}]", quoted(text(&root, 0))),
    };
    // What it is derived for has nothing to say.
    let item = match k % 8 {
        3 => "pub enum P {}",
        4 => "pub struct P { pub at: usize }",
        5 => "pub struct PP<'x, X, const N: usize>(pub &'x [X; N]) where X: Copy + 'x;\npub type P = PP<'static, u8, 2>;",
        6 => "#[derive(Clone)]\n/// A parser.\npub enum PP<T: Clone = u8> { A(T), B }\npub type P = PP;",
        _ => "pub struct P;",
    };
    let parser = format!("#[derive(::pest3::Parser)]\n{attr}\n{}\n{item}\n", o.attrs.join("\n"));
    if k % 8 == 7 {
        // Nor has what else is defined around it.
        write!(s, "mod inside {{\n{AROUND}{parser}}}\npub use inside::{{P, Rule, generics, {rm}}};\n").unwrap();
    } else {
        s.push_str(&parser);
    }
    // Walk for every rule type.
    for (i, r) in p.rules.iter().enumerate() {
        if r.inlined() {
            continue;
        }
        let path = p.rust_path(i, &rm);
        let (gi, ga) = if r.argc == 0 {
            (String::new(), "<'_>".to_string())
        } else {
            let v: Vec<String> = (0..r.argc).map(|k| format!("XX{k}")).collect();
            (
                format!("<'ii, {}>", v.iter().map(|x| format!("{x}: l2common::Walk")).collect::<Vec<_>>().join(", ")),
                format!("<'ii, {}>", v.join(", ")),
            )
        };
        write!(
            s,
            "impl{gi} l2common::Walk for {path}{ga} {{ fn walk(&self, o: &mut ::std::string::String) {{ l2common::rule({:?}, &self.span, &self.content, o) }} }}\n",
            r.name
        )
        .unwrap();
    }
    let (sq, ch) = arities(p);
    let mut wide = String::new();
    for n in sq.iter().filter(|n| **n > 16) {
        let f: Vec<String> = (0..*n).map(|i| format!("field_{i} T{i} TR{i} {i}")).collect();
        write!(wide, "l2common::walk_seq!(Sequence{n}, {});\n", f.join(", ")).unwrap();
    }
    for n in ch.iter().filter(|n| **n > 16) {
        let f: Vec<String> = (0..*n).map(|i| format!("Choice{i} T{i} choice_{i} {i}")).collect();
        write!(wide, "l2common::walk_cho!(Choice{n}, {});\n", f.join(", ")).unwrap();
    }
    if !wide.is_empty() {
        write!(s, "mod wide {{ use super::generics::*;\n{wide}}}\n").unwrap();
    }
    run(&mut s, es, o);
    (s, files)
}

/// Definitions with the names of what generated code uses.
const AROUND: &str = "#![allow(dead_code, unused_macros)]
pub type Result<T> = ::core::result::Result<T, ()>;
pub struct Option; pub struct Vec; pub struct Box; pub struct String; pub struct PhantomData; pub struct BTreeMap;
pub struct Span; pub struct Position; pub struct Pair; pub struct Tracker; pub struct Stack; pub struct Error;
pub trait Clone {} pub trait Debug {} pub trait Default {} pub trait Iterator {} pub trait IntoIterator {} pub trait Fn {} pub trait FnMut {}
pub trait From {} pub trait Into {} pub trait Deref {} pub trait TypedNode {} pub trait PartialEq {} pub trait Eq {} pub trait PartialOrd {} pub trait Ord {}
pub trait Hash {} pub trait Hasher {} pub trait Copy {} pub trait PairTree {} pub trait PairContainer {} pub trait RuleType {} pub trait SubRule {}
pub trait TypedParser {} pub trait RuleWrapper {} pub trait RuleStruct {} pub trait StringWrapper {}
pub mod core {} pub mod std {} pub mod alloc {} pub mod pest3_core {} pub mod pest3 {} pub mod typed {}
macro_rules! write { () => {} } macro_rules! vec { () => {} } macro_rules! format { () => {} } macro_rules! panic { () => {} }
macro_rules! unreachable { () => {} } macro_rules! matches { () => {} } macro_rules! stringify { () => {} } macro_rules! concat { () => {} }
";

/// The function that runs an entry.
pub fn run(s: &mut String, es: &[Entry], o: &Opt) {
    write!(s, "pub fn run<'i>(r: usize, input: &'i ::std::primitive::str, out: &mut l2common::Out) {{\n    match r {{\n").unwrap();
    for (n, e) in es.iter().enumerate() {
        let pairs = if o.no_pair {
            format!("|_: &{}| Default::default()", e.ty)
        } else {
            format!(
                "|x: &{ty}| {{ use ::pest3::typed::PairContainer as _; let a_: ::std::vec::Vec<::pest3::token::Pair<Rule>> = x.content.vec_children_pairs(); \
                 let mut b_ = ::std::vec::Vec::new(); x.content.for_each_child_pair(&mut |q_: ::pest3::token::Pair<Rule>| b_.push(q_)); \
                 l2common::content(l2common::{}::<Rule, {ty}>(x), a_, b_) }}",
                if e.silent { "nopairs" } else { "pairs" },
                ty = e.ty
            )
        };
        let mut acc = String::from("&|_, _| {}");
        if o.table {
            acc = format!("&|_, o| o.push({})", e.table.0);
        } else if o.accessors && !e.names.is_empty() {
            acc = "&|x, o| {".into();
            for a in &e.names {
                write!(acc, " l2common::acc({a:?}, x.r#{a}(), o);").unwrap();
            }
            acc.push_str(" }");
        }
        write!(
            s,
            "        {n} => l2common::run::<{ty}, Rule, P>(input, &{pairs}, {acc}, out),\n",
            ty = e.ty
        )
        .unwrap();
    }
    s.push_str("        _ => ::std::unreachable!(),\n    }\n}\n");
}
