//! The same parsers written by hand: types put together from the public templates, with the
//! macros for sequences, choices and rules, and no generator.
use crate::emit::*;
use std::collections::BTreeSet;
use std::fmt::Write;
use vkit::gram::*;
use vkit::interp::*;
use vkit::prop::hash64;

const T: &str = "::pest3::typed::template";

struct W<'a> {
    p: &'a Prog,
    strs: Vec<String>,
    seqs: BTreeSet<usize>,
    chos: BTreeSet<usize>,
}
/// A choice among `n` ways to write something, which depends on the thing alone.
fn way(s: &str, n: u64) -> u64 {
    hash64(s.as_bytes()) / 7 % n
}
impl W<'_> {
    fn wrapper(&mut self, s: &str) -> String {
        let k = self.strs.iter().position(|x| x == s).unwrap_or_else(|| {
            self.strs.push(s.to_string());
            self.strs.len() - 1
        });
        format!("super::texts::S{k}")
    }
    fn triv(&self, t: Triv) -> String {
        match t {
            Triv::None => format!("{T}::Empty"),
            Triv::Opt => "Between<'i>".into(),
            Triv::Man => "Apart<'i>".into(),
        }
    }
    fn ty(&mut self, x: &X) -> String {
        match x {
            X::Str(s) => {
                let mut it = s.chars();
                match (it.next(), it.next()) {
                    (None, _) if way(s, 2) == 0 => format!("{T}::Empty"),
                    (Some(c), None) if way(s, 2) == 0 => format!("{T}::Char<{c:?}>"),
                    _ => format!("{T}::Str<{}>", self.wrapper(s)),
                }
            }
            X::Ins(s) => format!("{T}::Insens<'i, {}>", self.wrapper(s)),
            X::Rng('0', '9') => format!("{T}::ascii_digit"),
            X::Rng(a, b) => format!("{T}::CharRange<{a:?}, {b:?}>"),
            X::Bi(b) => {
                let n = match b {
                    B::Any => "any",
                    B::Soi => "soi",
                    B::Eoi => "eoi",
                    B::Nl => "newline",
                    B::Peek => "peek<'i>",
                    B::PeekAll => "peek_all<'i>",
                    B::Drop => "drop",
                    B::Pop => "pop<'i>",
                    B::PopAll => "pop_all<'i>",
                };
                format!("{T}::{n}")
            }
            X::Uni(n, _) => format!("::pest3::typed::unicode::{}", n.to_ascii_uppercase()),
            X::Slice(a, None) => format!("{T}::PeekSlice1<{a}>"),
            X::Slice(a, Some(b)) => format!("{T}::PeekSlice2<{a}, {b}>"),
            X::Push(x) => format!("{T}::push<{}>", self.ty(x)),
            X::Param(k) => format!("XX{k}"),
            X::Call(r, v) => {
                let a: String = v.iter().map(|x| format!(", {}", self.ty(x))).collect();
                format!("r#{}<'i{a}>", self.p.rules[*r].name)
            }
            X::Pos(x) => format!("{T}::Positive<{}>", self.ty(x)),
            X::Neg(x) => match &**x {
                // Never matches.
                X::Str(s) if s.is_empty() => format!("{T}::NONE"),
                x => format!("{T}::Negative<{}>", self.ty(x)),
            },
            X::Opt(x) => format!("::std::option::Option<{}>", self.ty(x)),
            X::Named(_, x) => self.ty(x),
            X::Seq(v, _) => {
                let n = v.len();
                let a: Vec<String> = v.iter().map(|(t, x)| format!("{}, {}", self.ty(x), self.triv(*t))).collect();
                let a = a.join(", ");
                if !(2..=16).contains(&n) || way(&a, 4) == 0 {
                    self.seqs.insert(n);
                    format!("super::own::Both{n}<{a}>")
                } else {
                    format!("::pest3::sequence::Sequence{n}<{a}>")
                }
            }
            X::Cho(v) => {
                let n = v.len();
                let a: Vec<String> = v.iter().map(|x| self.ty(x)).collect();
                let a = a.join(", ");
                if !(2..=16).contains(&n) || way(&a, 4) == 0 {
                    self.chos.insert(n);
                    format!("super::own::Either{n}<{a}>")
                } else {
                    format!("::pest3::choice::Choice{n}<{a}>")
                }
            }
            X::Rep(x, lo, hi, t, _) => {
                if let (X::Bi(B::Any), true, Triv::None) = (&**x, lo == hi, t) {
                    return format!("{T}::SkipChar<'i, {lo}>");
                }
                let a = format!("{}, {}", self.ty(x), self.triv(*t));
                const M: usize = usize::MAX;
                let full = format!("{T}::RepMinMax<{a}, {lo}, {{ {} }}>", if *hi == M { "::std::primitive::usize::MAX".into() } else { hi.to_string() });
                match (*lo, *hi, way(&a, 2)) {
                    (_, _, 0) => full,
                    (0, M, _) => format!("{T}::Rep<{a}>"),
                    (1, M, _) => format!("{T}::RepOnce<{a}>"),
                    (l, M, _) => format!("{T}::RepMin<{a}, {l}>"),
                    (0, h, _) => format!("{T}::RepMax<{a}, {h}>"),
                    _ => full,
                }
            }
        }
    }
}
/// A reference to a rule or a parameter: the content may be the rule itself, at any depth.
fn calls(x: &X) -> bool {
    match x {
        X::Call(..) => true,
        X::Push(x) | X::Pos(x) | X::Neg(x) | X::Opt(x) | X::Rep(x, ..) | X::Named(_, x) => calls(x),
        X::Seq(v, _) => v.iter().any(|x| calls(&x.1)),
        X::Cho(v) => v.iter().any(calls),
        _ => false,
    }
}

pub fn module(p: &Prog, es: &[Entry]) -> String {
    let mut w = W { p, strs: vec![], seqs: BTreeSet::new(), chos: BTreeSet::new() };
    let mut rules = String::new();
    for (name, t) in [("Between", p.insts[0].triv[0]), ("Apart", p.insts[0].triv[1])] {
        let ty = t.map_or(format!("{T}::Empty"), |t| w.ty(&p.trivs[t]));
        write!(rules, "pub type {name}<'i> = {ty};\n").unwrap();
    }
    let mut outer = String::new();
    for r in p.rules.iter().filter(|r| !r.inlined()) {
        let n = format!("r#{}", r.name);
        let inner = w.ty(&r.body);
        let content = if calls(&r.body) || way(&inner, 2) == 0 { format!("::std::boxed::Box<{inner}>") } else { inner.clone() };
        let xs: Vec<String> = (0..r.argc).map(|k| format!("XX{k}")).collect();
        let with = |b: &str| xs.iter().map(|x| format!(", {x}{b}")).collect::<String>();
        let (plain, pairs) = (with(""), with(": ::pest3::typed::PairContainer<super::Rule>"));
        write!(
            rules,
            "#[derive(Clone, Debug, PartialEq, Eq, Hash)]\n#[allow(non_camel_case_types)]\npub struct {n}<'i{plain}> {{ pub content: {content}, pub span: ::pest3::Span<'i> }}\n\
             ::pest3::typed::full_rule_struct!({n}, ({}), super::Rule, super::Rule::{n}, {inner}, {content},);\n\
             impl<'i{plain}> ::pest3::typed::wrapper::Rule for {n}<'i{plain}> {{ type Rule = super::Rule; const RULE: super::Rule = super::Rule::{n}; }}\n",
            xs.join(", ")
        )
        .unwrap();
        if r.silent {
            write!(rules, "impl<'i{plain}> ::pest3::typed::EmptyPairContainer for {n}<'i{plain}> {{}}\n").unwrap();
        } else {
            write!(
                rules,
                "impl<'i{pairs}> ::pest3::typed::PairContainer<super::Rule> for {n}<'i{plain}> {{\n\
                 fn for_each_child_pair(&self, f: &mut impl ::std::ops::FnMut(::pest3::token::Pair<super::Rule>)) {{ self.content.for_self_or_for_each_child_pair(f) }}\n\
                 fn for_self_or_for_each_child_pair(&self, f: &mut impl ::std::ops::FnMut(::pest3::token::Pair<super::Rule>)) {{ f(::pest3::typed::PairTree::as_pair_tree(self)) }}\n}}\n\
                 impl<'i{pairs}> ::pest3::typed::PairTree<super::Rule> for {n}<'i{plain}> {{\n\
                 fn get_rule() -> super::Rule {{ super::Rule::{n} }}\n\
                 fn get_span(&self) -> (::std::primitive::usize, ::std::primitive::usize) {{ (self.span.start(), self.span.end()) }}\n}}\n"
            )
            .unwrap();
        }
        let gi: String = xs.iter().map(|x| format!(", {x}: l2common::Walk")).collect();
        write!(
            outer,
            "impl<'i{gi}> l2common::Walk for rules::{n}<'i{plain}> {{ fn walk(&self, o: &mut ::std::string::String) {{ l2common::rule({:?}, &self.span, &self.content, o) }} }}\n",
            r.name
        )
        .unwrap();
    }
    let mut s = String::from("#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]\n#[allow(non_camel_case_types)]\npub enum Rule { EOI");
    for r in p.rules.iter().filter(|r| !r.inlined()) {
        write!(s, ", r#{}", r.name).unwrap();
    }
    s.push_str(" }\nimpl ::pest3::typed::RuleType for Rule { const EOI: Self = Rule::EOI; }\npub struct P;\nimpl ::pest3::typed::TypedParser<Rule> for P {}\n");
    write!(
        s,
        "pub mod rules {{\n{rules}}}\n{outer}"
    )
    .unwrap();
    s.push_str("pub mod texts {\n");
    for (k, x) in w.strs.iter().enumerate() {
        write!(s, "#[derive(Clone, PartialEq, Eq, Hash)] pub struct S{k};\nimpl ::pest3::typed::wrapper::String for S{k} {{ const CONTENT: &'static ::std::primitive::str = {x:?}; }}\n").unwrap();
    }
    s.push_str("}\npub mod own {\n");
    for n in &w.seqs {
        let f: Vec<String> = (0..*n).map(|i| format!("(part_{i}, A{i}, B{i})")).collect();
        let g: Vec<String> = (0..*n).map(|i| format!("part_{i} A{i} B{i} {i}")).collect();
        write!(s, "::pest3::sequence::sequence_type!(Both{n}, {});\nl2common::walk_seq!(Both{n}, {});\n", f.join(", "), g.join(", ")).unwrap();
    }
    for n in &w.chos {
        let f: Vec<String> = (0..*n).map(|i| format!("(Case{i}, A{i}, case_{i})")).collect();
        let g: Vec<String> = (0..*n).map(|i| format!("Case{i} A{i} case_{i} {i}")).collect();
        write!(s, "::pest3::choice::choice_type!(Either{n}, {});\nl2common::walk_cho!(Either{n}, {});\n", f.join(", "), g.join(", ")).unwrap();
    }
    s.push_str("}\n");
    run(&mut s, es, &Opt::default());
    s
}
