//! Reference semantics: a direct interpreter of abstract grammars (parsing-expression
//! semantics with a span stack, explicit trivia and failure reports).  It shares no code with
//! the repository; the only outside component is the `pest` 2.9.5 crate, for Unicode tables
//! and for laying out the final error text.
use crate::gram::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Any,
    Soi,
    Eoi,
    Nl,
    Peek,
    PeekAll,
    Drop,
    Pop,
    PopAll,
}

/// Resolved expression.
pub enum X {
    Str(String),
    Ins(String),
    Rng(char, char),
    Bi(B),
    Uni(String, Box<dyn Fn(char) -> bool>),
    Slice(i64, Option<i64>),
    Push(Box<X>),
    Param(usize),
    Call(usize, Vec<X>),
    Pos(Box<X>),
    Neg(Box<X>),
    Seq(Vec<(Triv, X)>, usize),
    Cho(Vec<X>),
    Opt(Box<X>),
    Rep(Box<X>, usize, usize, Triv, usize),
    /// A reference by name (what an accessor is generated for).
    Named(String, Box<X>),
}

pub struct RRule {
    pub inst: usize,
    pub name: String,
    pub silent: bool,
    pub argc: usize,
    pub body: X,
    /// Some silent meta rule was substituted into the body.
    pub inlines: bool,
    /// rank in the order of the root enumeration (EOI is 0); usize::MAX if not a variant.
    pub rank: usize,
    /// Debug text of the variant of the root enumeration.
    pub show: String,
}
impl RRule {
    /// Substituted away: no node, no tracking.
    pub fn inlined(&self) -> bool {
        self.silent && self.argc > 0
    }
}
pub struct Inst {
    pub module: usize,
    pub names: Vec<String>,
    pub children: Vec<(String, usize)>,
    pub alias: HashMap<String, Vec<String>>,
    pub rules: HashMap<String, usize>,
    pub triv: [Option<usize>; 2],
}
pub struct Prog {
    pub insts: Vec<Inst>,
    pub rules: Vec<RRule>,
    pub trivs: Vec<X>,
}

pub type RErr = String;

pub fn builtin_names() -> &'static [&'static str] {
    &[
        "any", "soi", "eoi", "newline", "ascii_digit", "ascii_nonzero_digit", "ascii_bin_digit",
        "ascii_oct_digit", "ascii_hex_digit", "ascii_alpha_lower", "ascii_alpha_upper",
        "ascii_alpha", "ascii_alphanumeric", "ascii",
    ]
}

fn builtin(path: &[String], args: Vec<X>, a: &Args) -> Result<X, RErr> {
    let noarg = |x: X| -> Result<X, RErr> {
        match a {
            Args::None => Ok(x),
            _ => Err("builtin takes no argument".into()),
        }
    };
    let p: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
    let r = X::Rng;
    match p.as_slice() {
        ["any"] => noarg(X::Bi(B::Any)),
        ["soi"] => noarg(X::Bi(B::Soi)),
        ["eoi"] => noarg(X::Bi(B::Eoi)),
        ["newline"] => noarg(X::Bi(B::Nl)),
        ["ascii_digit"] => noarg(r('0', '9')),
        ["ascii_nonzero_digit"] => noarg(r('1', '9')),
        ["ascii_bin_digit"] => noarg(r('0', '1')),
        ["ascii_oct_digit"] => noarg(r('0', '7')),
        ["ascii_hex_digit"] => noarg(X::Cho(vec![r('0', '9'), r('a', 'f'), r('A', 'F')])),
        ["ascii_alpha_lower"] => noarg(r('a', 'z')),
        ["ascii_alpha_upper"] => noarg(r('A', 'Z')),
        ["ascii_alpha"] => noarg(X::Cho(vec![r('a', 'z'), r('A', 'Z')])),
        ["ascii_alphanumeric"] => noarg(X::Cho(vec![X::Cho(vec![r('a', 'z'), r('A', 'Z')]), r('0', '9')])),
        ["ascii"] => noarg(r('\0', '\x7f')),
        ["unicode", n] => match pest::unicode::by_name(&n.to_ascii_uppercase()) {
            Some(f) if n.to_ascii_lowercase() == **n => match a {
                Args::None => Ok(X::Uni(n.to_string(), f)),
                Args::Call(v) if v.is_empty() => Ok(X::Uni(n.to_string(), f)),
                _ => Err("unicode takes no argument".into()),
            },
            _ => Err(format!("no unicode property {n}")),
        },
        ["stack", "peek"] => match a {
            Args::None => Ok(X::Bi(B::Peek)),
            Args::Slice(s, e) => Ok(X::Slice(s.unwrap_or(0), *e)),
            Args::Call(_) => Err("peek is not callable".into()),
        },
        ["stack", "peek_all"] => noarg(X::Bi(B::PeekAll)),
        ["stack", "drop"] => noarg(X::Bi(B::Drop)),
        ["stack", "pop"] => noarg(X::Bi(B::Pop)),
        ["stack", "pop_all"] => noarg(X::Bi(B::PopAll)),
        ["stack", "push"] => match a {
            Args::Call(v) if v.len() == 1 => Ok(X::Push(Box::new(args.into_iter().next().unwrap()))),
            _ => Err("push takes one argument".into()),
        },
        _ => Err(format!("no builtin {}", path.join("::"))),
    }
}
fn builtin_exists(path: &[String]) -> bool {
    let p: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
    match p.as_slice() {
        [] | ["stack"] | ["unicode"] => true,
        [n] => builtin_names().contains(n),
        ["unicode", n] => n.to_ascii_lowercase() == **n && pest::unicode::by_name(&n.to_ascii_uppercase()).is_some(),
        ["stack", n] => ["peek", "peek_all", "drop", "push", "pop", "pop_all"].contains(n),
        _ => false,
    }
}

impl Prog {
    pub fn compile(g: &Grammar) -> Result<Prog, RErr> {
        let mut p = Prog { insts: vec![], rules: vec![], trivs: vec![] };
        p.add_inst(g, 0, vec![], 0)?;
        // Ranks in the root enumeration.
        let mut rank = 1;
        p.rank(0, &mut rank);
        // Bodies.
        for i in 0..p.insts.len() {
            let m = &g.mods[p.insts[i].module];
            for r in &m.rules {
                let inl = r.silent && !r.args.is_empty();
                let inlines = std::cell::Cell::new(false);
                let cx = Cx { p: &p, g, inst: i, params: &r.args, given: None, depth: 0, inlines: &inlines };
                let body = cx.expr(&r.body).map_err(|e| format!("rule {}: {e}", r.name))?;
                if inl {
                    continue;
                }
                if r.is_trivia() {
                    let k = if r.name == "~" { 0 } else { 1 };
                    let t = p.insts[i].triv[k].unwrap();
                    p.trivs[t] = body;
                } else {
                    let id = p.insts[i].rules[&r.name];
                    p.rules[id].body = body;
                    p.rules[id].inlines = inlines.get();
                }
            }
        }
        Ok(p)
    }
    fn add_inst(&mut self, g: &Grammar, module: usize, names: Vec<String>, depth: usize) -> Result<usize, RErr> {
        if depth > 12 {
            return Err("cyclic import".into());
        }
        let id = self.insts.len();
        self.insts.push(Inst {
            module,
            names: names.clone(),
            children: vec![],
            alias: HashMap::new(),
            rules: HashMap::new(),
            triv: [None, None],
        });
        let m = &g.mods[module];
        let mut seen: Vec<&str> = vec![];
        for im in &m.imports {
            if seen.contains(&im.local()) {
                return Err(format!("{} defined twice", im.local()));
            }
            seen.push(im.local());
            match im.target {
                Target::Builtin => {
                    if im.path[0] != "pest" || !builtin_exists(&im.path[1..]) {
                        return Err(format!("no builtin {}", im.path.join("::")));
                    }
                    self.insts[id].alias.insert(im.local().to_string(), im.path[1..].to_vec());
                }
                Target::Module(k) => {
                    let mut n = names.clone();
                    n.push(im.local().to_string());
                    let c = self.add_inst(g, k, n, depth + 1)?;
                    self.insts[id].children.push((im.local().to_string(), c));
                }
            }
        }
        for r in &m.rules {
            if r.is_trivia() {
                let k = if r.name == "~" { 0 } else { 1 };
                if self.insts[id].triv[k].is_some() {
                    return Err(format!("trivia {} defined twice", r.name));
                }
                self.insts[id].triv[k] = Some(self.trivs.len());
                self.trivs.push(X::Bi(B::Any));
                continue;
            }
            if seen.contains(&r.name.as_str()) {
                return Err(format!("{} defined twice", r.name));
            }
            seen.push(&r.name);
            let rid = self.rules.len();
            let mut show = r.name.clone();
            for n in names.iter().rev() {
                show = format!("{n}({show})");
            }
            self.rules.push(RRule {
                inst: id,
                name: r.name.clone(),
                silent: r.silent,
                argc: r.args.len(),
                body: X::Bi(B::Any),
                inlines: false,
                rank: usize::MAX,
                show,
            });
            self.insts[id].rules.insert(r.name.clone(), rid);
        }
        Ok(id)
    }
    fn rank(&mut self, inst: usize, next: &mut usize) {
        let mut ids: Vec<usize> = self.insts[inst].rules.values().copied().collect();
        ids.sort();
        if inst != 0 {
            *next += 1; // EOI of the imported enumeration
        }
        for r in ids {
            if !self.rules[r].inlined() {
                self.rules[r].rank = *next;
                *next += 1;
            }
        }
        for (_, c) in self.insts[inst].children.clone() {
            self.rank(c, next);
        }
    }
    pub fn rule(&self, name: &str) -> Option<usize> {
        self.insts[0].rules.get(name).copied()
    }
    /// Rust path below the rules module.
    pub fn rust_path(&self, rule: usize, rules_mod: &str) -> String {
        let r = &self.rules[rule];
        let mut s = format!("{rules_mod}::");
        for n in &self.insts[r.inst].names {
            s.push_str(&format!("r#{n}::{rules_mod}::"));
        }
        format!("{s}r#{}", r.name)
    }
}

struct Cx<'a> {
    p: &'a Prog,
    g: &'a Grammar,
    inst: usize,
    params: &'a [String],
    /// Set while the body of a rule that is substituted away is built: the arguments.
    given: Option<(&'a [E], &'a Cx<'a>)>,
    depth: usize,
    inlines: &'a std::cell::Cell<bool>,
}
impl Cx<'_> {
    fn trivref(&self, t: Triv) -> Result<usize, RErr> {
        match t {
            Triv::None => Ok(usize::MAX),
            Triv::Opt => self.p.insts[self.inst].triv[0].ok_or_else(|| "`~` not defined".into()),
            Triv::Man => self.p.insts[self.inst].triv[1].ok_or_else(|| "`^` not defined".into()),
        }
    }
    fn expr(&self, e: &E) -> Result<X, RErr> {
        Ok(match e {
            E::Str(s) => X::Str(s.clone()),
            E::Ins(s) => X::Ins(s.clone()),
            E::Rng(a, b) => X::Rng(*a, *b),
            E::Pos(x) => X::Pos(Box::new(self.expr(x)?)),
            E::Neg(x) => X::Neg(Box::new(self.expr(x)?)),
            E::Opt(x) => X::Opt(Box::new(self.expr(x)?)),
            E::Rep(x, k, t) => {
                self.trivref(*t)?;
                let (lo, hi) = k.bounds();
                X::Rep(Box::new(self.expr(x)?), lo, hi, *t, self.inst)
            }
            // Sequences and choices are flat: one that ends in a sequence (choice), also by
            // substitution, continues with its items.
            E::Seq(..) => {
                let mut v = vec![];
                let mut t = Triv::None;
                let mut cur = e;
                while let E::Seq(a, b, nt) = cur {
                    self.trivref(*nt)?;
                    v.push((t, self.expr(a)?));
                    t = *nt;
                    cur = b;
                }
                let mut inst = self.inst;
                match self.expr(cur)? {
                    // One sequence has the trivia of one module.
                    X::Seq(w, other)
                        if other == inst
                            || w.iter().all(|(t, _)| *t == Triv::None)
                            || (t == Triv::None && v.iter().all(|(t, _)| *t == Triv::None)) =>
                    {
                        if w.iter().any(|(t, _)| *t != Triv::None) {
                            inst = other;
                        }
                        for (i, (wt, x)) in w.into_iter().enumerate() {
                            v.push((if i == 0 { t } else { wt }, x));
                        }
                    }
                    x => v.push((t, x)),
                }
                X::Seq(v, inst)
            }
            E::Cho(..) => {
                let mut v = vec![];
                let mut cur = e;
                while let E::Cho(a, b) = cur {
                    v.push(self.expr(a)?);
                    cur = b;
                }
                match self.expr(cur)? {
                    X::Cho(w) => v.extend(w),
                    x => v.push(x),
                }
                X::Cho(v)
            }
            E::Path(p, a) => {
                if p.len() == 1 {
                    if let Some(k) = self.params.iter().position(|x| *x == p[0]) {
                        return match (a, &self.given) {
                            (Args::None, Some((args, up))) => {
                                if self.depth > 40 {
                                    return Err("endless substitution".into());
                                }
                                up.expr(&args[k])
                            }
                            (Args::None, None) => Ok(X::Named(p[0].clone(), Box::new(X::Param(k)))),
                            _ => Err("arguments on a parameter".into()),
                        };
                    }
                }
                let last = p.last().unwrap().clone();
                let build = |s: &Self| -> Result<Vec<X>, RErr> {
                    match a {
                        Args::Call(v) => v.iter().map(|x| s.expr(x)).collect(),
                        _ => Ok(vec![]),
                    }
                };
                if p[0] == "pest" {
                    return Ok(X::Named(last, Box::new(builtin(&p[1..], build(self)?, a)?)));
                }
                let mut inst = self.inst;
                let mut i = 0;
                loop {
                    let it = &self.p.insts[inst];
                    if let Some(al) = it.alias.get(&p[i]) {
                        let mut full = al.clone();
                        full.extend(p[i + 1..].iter().cloned());
                        return Ok(X::Named(last, Box::new(builtin(&full, build(self)?, a)?)));
                    }
                    if let Some((_, c)) = it.children.iter().find(|(n, _)| *n == p[i]) {
                        inst = *c;
                        i += 1;
                        if i == p.len() {
                            return Err(format!("{} is a module", p.join("::")));
                        }
                        continue;
                    }
                    if let Some(r) = it.rules.get(&p[i]) {
                        if i + 1 != p.len() {
                            return Err(format!("{} has no members", p[i]));
                        }
                        let rr = &self.p.rules[*r];
                        let ok = match a {
                            Args::None => rr.argc == 0,
                            Args::Call(v) => v.len() == rr.argc,
                            Args::Slice(..) => false,
                        };
                        if !ok {
                            return Err(format!("bad arguments for {}", p.join("::")));
                        }
                        if rr.inlined() {
                            if self.depth > 12 {
                                return Err("endless substitution".into());
                            }
                            self.inlines.set(true);
                            let Args::Call(v) = a else { unreachable!() };
                            let def = self.g.mods[it.module].rules.iter().find(|d| d.name == rr.name).unwrap();
                            let cx = Cx {
                                p: self.p,
                                g: self.g,
                                inst: rr.inst,
                                params: &def.args,
                                given: Some((v, self)),
                                depth: self.depth + 1,
                                inlines: self.inlines,
                            };
                            return cx.expr(&def.body);
                        }
                        return Ok(X::Named(last, Box::new(X::Call(*r, build(self)?))));
                    }
                    return Err(format!("unresolved {}", p.join("::")));
                }
            }
        })
    }
}

/// Derivation.
#[derive(Clone, Debug)]
pub enum T {
    Str(String),
    Ins(String, String),
    Chr(char),
    Any(char),
    Soi,
    Eoi,
    Nl(&'static str),
    Peek(usize, usize),
    PeekAll(usize, usize),
    PopAll(usize, usize),
    Pop(String),
    Drop,
    Slice,
    Push(Rc<T>),
    Rule(usize, usize, usize, Rc<T>),
    Pos(Rc<T>),
    Neg,
    Seq(Vec<T>),
    Cho(usize, Rc<T>),
    Opt(Option<Rc<T>>),
    Rep(Vec<T>),
    Named(String, Rc<T>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PairT {
    pub rule: String,
    pub start: usize,
    pub end: usize,
    pub ch: Vec<PairT>,
}
impl PairT {
    pub fn text(&self) -> String {
        format!(
            "{}({}, {}, [{}])",
            self.rule,
            self.start,
            self.end,
            self.ch.iter().map(|c| c.text()).collect::<Vec<_>>().join(", ")
        )
    }
    pub fn count(&self) -> usize {
        1 + self.ch.iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.ch.iter().map(|c| c.depth()).max().unwrap_or(0)
    }
}

impl T {
    pub fn pairs(&self, p: &Prog, out: &mut Vec<PairT>) {
        match self {
            T::Rule(r, s, e, c) => {
                let rr = &p.rules[*r];
                if rr.silent {
                    return;
                }
                let mut ch = vec![];
                c.pairs(p, &mut ch);
                out.push(PairT { rule: rr.show.clone(), start: *s, end: *e, ch });
            }
            T::Push(c) | T::Cho(_, c) | T::Named(_, c) => c.pairs(p, out),
            T::Opt(Some(c)) => c.pairs(p, out),
            T::Seq(v) | T::Rep(v) => v.iter().for_each(|c| c.pairs(p, out)),
            _ => {}
        }
    }
    /// Canonical text of the typed node (see the runner's `Walk`).
    pub fn walk(&self, p: &Prog, o: &mut String) {
        use std::fmt::Write;
        match self {
            T::Str(s) => write!(o, "S{s:?}").unwrap(),
            T::Ins(c, m) => write!(o, "I{c:?}{m:?}").unwrap(),
            T::Chr(c) => write!(o, "C{c:?}").unwrap(),
            T::Any(c) => write!(o, "A{c:?}").unwrap(),
            T::Soi => o.push('^'),
            T::Eoi => o.push('$'),
            T::Nl(s) => write!(o, "N{s}").unwrap(),
            T::Peek(s, e) => write!(o, "k{s}-{e}").unwrap(),
            T::PeekAll(s, e) => write!(o, "K{s}-{e}").unwrap(),
            T::PopAll(s, e) => write!(o, "Q{s}-{e}").unwrap(),
            T::Pop(s) => write!(o, "q{s:?}").unwrap(),
            T::Drop => o.push('D'),
            T::Slice => o.push('L'),
            T::Push(c) => {
                o.push_str("P(");
                c.walk(p, o);
                o.push(')')
            }
            T::Rule(r, s, e, c) => {
                write!(o, "<{} {s}-{e} ", p.rules[*r].name).unwrap();
                c.walk(p, o);
                o.push('>')
            }
            T::Pos(c) => {
                o.push_str("&(");
                c.walk(p, o);
                o.push(')')
            }
            T::Neg => o.push('!'),
            T::Seq(v) => list('[', ']', v, p, o),
            T::Rep(v) => list('{', '}', v, p, o),
            T::Cho(i, c) => {
                write!(o, "{i}:").unwrap();
                c.walk(p, o)
            }
            T::Opt(None) => o.push_str("?-"),
            T::Opt(Some(c)) => {
                o.push('?');
                c.walk(p, o)
            }
            T::Named(_, c) => c.walk(p, o),
        }
    }
    /// Matches of occurrences of `name` in this body, in order.
    pub fn occurrences<'a>(&'a self, name: &str, out: &mut Vec<&'a T>) {
        match self {
            T::Named(n, c) => {
                if n == name {
                    out.push(c)
                }
            }
            T::Push(_) | T::Rule(..) => {}
            T::Cho(_, c) | T::Pos(c) => c.occurrences(name, out),
            T::Opt(Some(c)) => c.occurrences(name, out),
            T::Seq(v) | T::Rep(v) => v.iter().for_each(|c| c.occurrences(name, out)),
            _ => {}
        }
    }
}
/// How what an accessor returns is built: `r` a node, `n` and `s(..)` an option, `[..]` a list,
/// `(..)` a tuple for several occurrences.  An option in an option is one option.
pub fn shape(x: &X, t: &T, name: &str) -> Option<String> {
    fn has(x: &X, name: &str) -> bool {
        match x {
            X::Named(n, _) => n == name,
            X::Pos(x) | X::Opt(x) | X::Rep(x, ..) => has(x, name),
            X::Seq(v, _) => v.iter().any(|x| has(&x.1, name)),
            X::Cho(v) => v.iter().any(|x| has(x, name)),
            _ => false,
        }
    }
    fn is_opt(x: &X, name: &str) -> bool {
        match x {
            X::Pos(x) => is_opt(x, name),
            X::Opt(x) => has(x, name),
            X::Cho(v) => v.iter().filter(|x| has(x, name)).count() == 1,
            X::Seq(v, _) => {
                let c: Vec<_> = v.iter().filter(|x| has(&x.1, name)).collect();
                c.len() == 1 && is_opt(&c[0].1, name)
            }
            _ => false,
        }
    }
    let opt = |x: &X, t: &T| shape(x, t, name).map(|s| if is_opt(x, name) { s } else { format!("s({s})") });
    let join = |mut v: Vec<String>| match v.len() {
        0 => None,
        1 => v.pop(),
        _ => Some(format!("({})", v.join(","))),
    };
    match (x, t) {
        (X::Named(n, _), _) => (n == name).then(|| "r".into()),
        (X::Pos(x), T::Pos(t)) => shape(x, t, name),
        (X::Seq(v, _), T::Seq(w)) => join(v.iter().zip(w).filter_map(|(x, t)| shape(&x.1, t, name)).collect()),
        (X::Cho(v), T::Cho(i, t)) => join(
            v.iter()
                .enumerate()
                .filter(|(_, x)| has(x, name))
                .map(|(k, x)| if k == *i { opt(x, t).unwrap() } else { "n".into() })
                .collect(),
        ),
        (X::Opt(x), _) if !has(x, name) => None,
        (X::Opt(_), T::Opt(None)) => Some("n".into()),
        (X::Opt(x), T::Opt(Some(t))) => opt(x, t),
        (X::Rep(x, ..), T::Rep(v)) if has(x, name) => Some(format!("[{}]", v.iter().map(|t| shape(x, t, name).unwrap()).collect::<Vec<_>>().join(","))),
        _ => None,
    }
}
fn list(a: char, b: char, v: &[T], p: &Prog, o: &mut String) {
    o.push(a);
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        x.walk(p, o);
    }
    o.push(b);
}

pub const F_BACKTRACK: u32 = 1;
pub const F_ROLLBACK: u32 = 2;
pub const F_TRIVIA: u32 = 4;
pub const F_PRED: u32 = 8;
pub const F_REP2: u32 = 16;
pub const F_REPMAX: u32 = 32;
pub const F_META: u32 = 64;
pub const F_IMPORT: u32 = 128;
pub const F_STACK: u32 = 256;
pub const F_SPECIAL: u32 = 512;
pub const F_TRIVBACK: u32 = 1024;
pub const F_REPFAIL: u32 = 2048;
pub const F_CHO: u32 = 4096;
pub const F_MULTIBYTE: u32 = 8192;
pub const F_INLINE: u32 = 16384;

#[derive(Clone, Debug)]
enum Ev {
    /// rule rank, succeeded, positive
    Leaf(usize, bool, bool),
    Special(String),
}

pub struct Env<'p> {
    args: &'p [X],
    inst_env: Option<Rc<Env<'p>>>,
}
type En<'p> = Option<Rc<Env<'p>>>;

pub struct Run<'p, 'i> {
    p: &'p Prog,
    s: &'i str,
    pub stack: Vec<(usize, usize)>,
    positive: bool,
    callers: Vec<(usize, usize, bool)>,
    events: Vec<(usize, Option<usize>, Ev)>,
    maxpos: usize,
    fuel: u64,
    depth: u32,
    pub flags: u32,
    pub oof: bool,
    pub rules_hit: Vec<usize>,
}

pub type M = Option<(usize, T)>;

impl<'p, 'i> Run<'p, 'i> {
    pub fn new(p: &'p Prog, s: &'i str, fuel: u64) -> Self {
        Run {
            p,
            s,
            stack: vec![],
            positive: true,
            callers: vec![],
            events: vec![],
            maxpos: 0,
            fuel,
            depth: 0,
            flags: 0,
            oof: false,
            rules_hit: vec![],
        }
    }
    fn event(&mut self, pos: usize, ev: Ev) {
        if pos < self.maxpos {
            return;
        }
        if pos > self.maxpos {
            self.maxpos = pos;
            self.events.clear();
        }
        let upper = self.callers.iter().rev().find(|(_, p, _)| *p != pos).map(|(r, _, _)| *r);
        self.events.push((pos, upper, ev));
    }
    fn lit(&self, pos: usize, t: &str) -> Option<usize> {
        self.s[pos..].starts_with(t).then(|| pos + t.len())
    }
    fn range(&self, pos: usize, a: char, b: char) -> Option<(usize, char)> {
        let c = self.s[pos..].chars().next()?;
        (a <= c && c <= b).then(|| (pos + c.len_utf8(), c))
    }
    fn triv(&mut self, t: Triv, inst: usize, pos: usize) -> Option<usize> {
        let k = match t {
            Triv::None => return Some(pos),
            Triv::Opt => 0,
            Triv::Man => 1,
        };
        let id = self.p.insts[inst].triv[k].unwrap();
        let (e, _) = self.eval(&self.p.trivs[id], &None, pos)?;
        if e > pos {
            self.flags |= F_TRIVIA;
        }
        Some(e)
    }
    /// Run with the stack put back on failure.
    fn attempt<R>(&mut self, f: impl FnOnce(&mut Self) -> Option<R>) -> Option<R> {
        let saved = self.stack.clone();
        let r = f(self);
        if r.is_none() {
            if self.stack != saved {
                self.flags |= F_ROLLBACK;
            }
            self.stack = saved;
        }
        r
    }
    pub fn call(&mut self, r: usize, args: &'p [X], env: &En<'p>, pos: usize) -> M {
        let p = self.p;
        let rr = &p.rules[r];
        let inner = if rr.argc == 0 {
            None
        } else {
            self.flags |= F_META;
            Some(Rc::new(Env { args, inst_env: env.clone() }))
        };
        if rr.inst != 0 {
            self.flags |= F_IMPORT;
        }
        if rr.inlines {
            self.flags |= F_INLINE;
        }
        if !self.rules_hit.contains(&r) {
            self.rules_hit.push(r);
        }
        if let Some(l) = self.callers.last_mut() {
            l.2 = true;
        }
        self.callers.push((rr.rank, pos, false));
        let m = self.eval(&rr.body, &inner, pos);
        let (_, _, had) = self.callers.pop().unwrap();
        if !had {
            let positive = self.positive;
            self.event(pos, Ev::Leaf(rr.rank, m.is_some(), positive));
        }
        let (e, t) = m?;
        Some((e, T::Rule(r, pos, e, Rc::new(t))))
    }
    fn eval(&mut self, x: &'p X, env: &En<'p>, pos: usize) -> M {
        if self.fuel == 0 || self.depth > 300 {
            self.oof = true;
            return None;
        }
        self.fuel -= 1;
        self.depth += 1;
        let r = self.eval_(x, env, pos);
        self.depth -= 1;
        if self.oof {
            return None;
        }
        r
    }
    fn eval_(&mut self, x: &'p X, env: &En<'p>, pos: usize) -> M {
        match x {
            X::Str(t) => {
                let e = self.lit(pos, t)?;
                Some((e, T::Str(t.clone())))
            }
            X::Ins(t) => {
                let sub = self.s.get(pos..pos + t.len())?;
                let same = sub.chars().count() == t.chars().count()
                    && sub.chars().zip(t.chars()).all(|(a, b)| a.to_ascii_lowercase() == b.to_ascii_lowercase());
                same.then(|| (pos + t.len(), T::Ins(t.clone(), sub.to_string())))
            }
            X::Rng(a, b) => {
                let (e, c) = self.range(pos, *a, *b)?;
                if c.len_utf8() > 1 {
                    self.flags |= F_MULTIBYTE;
                }
                Some((e, T::Chr(c)))
            }
            X::Uni(_, f) => {
                let c = self.s[pos..].chars().next()?;
                f(c).then(|| (pos + c.len_utf8(), T::Chr(c)))
            }
            X::Bi(b) => self.builtin(*b, pos),
            X::Slice(a, b) => {
                self.flags |= F_STACK;
                let n = self.stack.len() as i64;
                let norm = |i: i64| -> Option<i64> {
                    if i > n || i < -n {
                        None
                    } else if i < 0 {
                        Some(i + n)
                    } else {
                        Some(i)
                    }
                };
                let (s, e) = match (norm(*a), b.map_or(Some(n), norm)) {
                    (Some(s), Some(e)) => (s, e),
                    _ => {
                        self.flags |= F_SPECIAL;
                        let m = match b {
                            Some(b) => format!("Peek slice {a}..{b} out of bound."),
                            None => format!("Peek slice {a}.. out of bound."),
                        };
                        self.event(pos, Ev::Special(m));
                        return None;
                    }
                };
                let mut cur = pos;
                for k in s..e {
                    let (x, y) = self.stack[k as usize];
                    cur = self.lit(cur, &self.s[x..y])?;
                }
                Some((cur, T::Slice))
            }
            X::Push(x) => {
                self.flags |= F_STACK;
                let (e, t) = self.eval(x, env, pos)?;
                self.stack.push((pos, e));
                Some((e, T::Push(Rc::new(t))))
            }
            X::Param(k) => {
                let en = env.as_ref().unwrap().clone();
                self.eval(&en.args[*k], &en.inst_env, pos)
            }
            X::Named(n, x) => {
                let (e, t) = self.eval(x, env, pos)?;
                Some((e, T::Named(n.clone(), Rc::new(t))))
            }
            X::Call(r, args) => self.call(*r, args, env, pos),
            X::Pos(x) => {
                let m = self.predicate(x, env, pos, true);
                m.map(|(_, t)| (pos, T::Pos(Rc::new(t))))
            }
            X::Neg(x) => match self.predicate(x, env, pos, false) {
                _ if self.oof => None,
                Some(_) => None,
                None => Some((pos, T::Neg)),
            },
            X::Seq(v, inst) => {
                let mut cur = pos;
                let mut out = Vec::with_capacity(v.len());
                for (t, x) in v {
                    cur = self.triv(*t, *inst, cur)?;
                    let (e, n) = self.eval(x, env, cur)?;
                    cur = e;
                    out.push(n);
                }
                Some((cur, T::Seq(out)))
            }
            X::Cho(v) => {
                for (i, x) in v.iter().enumerate() {
                    if let Some((e, t)) = self.attempt(|r| r.eval(x, env, pos)) {
                        if i > 0 {
                            self.flags |= F_CHO;
                        }
                        return Some((e, T::Cho(i, Rc::new(t))));
                    }
                    if self.oof {
                        return None;
                    }
                }
                None
            }
            X::Opt(x) => match self.attempt(|r| r.eval(x, env, pos)) {
                Some((e, t)) => Some((e, T::Opt(Some(Rc::new(t))))),
                None => {
                    if self.oof {
                        return None;
                    }
                    Some((pos, T::Opt(None)))
                }
            },
            X::Rep(x, lo, hi, t, inst) => {
                let mut cur = pos;
                let mut out = vec![];
                while out.len() < *hi {
                    let i = out.len();
                    let m = self.attempt(|r| {
                        let c = if i > 0 { r.triv(*t, *inst, cur)? } else { cur };
                        let m = r.eval(x, env, c);
                        if m.is_none() && c > cur {
                            r.flags |= F_TRIVBACK;
                        }
                        m
                    });
                    if self.oof {
                        return None;
                    }
                    match m {
                        Some((e, n)) => {
                            cur = e;
                            out.push(n);
                        }
                        None if i < *lo => {
                            if i > 0 {
                                self.flags |= F_REPFAIL;
                            }
                            return None;
                        }
                        None => break,
                    }
                }
                if out.len() >= 2 {
                    self.flags |= F_REP2;
                }
                if out.len() == *hi {
                    self.flags |= F_REPMAX;
                }
                Some((cur, T::Rep(out)))
            }
        }
    }
    fn predicate(&mut self, x: &'p X, env: &En<'p>, pos: usize, positive: bool) -> M {
        self.flags |= F_PRED;
        let saved = self.stack.clone();
        let old = std::mem::replace(&mut self.positive, positive);
        let m = self.eval(x, env, pos);
        self.positive = old;
        if self.stack != saved {
            self.flags |= F_ROLLBACK;
        }
        self.stack = saved;
        m
    }
    fn builtin(&mut self, b: B, pos: usize) -> M {
        match b {
            B::Any => {
                let c = self.s[pos..].chars().next()?;
                Some((pos + c.len_utf8(), T::Any(c)))
            }
            B::Soi => (pos == 0).then_some((pos, T::Soi)),
            B::Eoi => (pos == self.s.len()).then_some((pos, T::Eoi)),
            B::Nl => {
                for (t, n) in [("\r\n", "CRLF"), ("\n", "LF"), ("\r", "CR")] {
                    if let Some(e) = self.lit(pos, t) {
                        return Some((e, T::Nl(n)));
                    }
                }
                None
            }
            B::Peek | B::Pop | B::Drop => {
                self.flags |= F_STACK;
                let Some((s, e)) = self.stack.last().copied() else {
                    self.flags |= F_SPECIAL;
                    self.event(pos, Ev::Special("Nothing to pop or drop.".into()));
                    return None;
                };
                if b == B::Drop {
                    self.stack.pop();
                    return Some((pos, T::Drop));
                }
                if b == B::Pop {
                    self.stack.pop();
                }
                let text = &self.s[s..e];
                let end = self.lit(pos, text)?;
                Some((end, if b == B::Pop { T::Pop(text.to_string()) } else { T::Peek(pos, end) }))
            }
            B::PeekAll | B::PopAll => {
                self.flags |= F_STACK;
                let mut cur = pos;
                for (s, e) in self.stack.iter().rev() {
                    cur = self.lit(cur, &self.s[*s..*e])?;
                }
                if b == B::PopAll {
                    self.stack.clear();
                    Some((cur, T::PopAll(pos, cur)))
                } else {
                    Some((cur, T::PeekAll(pos, cur)))
                }
            }
        }
    }
    pub fn report(&self) -> Report {
        let mut groups: BTreeMap<Option<usize>, (Vec<usize>, Vec<usize>, Vec<String>)> = BTreeMap::new();
        for (_, up, ev) in &self.events {
            match ev {
                Ev::Leaf(r, ok, positive) => {
                    if ok != positive {
                        let g = groups.entry(*up).or_default();
                        let v = if *positive { &mut g.0 } else { &mut g.1 };
                        v.push(*r);
                    }
                }
                Ev::Special(m) => groups.entry(*up).or_default().2.push(m.clone()),
            }
        }
        for g in groups.values_mut() {
            g.0.sort();
            g.0.dedup();
            g.1.sort();
            g.1.dedup();
        }
        Report { pos: self.maxpos, groups }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Report {
    pub pos: usize,
    pub groups: BTreeMap<Option<usize>, (Vec<usize>, Vec<usize>, Vec<String>)>,
}


impl Report {
    /// The message part (before layout).
    pub fn message(&self, p: &Prog, s: &str) -> String {
        let names: BTreeMap<usize, &str> = p
            .rules
            .iter()
            .filter(|r| r.rank != usize::MAX)
            .map(|r| (r.rank, r.show.as_str()))
            .chain([(0, "EOI")])
            .collect();
        let ls = s[..self.pos].rfind('\n').map_or(0, |i| i + 1);
        let line = s[..self.pos].matches('\n').count() + 1;
        let ind = format!("\n{}", " ".repeat(line.to_string().len() + 3));
        let mut m = format!("{}^---", &s[ls..self.pos]);
        let list = |v: &[usize]| format!("[{}]", v.iter().map(|r| names[r]).collect::<Vec<_>>().join(", "));
        for (up, (pos, neg, sp)) in &self.groups {
            m.push_str(&ind);
            m.push_str(&match (pos.is_empty(), neg.is_empty()) {
                (true, true) => "Unknown error (no rule tracked)".to_string(),
                (false, true) => format!("Expected {}", list(pos)),
                (true, false) => format!("Unexpected {}", list(neg)),
                (false, false) => format!("Unexpected {}, expected {}", list(neg), list(pos)),
            });
            if let Some(u) = up {
                m.push_str(&format!(", by {}", names[u]));
            }
            m.push('.');
            for x in sp {
                m.push_str(&ind);
                m.push_str(x);
                if let Some(u) = up {
                    m.push_str(&format!(" (By {})", names[u]));
                }
            }
        }
        m
    }
    pub fn display(&self, p: &Prog, s: &str) -> String {
        use pest::error::{Error, ErrorVariant};
        let v = ErrorVariant::<()>::CustomError { message: self.message(p, s) };
        Error::new_from_pos(v, pest::Position::new(s, self.pos).unwrap()).to_string()
    }
}

/// What the model predicts for one rule on one input.
pub struct Outcome {
    pub partial: Option<(usize, T)>,
    pub full: bool,
    pub perr: Option<Report>,
    pub ferr: Option<Report>,
    pub stack: Vec<(usize, usize)>,
    pub flags: u32,
    pub rules_hit: usize,
    pub steps: u64,
}
pub const FUEL: u64 = 60_000;
/// A place within the input, and a stack of pieces before it, to start from.
pub fn middle(s: &str) -> (usize, Vec<(usize, usize)>) {
    let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
    let (a, k) = (b[b.len() / 4], b[b.len() / 2]);
    (k, vec![(0, a), (a, k)])
}
/// `None`: the case is too expensive and is discarded.
pub fn outcome<'p>(p: &'p Prog, rule: usize, args: &'p [X], s: &str) -> Option<Outcome> {
    outcome_fuel(p, rule, args, s, FUEL)
}
pub fn outcome_fuel<'p>(p: &'p Prog, rule: usize, args: &'p [X], s: &str, fuel: u64) -> Option<Outcome> {
    outcome_from(p, rule, args, s, fuel, 0, vec![])
}
pub fn outcome_from<'p>(p: &'p Prog, rule: usize, args: &'p [X], s: &str, fuel: u64, from: usize, stack: Vec<(usize, usize)>) -> Option<Outcome> {
    let mut r = Run::new(p, s, fuel);
    r.maxpos = from;
    r.stack = stack;
    let m = r.call(rule, args, &None, from);
    if r.oof {
        return None;
    }
    let stack = r.stack.clone();
    let perr = m.is_none().then(|| r.report());
    let (full, ferr) = match &m {
        None => (false, Some(r.report())),
        Some((e, _)) => {
            let at_end = *e == s.len();
            r.event(*e, Ev::Leaf(0, at_end, true));
            (at_end, (!at_end).then(|| r.report()))
        }
    };
    Some(Outcome { partial: m, full, perr, ferr, stack, flags: r.flags, rules_hit: r.rules_hit.len(), steps: fuel - r.fuel })
}
