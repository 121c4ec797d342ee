//! Abstract grammars (the checks' own syntax tree) and their canonical concrete syntax.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Triv {
    None,
    Opt,
    Man,
}
impl Triv {
    pub fn op(self) -> &'static str {
        match self {
            Triv::None => "-",
            Triv::Opt => "~",
            Triv::Man => "^",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Args {
    None,
    Call(Vec<E>),
    Slice(Option<i64>, Option<i64>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RepK {
    Star,
    Plus,
    /// {n}
    Exact(usize),
    /// {lo..hi}
    Range(Option<usize>, Option<usize>),
}
impl RepK {
    pub fn bounds(&self) -> (usize, usize) {
        match self {
            RepK::Star => (0, usize::MAX),
            RepK::Plus => (1, usize::MAX),
            RepK::Exact(n) => (*n, *n),
            RepK::Range(a, b) => (a.unwrap_or(0), b.unwrap_or(usize::MAX)),
        }
    }
    pub fn text(&self) -> String {
        match self {
            RepK::Star => "*".into(),
            RepK::Plus => "+".into(),
            RepK::Exact(n) => format!("{{{n}}}"),
            RepK::Range(a, b) => format!(
                "{{{}..{}}}",
                a.map(|x| x.to_string()).unwrap_or_default(),
                b.map(|x| x.to_string()).unwrap_or_default()
            ),
        }
    }
}

/// Expression.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Str(String),
    Ins(String),
    Rng(char, char),
    Path(Vec<String>, Args),
    Pos(Box<E>),
    Neg(Box<E>),
    Seq(Box<E>, Box<E>, Triv),
    Cho(Box<E>, Box<E>),
    Opt(Box<E>),
    Rep(Box<E>, RepK, Triv),
}
impl E {
    pub fn name(n: &str) -> E {
        E::Path(vec![n.to_string()], Args::None)
    }
    pub fn path(p: &str) -> E {
        E::Path(p.split("::").map(|s| s.to_string()).collect(), Args::None)
    }
    pub fn seq(a: E, t: Triv, b: E) -> E {
        E::Seq(Box::new(a), Box::new(b), t)
    }
    pub fn cho(a: E, b: E) -> E {
        E::Cho(Box::new(a), Box::new(b))
    }
    pub fn rep(a: E, k: RepK, t: Triv) -> E {
        E::Rep(Box::new(a), k, t)
    }
    /// Right-nested sequence.
    pub fn seqs(mut v: Vec<(Triv, E)>) -> E {
        let (mut t, mut e) = v.pop().unwrap();
        while let Some((t2, x)) = v.pop() {
            e = E::seq(x, t, e);
            t = t2;
        }
        e
    }
    pub fn chos(mut v: Vec<E>) -> E {
        let mut e = v.pop().unwrap();
        while let Some(x) = v.pop() {
            e = E::cho(x, e);
        }
        e
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a E)) {
        f(self);
        match self {
            E::Str(_) | E::Ins(_) | E::Rng(..) => {}
            E::Path(_, a) => {
                if let Args::Call(v) = a {
                    for x in v {
                        x.visit(f)
                    }
                }
            }
            E::Pos(x) | E::Neg(x) | E::Opt(x) | E::Rep(x, _, _) => x.visit(f),
            E::Seq(a, b, _) | E::Cho(a, b) => {
                a.visit(f);
                b.visit(f)
            }
        }
    }
    pub fn map(&self, f: &mut dyn FnMut(&E) -> Option<E>) -> E {
        if let Some(e) = f(self) {
            return e;
        }
        match self {
            E::Str(_) | E::Ins(_) | E::Rng(..) => self.clone(),
            E::Path(p, Args::Call(v)) => {
                let v = v.iter().map(|x| x.map(f)).collect();
                E::Path(p.clone(), Args::Call(v))
            }
            E::Path(..) => self.clone(),
            E::Pos(x) => E::Pos(Box::new(x.map(f))),
            E::Neg(x) => E::Neg(Box::new(x.map(f))),
            E::Opt(x) => E::Opt(Box::new(x.map(f))),
            E::Rep(x, k, t) => E::Rep(Box::new(x.map(f)), k.clone(), *t),
            E::Seq(a, b, t) => {
                let a = a.map(f);
                let b = b.map(f);
                E::Seq(Box::new(a), Box::new(b), *t)
            }
            E::Cho(a, b) => {
                let a = a.map(f);
                let b = b.map(f);
                E::Cho(Box::new(a), Box::new(b))
            }
        }
    }
    pub fn size(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        print(self, 0, &mut s);
        s
    }
}

pub fn esc_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        esc_char(c, &mut o);
    }
    o.push('"');
    o
}
fn esc_char(c: char, o: &mut String) {
    match c {
        '"' => o.push_str("\\\""),
        '\\' => o.push_str("\\\\"),
        '\n' => o.push_str("\\n"),
        '\r' => o.push_str("\\r"),
        '\t' => o.push_str("\\t"),
        '\0' => o.push_str("\\0"),
        '\'' => o.push_str("\\'"),
        c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\x{:02x}", c as u32)),
        c => o.push(c),
    }
}
pub fn esc_chr(c: char) -> String {
    let mut o = String::from("'");
    esc_char(c, &mut o);
    o.push('\'');
    o
}

fn paren(need: bool, s: &mut String, f: impl FnOnce(&mut String)) {
    if need {
        s.push('(');
    }
    f(s);
    if need {
        s.push(')');
    }
}
/// Levels: 0 choice, 1 sequence, 2 prefix, 3 postfix, 4 atom.
fn print(e: &E, lv: u8, s: &mut String) {
    match e {
        E::Str(x) => s.push_str(&esc_str(x)),
        E::Ins(x) => {
            s.push('i');
            s.push_str(&esc_str(x))
        }
        E::Rng(a, b) => {
            s.push_str(&esc_chr(*a));
            s.push_str("..");
            s.push_str(&esc_chr(*b))
        }
        E::Path(p, a) => {
            s.push_str(&p.join("::"));
            match a {
                Args::None => {}
                Args::Call(v) => {
                    s.push('(');
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            s.push_str(", ");
                        }
                        print(x, 0, s);
                    }
                    s.push(')');
                }
                Args::Slice(a, b) => {
                    s.push('[');
                    if let Some(a) = a {
                        s.push_str(&a.to_string());
                    }
                    s.push_str("..");
                    if let Some(b) = b {
                        s.push_str(&b.to_string());
                    }
                    s.push(']');
                }
            }
        }
        E::Pos(x) => paren(lv > 2, s, |s| {
            s.push('&');
            print(x, 2, s)
        }),
        E::Neg(x) => paren(lv > 2, s, |s| {
            s.push('!');
            print(x, 2, s)
        }),
        E::Seq(a, b, t) => paren(lv > 1, s, |s| {
            print(a, 2, s);
            s.push(' ');
            s.push_str(t.op());
            s.push(' ');
            print(b, 1, s)
        }),
        E::Cho(a, b) => paren(lv > 0, s, |s| {
            print(a, 1, s);
            s.push_str(" | ");
            print(b, 0, s)
        }),
        E::Opt(x) => {
            print(x, 3, s);
            s.push('?')
        }
        E::Rep(x, k, t) => {
            print(x, 3, s);
            if *t != Triv::None {
                s.push_str(t.op())
            }
            s.push_str(&k.text())
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rule {
    pub doc: Vec<String>,
    pub name: String,
    pub args: Vec<String>,
    pub silent: bool,
    pub body: E,
}
impl Rule {
    pub fn new(name: &str, body: E) -> Rule {
        Rule { doc: vec![], name: name.into(), args: vec![], silent: false, body }
    }
    pub fn is_trivia(&self) -> bool {
        self.name == "~" || self.name == "^"
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for d in &self.doc {
            s.push_str(&format!("/// {d}\n"));
        }
        s.push_str(&self.name);
        if !self.args.is_empty() {
            s.push_str(&format!("({})", self.args.join(", ")));
        }
        s.push_str(" = ");
        if self.silent {
            s.push('_');
        }
        s.push_str("{ ");
        s.push_str(&self.body.text());
        s.push_str(" }");
        s
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Target {
    Builtin,
    Module(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Import {
    pub path: Vec<String>,
    pub file: Option<String>,
    pub alias: Option<String>,
    pub target: Target,
}
impl Import {
    pub fn local(&self) -> &str {
        self.alias.as_deref().unwrap_or_else(|| self.path.last().unwrap())
    }
    pub fn text(&self) -> String {
        let mut s = format!("use {}", self.path.join("::"));
        if let Some(f) = &self.file {
            s.push_str(" in ");
            s.push_str(&esc_str(f));
        }
        if let Some(a) = &self.alias {
            s.push_str(&format!(" as {a}"));
        }
        s
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Module {
    /// Where it is below the directory of the grammar, if not `m<k>`.
    pub file: Vec<String>,
    pub doc: Vec<String>,
    pub imports: Vec<Import>,
    pub rules: Vec<Rule>,
}
impl Module {
    /// Path of the `k`th module below the directory of the grammar, with its extension.
    pub fn rel(&self, k: usize) -> String {
        if self.file.is_empty() {
            format!("m{k}.pest")
        } else {
            format!("{}.pest", self.file.join("/"))
        }
    }
    /// With files named by their absolute paths.
    pub fn below(&self, dir: &str) -> Module {
        let mut m = self.clone();
        for i in &mut m.imports {
            if let Some(f) = &i.file {
                i.file = Some(format!("{dir}/{f}"));
            }
        }
        m
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for d in &self.doc {
            s.push_str(&format!("//! {d}\n"));
        }
        for i in &self.imports {
            s.push_str(&i.text());
            s.push('\n');
        }
        for r in &self.rules {
            s.push_str(&r.text());
            s.push('\n');
        }
        s
    }
}
/// `mods[0]` is the root.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Grammar {
    pub mods: Vec<Module>,
}
impl Grammar {
    pub fn single(rules: Vec<Rule>) -> Grammar {
        Grammar { mods: vec![Module { rules, ..Default::default() }] }
    }
    pub fn text(&self) -> String {
        self.mods[0].text()
    }
}
