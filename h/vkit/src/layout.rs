//! Prints a grammar in a randomly chosen layout and spelling: all texts it can
//! give for one grammar denote that grammar.
use crate::gram::*;
use crate::prop::Src;

#[derive(Clone, Debug)]
pub struct Style {
    /// chance (of 100) of layout where none is needed, and of more than a space
    pub space: u64,
    /// chance (of 100) that a piece of layout is a comment
    pub comment: u64,
    /// chance (of 100) of a pair of redundant parentheses
    pub paren: u64,
    /// chance (of 100) of an escape where none is needed, or of a raw string
    pub spell: u64,
    /// chance (of 100) of a leading `|`, a trailing comma, empty arguments
    pub extra: u64,
    /// chance (of 100) of a rule without braces
    pub bare: u64,
}
impl Style {
    pub fn gen(s: &mut Src) -> Style {
        let k = s.weighted(&[2, 4, 3]);
        let mut f = |max: u64| if k == 0 { 0 } else { s.below(max + 1) };
        Style { space: f(90), comment: if k == 2 { f(70) } else { 0 }, paren: f(30), spell: f(70), extra: f(40), bare: f(100) }
    }
}
pub struct Laid {
    pub text: String,
    /// Where the rules' names start and their bodies end.
    pub rules: Vec<(usize, usize)>,
}

pub struct Lay<'s> {
    pub s: &'s mut Src,
    pub st: Style,
    pub out: String,
}
fn ident(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
const HEX: [char; 22] = ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F'];

pub fn odd_text(s: &mut Src, max: usize) -> String {
    const P: [&str; 34] = [
        "a", "b", "Z", "0", " ", "_", "\"", "'", "\\", "/", "*", "{", "}", "(", ")", "[", "]", "|", "~", "^", "-", "=", "#", "r#\"", "//", "use ", "é",
        "\u{300}", "嗨", "\u{10ffff}", "\t", "..", "\\n", "\u{2028}",
    ];
    let mut o = String::new();
    let mut i = 0;
    while s.more(i, 0, max, 4) {
        o.push_str(P[s.n(P.len())]);
        i += 1;
    }
    o
}

impl<'s> Lay<'s> {
    pub fn new(s: &'s mut Src, st: Style) -> Self {
        Lay { s, st, out: String::new() }
    }
    fn pct(&mut self, p: u64) -> bool {
        p > 0 && self.s.chance(p, 100)
    }
    /// Any amount of layout, possibly none.
    pub fn gap(&mut self) {
        if !self.pct(self.st.space) {
            return;
        }
        let mut i = 0;
        while self.s.more(i, 1, 4, 1) {
            i += 1;
            if self.pct(self.st.comment) {
                self.comment();
            } else {
                let w = *self.s.pick(&[" ", "\n", "\t", "\r\n", "  ", "\n\n\t"]);
                self.out.push_str(w);
            }
        }
    }
    fn comment(&mut self) {
        if self.s.chance(1, 2) {
            let t = odd_text(self.s, 6);
            self.out.push_str("//");
            if t.starts_with('/') || t.starts_with('!') {
                self.out.push(' ');
            }
            self.out.push_str(&t);
            let nl = *self.s.pick(&["\n", "\r\n"]);
            self.out.push_str(nl);
        } else {
            self.block(0);
        }
    }
    fn block(&mut self, depth: usize) {
        self.out.push_str("/*");
        let mut i = 0;
        while self.s.more(i, 0, 3, 1) {
            i += 1;
            match self.s.weighted(&[4, 2, 1]) {
                0 => {
                    let t = odd_text(self.s, 4).replace(['*', '/'], ".");
                    self.out.push_str(&t);
                }
                // A lone star or slash between blanks closes and opens nothing.
                1 => {
                    let t = *self.s.pick(&[" * ", " / ", "\n", " ** ", " // ", "\r\n", "!", " /// "]);
                    self.out.push_str(t);
                }
                _ if depth < 3 => self.block(depth + 1),
                _ => {}
            }
        }
        self.out.push_str("*/");
    }
    fn need_sep(&self, t: &str) -> bool {
        let (Some(a), Some(b)) = (self.out.chars().last(), t.chars().next()) else { return false };
        ident(a) && ident(b)
    }
    /// A token, after layout.
    pub fn tok(&mut self, t: &str) {
        let at = self.out.len();
        self.gap();
        if self.out.len() == at && self.need_sep(t) {
            self.out.push(' ');
        }
        self.out.push_str(t);
    }
    /// Layout that is easy on the eye where the style is plain.
    fn line(&mut self) {
        if self.st.space < 30 && !self.out.is_empty() {
            self.out.push('\n');
        }
    }

    fn escape(&mut self, c: char, quote: char, string: bool) {
        let must = c == '\\' || (string && c == quote);
        if !must && !self.pct(self.st.spell) {
            // Control characters are readable escaped.
            let plain = !(c.is_control()) || self.s.chance(1, 3);
            if plain {
                self.out.push(c);
                return;
            }
        }
        let v = c as u32;
        let named = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '\r' => Some("\\r"),
            '\n' => Some("\\n"),
            '\t' => Some("\\t"),
            '\0' => Some("\\0"),
            '\'' => Some("\\'"),
            _ => None,
        };
        let k = self.s.weighted(&[if named.is_some() { 4 } else { 0 }, if v < 0x80 { 2 } else { 0 }, 2]);
        let hex = |s: &mut Src, d: u32| HEX[if d < 10 { d as usize } else { d as usize + 6 * s.n(2) }];
        match k {
            0 => self.out.push_str(named.unwrap()),
            1 => {
                self.out.push_str("\\x");
                for d in [v >> 4, v & 15] {
                    let h = hex(self.s, d);
                    self.out.push(h);
                }
            }
            _ => {
                let least = format!("{v:x}").len();
                let n = least + self.s.n(7 - least);
                self.out.push_str("\\u{");
                for i in (0..n).rev() {
                    let h = hex(self.s, (v >> (4 * i)) & 15);
                    self.out.push(h);
                }
                self.out.push('}');
            }
        }
    }
    pub fn string(&mut self, t: &str, prefix: &str) {
        if prefix.is_empty() && self.pct(self.st.spell / 2) {
            let mut most = 0;
            let mut run = None;
            for c in t.chars() {
                match c {
                    '"' => run = Some(0),
                    '#' => run = run.map(|x| x + 1),
                    _ => run = None,
                }
                if let Some(x) = run {
                    most = most.max(x + 1);
                }
            }
            let n = most + self.s.weighted(&[6, 2, 1]);
            let q = "#".repeat(n);
            self.tok(&format!("r{q}\"{t}\"{q}"));
            return;
        }
        self.tok(&format!("{prefix}\""));
        for c in t.chars() {
            self.escape(c, '"', true);
        }
        self.out.push('"');
    }
    pub fn chr(&mut self, c: char) {
        self.tok("'");
        self.escape(c, '\'', false);
        self.out.push('\'');
    }
    pub fn number(&mut self, n: u128) {
        self.tok(&n.to_string());
    }
    fn bar(&mut self) {
        if self.pct(self.st.extra / 8) {
            let t = *self.s.pick(&["~", "^"]);
            self.tok(t);
        }
        self.tok("|");
    }
    /// A whole expression: it may have a leading `|`.
    pub fn expr(&mut self, e: &E) {
        if self.pct(self.st.extra) {
            self.bar();
        }
        self.print(e, 0);
    }
    /// Levels: 0 choice, 1 sequence, 2 prefix, 3 postfix.
    fn print(&mut self, e: &E, lv: u8) {
        let need = match e {
            E::Cho(..) => lv > 0,
            E::Seq(..) => lv > 1,
            E::Pos(..) | E::Neg(..) => lv > 2,
            _ => false,
        };
        if need || self.pct(self.st.paren) {
            self.tok("(");
            // Redundant parentheses can be several.
            if self.pct(self.st.paren / 2) {
                self.tok("(");
                self.expr(e);
                self.tok(")");
            } else {
                self.expr(e);
            }
            self.tok(")");
            return;
        }
        match e {
            E::Str(x) => self.string(x, ""),
            E::Ins(x) => self.string(x, "i"),
            E::Rng(a, b) => {
                self.chr(*a);
                self.tok("..");
                self.chr(*b);
            }
            E::Path(p, a) => {
                for (i, n) in p.iter().enumerate() {
                    if i > 0 {
                        self.tok("::");
                    }
                    self.tok(n);
                }
                match a {
                    Args::None => {}
                    Args::Call(v) => {
                        self.tok("(");
                        for (i, x) in v.iter().enumerate() {
                            if i > 0 {
                                self.tok(",");
                            }
                            self.expr(x);
                        }
                        if !v.is_empty() && self.pct(self.st.extra) {
                            self.tok(",");
                        }
                        self.tok(")");
                    }
                    Args::Slice(a, b) => {
                        self.tok("[");
                        if let Some(a) = a {
                            self.integer(*a);
                        }
                        self.tok("..");
                        if let Some(b) = b {
                            self.integer(*b);
                        }
                        self.tok("]");
                    }
                }
            }
            E::Pos(x) => {
                self.tok("&");
                self.print(x, 2)
            }
            E::Neg(x) => {
                self.tok("!");
                self.print(x, 2)
            }
            E::Seq(a, b, t) => {
                self.print(a, 2);
                self.tok(t.op());
                self.print(b, 1)
            }
            E::Cho(a, b) => {
                self.print(a, 1);
                self.bar();
                self.print(b, 0)
            }
            E::Opt(x) => {
                self.print(x, 3);
                self.tok("?")
            }
            E::Rep(x, k, t) => {
                self.print(x, 3);
                if *t != Triv::None {
                    self.tok(t.op());
                }
                match k {
                    RepK::Star => self.tok("*"),
                    RepK::Plus => self.tok("+"),
                    RepK::Exact(n) => {
                        self.tok("{");
                        self.number(*n as u128);
                        if self.pct(self.st.extra) {
                            self.tok("..");
                            self.number(*n as u128);
                        }
                        self.tok("}");
                    }
                    RepK::Range(a, b) => {
                        self.tok("{");
                        if let Some(a) = a {
                            self.number(*a as u128);
                        }
                        self.tok("..");
                        if let Some(b) = b {
                            self.number(*b as u128);
                        }
                        self.tok("}");
                    }
                }
            }
        }
    }
    fn integer(&mut self, n: i64) {
        let t = if n >= 0 && self.pct(self.st.spell / 2) { format!("+{n}") } else { n.to_string() };
        self.tok(&t);
    }
    fn docs(&mut self, mark: &str, docs: &[String]) {
        for d in docs {
            self.gap();
            self.out.push_str(mark);
            let sp = *self.s.pick(&[" ", "", "   ", "\t"]);
            // A text that starts with a slash or bang would be another kind of comment only without its mark.
            self.out.push_str(sp);
            self.out.push_str(d);
            let sp = *self.s.pick(&["", " ", "\t "]);
            self.out.push_str(sp);
            let nl = if self.st.space < 30 { "\n" } else { *self.s.pick(&["\n", "\r\n"]) };
            self.out.push_str(nl);
        }
    }
    pub fn import(&mut self, im: &Import) {
        self.tok("use");
        self.out.push(' ');
        for (i, n) in im.path.iter().enumerate() {
            if i > 0 {
                self.tok("::");
            }
            self.tok(n);
        }
        if let Some(f) = &im.file {
            self.tok("in");
            let st = self.st.clone();
            // Not a raw string here.
            self.tok("\"");
            for c in f.chars() {
                self.escape(c, '"', true);
            }
            self.out.push('"');
            self.st = st;
        }
        if let Some(a) = &im.alias {
            self.tok("as");
            self.tok(a);
        }
    }
    /// Returns where the name starts and the body ends.
    pub fn rule(&mut self, r: &Rule) -> (usize, usize) {
        self.docs("///", &r.doc);
        self.tok(&r.name);
        let at = self.out.len() - r.name.len();
        if !r.args.is_empty() || self.pct(self.st.extra / 4) {
            self.tok("(");
            for (i, a) in r.args.iter().enumerate() {
                if i > 0 {
                    self.tok(",");
                }
                self.tok(a);
            }
            if !r.args.is_empty() && self.pct(self.st.extra) {
                self.tok(",");
            }
            self.tok(")");
        }
        self.tok("=");
        if r.silent {
            self.tok("_");
        }
        if self.pct(self.st.bare) {
            self.expr(&r.body);
        } else {
            self.tok("{");
            self.expr(&r.body);
            self.tok("}");
        }
        (at, self.out.len())
    }
    pub fn module(mut self, m: &Module) -> Laid {
        self.docs("//!", &m.doc);
        let mut rules = vec![];
        // Imports are anywhere, in their order.
        let mut im = m.imports.iter().peekable();
        for r in &m.rules {
            while im.peek().is_some() && !(rules.len() > 0 && self.pct(self.st.extra)) {
                self.line();
                self.import(im.next().unwrap());
            }
            self.line();
            rules.push(self.rule(r));
        }
        for i in im {
            self.line();
            self.import(i);
        }
        self.line();
        self.gap();
        Laid { text: self.out, rules }
    }
}

/// Text of a module in a layout of `s`'s choice.
pub fn module(m: &Module, s: &mut Src) -> Laid {
    let st = Style::gen(s);
    Lay::new(s, st).module(m)
}
