//! Generator of well-formed grammars (no left recursion, no unbounded repetition of something
//! that can match without consuming), structured so that every construct of the grammar
//! language occurs in every position.
use crate::gram::*;
use crate::prop::Src;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub rules: (usize, usize),
    pub depth: usize,
    /// weights of expression forms
    pub w_lit: u32,
    pub w_ins: u32,
    pub w_rng: u32,
    pub w_blt: u32,
    pub w_uni: u32,
    pub w_ref: u32,
    pub w_seq: u32,
    pub w_cho: u32,
    pub w_opt: u32,
    pub w_rep: u32,
    pub w_pos: u32,
    pub w_neg: u32,
    pub w_stack: u32,
    /// chance (of 100) of each trivia being defined
    pub triv: u64,
    /// weight of `~`/`^` against `-` = 10
    pub w_triv: u32,
    /// chance (of 100) of a trivia rule with odd bodies (stack use, nullable, calling rules)
    pub odd_triv: u64,
    /// chance (of 100) that a rule is silent
    pub silent: u64,
    /// number of meta rules (max), and chance (of 100) that one is silent
    pub metas: usize,
    pub silent_meta: u64,
    /// chance (of 100) that a sequence or choice is long
    pub long: u64,
    pub long_max: usize,
    /// modules besides the root
    pub mods: usize,
    /// chance (of 100) of builtin imports
    pub alias: u64,
    /// chance (of 100) of names out of the odd pool
    pub odd_names: u64,
    pub docs: u64,
    /// multi-byte and line-break text
    pub text: u64,
    pub max_count: usize,
    /// chance (of 100) that a repetition has a large bound (and a body of one character)
    pub big: u64,
    /// chance (of 100) of a literal or range out of all characters
    pub alltext: u64,
    /// chance (of 100) that rules of the root refer to each other in a long ring
    pub ring: u64,
    /// chance (of 1000) that a literal is long
    pub longtext: u64,
    /// chance (of 100) of a property out of all
    pub alluni: u64,
}
impl Cfg {
    pub fn base() -> Cfg {
        Cfg {
            rules: (3, 6),
            depth: 4,
            w_lit: 10,
            w_ins: 2,
            w_rng: 4,
            w_blt: 4,
            w_uni: 1,
            w_ref: 12,
            w_seq: 12,
            w_cho: 9,
            w_opt: 5,
            w_rep: 7,
            w_pos: 2,
            w_neg: 2,
            w_stack: 1,
            triv: 50,
            w_triv: 8,
            odd_triv: 10,
            silent: 15,
            metas: 1,
            silent_meta: 30,
            long: 3,
            long_max: 8,
            mods: 0,
            alias: 5,
            odd_names: 10,
            docs: 10,
            text: 40,
            max_count: 4,
            big: 1,
            alltext: 0,
            ring: 2,
            longtext: 3,
            alluni: 0,
        }
    }
    /// This configuration with its weights shifted at random, and now and then
    /// with forms it does not have, so that grammars differ in what they mix.
    pub fn swarm(&self, s: &mut Src) -> Cfg {
        let mut c = self.clone();
        if s.chance(1, 3) {
            return c;
        }
        for w in [
            &mut c.w_lit, &mut c.w_ins, &mut c.w_rng, &mut c.w_blt, &mut c.w_uni, &mut c.w_ref, &mut c.w_seq, &mut c.w_cho, &mut c.w_opt,
            &mut c.w_rep, &mut c.w_pos, &mut c.w_neg, &mut c.w_stack,
        ] {
            *w = match s.n(8) {
                0 | 1 => w.div_ceil(2),
                2 | 3 => *w * 2 + 1,
                4 if *w < 6 => 0,
                _ => *w,
            };
        }
        if s.chance(1, 3) {
            c.w_stack += 3 + s.n(8) as u32;
        }
        if s.chance(1, 6) {
            c.mods = c.mods.max(1);
        }
        if s.chance(1, 4) {
            c.metas = c.metas.max(2);
        }
        if s.chance(1, 8) {
            (c.long, c.long_max) = (c.long.max(10), c.long_max.max(14));
        }
        if s.chance(1, 8) {
            c.max_count = c.max_count.max(9);
        }
        if s.chance(1, 8) {
            c.alltext = c.alltext.max(30);
        }
        if s.chance(1, 8) {
            c.alluni = c.alluni.max(40);
        }
        if s.chance(1, 5) {
            (c.triv, c.odd_triv) = (c.triv.max(90), c.odd_triv.max(40));
        }
        c
    }
}

#[derive(Clone, Debug)]
struct RefI {
    path: Vec<String>,
    argc: usize,
    nullable: bool,
    /// index in the current module (None: foreign)
    idx: Option<usize>,
}

pub struct Gen<'s> {
    pub s: &'s mut Src,
    pub c: Cfg,
    lits: Vec<String>,
    refs: Vec<RefI>,
    cur: usize,
    params: Vec<String>,
    used: Vec<bool>,
    opt: bool,
    man: bool,
    pub in_trivia: bool,
    /// Which trivia an imported silent meta rule means is left open, so none is generated there.
    no_triv: bool,
    budget: i64,
}

pub const NAMES: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "g", "h", "aa", "ab", "item", "word", "list", "expr", "term", "num", "_x", "_1", "x1", "A_b",
    "Main", "k9", "value", "row", "pair", "sum",
];
/// Names that collide with something in Rust, in the generated code or in the grammar syntax.
pub const ODD: &[&str] = &[
    "type", "fn", "match", "loop", "move", "as_", "r", "i", "use", "in", "as", "assign", "r1", "i_", "mod", "struct", "dyn",
    "async", "true", "pest", "Some", "None", "Ok", "Err", "Vec", "Box", "String", "str", "char", "usize", "bool", "u8", "T0",
    "T1", "TR0", "R", "T", "Rule", "rules", "generics", "wrapper", "unicode", "content", "span", "field_0", "choice_0",
    "matched", "res", "f", "input", "tracker", "stack", "Debug", "Clone", "Default", "Iterator", "std", "core", "pos", "new",
    "any", "push", "pop", "peek", "soi", "eoi", "newline", "ascii", "drop", "Str", "Rep", "Sequence2", "Choice2", "Span",
    "Position", "Parser", "P", "EOI_", "FnMut", "Option", "Result", "Sized", "From", "Into", "u", "W0", "Empty", "Eq",
    "clone", "iter", "deref", "as_ref", "get_rule", "cvt_into", "RULE", "eq", "hash", "fmt", "typed", "vec", "gen", "try",
    "static", "Hash", "Deref", "isize", "Self_", "TypedNode", "Box_", "union", "sequence", "choice_1", "alloc",
];
const PARAMS: &[&str] = &["e", "s", "x", "y", "sep", "body", "a", "b", "T", "type"];
const UNI: &[&str] = &["alphabetic", "uppercase", "lowercase_letter", "white_space", "han", "latin", "number", "emoji", "letter", "math"];
pub const WORDS: &[&str] = &["a", "b", "c", "ab", "ba", "aa", "abc", "1", "2", "12", "(", ")", ",", ";", "x", "aab", "\"", "\\", "A", "Ab", "-", "'"];
pub const TEXTS: &[&str] = &["é", "嗨", "😀", "\n", "\r\n", "\r", "aé", "éa", "ß", "嗨b", "\u{301}", "\t", "\u{0}", "É", "\u{7f}", "ı", "K", "ſ"];
pub const RANGES: &[(char, char)] = &[
    ('a', 'z'), ('a', 'c'), ('0', '9'), ('b', 'b'), ('A', 'Z'), ('a', 'é'), ('é', '嗨'), ('\u{0}', '\u{10ffff}'), ('b', 'a'),
    ('!', '/'), ('\u{80}', '\u{7ff}'), ('\u{10000}', '\u{10ffff}'), ('\u{d7ff}', '\u{e000}'), ('\t', ' '), ('"', '\''), ('[', ']'),
];

impl<'s> Gen<'s> {
    pub fn new(s: &'s mut Src, c: Cfg) -> Self {
        let mut lits = vec![];
        let n = 3 + s.n(4);
        for _ in 0..n {
            let t = if s.chance(c.text, 250) { s.pick(TEXTS).to_string() } else { s.pick(WORDS).to_string() };
            lits.push(t);
        }
        Gen {
            s,
            c,
            lits,
            refs: vec![],
            cur: 0,
            params: vec![],
            used: vec![],
            opt: false,
            man: false,
            in_trivia: false,
            no_triv: false,
            budget: 0,
        }
    }
    fn lit(&mut self, need: bool) -> String {
        if !need && self.s.chance(1, 14) {
            return String::new();
        }
        if self.s.chance(self.c.longtext, 1000) {
            let n = *self.s.pick(&[15usize, 17, 33, 64, 65, 127, 129, 255, 256, 257, 300]);
            let mut t = String::new();
            while t.len() < n {
                match self.s.n(8) {
                    0 => t.push_str(self.s.pick::<&str>(TEXTS)),
                    1 => t.push_str(self.s.pick::<&str>(WORDS)),
                    k => t.push(char::from(b"AbCdeZ"[k - 2])),
                }
            }
            return t;
        }
        let mut t = if self.c.alltext > 0 && self.s.chance(self.c.alltext, 100) {
            let t = crate::layout::odd_text(self.s, 5);
            if need && t.is_empty() { "\\".into() } else { t }
        } else if self.s.chance(1, 8) {
            if self.s.chance(self.c.text, 100) { self.s.pick(TEXTS).to_string() } else { self.s.pick(WORDS).to_string() }
        } else {
            let i = self.s.n(self.lits.len());
            self.lits[i].clone()
        };
        if self.s.chance(1, 12) {
            let i = self.s.n(self.lits.len());
            t.push_str(&self.lits[i].clone());
        }
        t
    }
    fn uni(&mut self) -> String {
        if self.c.alluni > 0 && self.s.chance(self.c.alluni, 100) {
            let all: Vec<&str> = pest::unicode::unicode_property_names().collect();
            return self.s.pick(&all).to_ascii_lowercase();
        }
        self.s.pick(UNI).to_string()
    }
    fn trivop(&mut self) -> Triv {
        let mut w = [10, 0, 0];
        if !self.in_trivia && !self.no_triv {
            if self.opt {
                w[1] = self.c.w_triv;
            }
            if self.man {
                w[2] = self.c.w_triv / 2;
            }
        }
        [Triv::None, Triv::Opt, Triv::Man][self.s.weighted(&w)]
    }
    fn callable(&self, left: bool, need: bool, meta: bool) -> Vec<usize> {
        (0..self.refs.len())
            .filter(|&i| {
                let r = &self.refs[i];
                if r.path.len() == 1 && self.params.contains(&r.path[0]) {
                    return false;
                }
                let own_ok = match r.idx {
                    None => true,
                    Some(k) if r.argc > 0 => k > self.cur,
                    Some(k) => k > self.cur || !left,
                };
                own_ok && (r.argc > 0) == meta && !(need && r.nullable)
            })
            .collect()
    }
    /// Returns the expression and whether it may match without consuming.
    pub fn expr(&mut self, depth: usize, left: bool, need: bool) -> (E, bool) {
        self.budget -= 1;
        let deep = depth > 0 && self.budget > 0;
        let c = self.c.clone();
        let refs = self.callable(left, need, false);
        let metas = if deep { self.callable(left, need, true) } else { vec![] };
        let z = |b: bool, w: u32| if b { w } else { 0 };
        let w = [
            c.w_lit,
            c.w_ins,
            c.w_rng,
            c.w_blt,
            c.w_uni,
            z(!refs.is_empty(), c.w_ref),
            z(deep, c.w_seq),
            z(deep, c.w_cho),
            z(deep && !need, c.w_opt),
            z(deep, c.w_rep),
            z(deep && !need, c.w_pos),
            z(deep && !need, c.w_neg),
            z(!self.in_trivia || c.odd_triv > 0, c.w_stack),
            z(!metas.is_empty(), c.w_ref / 2),
            z(!self.params.is_empty(), c.w_ref),
        ];
        match self.s.weighted(&w) {
            0 => {
                let t = self.lit(need);
                let n = t.is_empty();
                (E::Str(t), n)
            }
            1 => {
                let t = self.lit(need);
                let n = t.is_empty();
                (E::Ins(t), n)
            }
            2 => {
                let k = if self.s.chance(self.c.text, 100) { self.s.n(RANGES.len()) } else { self.s.n(5) };
                let (mut a, mut b) = RANGES[k];
                if self.c.alltext > 0 && self.s.chance(self.c.alltext, 100) {
                    let mut t = crate::layout::odd_text(self.s, 3);
                    t.push(*self.s.pick(&['a', '\'', '\\', '\u{10ffff}', '\0']));
                    a = t.chars().next().unwrap();
                    b = t.chars().last().unwrap();
                    if a > b && self.s.chance(7, 8) {
                        std::mem::swap(&mut a, &mut b);
                    }
                }
                (E::Rng(a, b), false)
            }
            3 => {
                let names = [
                    "any", "ascii_digit", "ascii_alpha", "newline", "ascii_alphanumeric", "ascii_hex_digit", "ascii", "ascii_nonzero_digit",
                    "ascii_bin_digit", "ascii_oct_digit", "ascii_alpha_lower", "ascii_alpha_upper", "eoi", "soi",
                ];
                let k = self.s.n(if need { 12 } else { 14 });
                (E::path(&format!("pest::{}", names[k])), k >= 12)
            }
            4 => {
                let n = self.uni();
                (E::path(&format!("pest::unicode::{n}")), false)
            }
            5 => {
                let i = refs[self.s.n(refs.len())];
                let r = self.refs[i].clone();
                let empty_call = self.s.chance(1, 20);
                (E::Path(r.path, if empty_call { Args::Call(vec![]) } else { Args::None }), r.nullable)
            }
            6 => {
                let n = self.arity();
                let must = if need { self.s.n(n) } else { usize::MAX };
                let mut v = vec![];
                let mut l = left;
                let mut null = true;
                for i in 0..n {
                    let t = if i == 0 { Triv::None } else { self.trivop() };
                    let (e, nu) = self.expr(depth - 1, l, i == must);
                    if !nu {
                        l = false;
                        null = false;
                    }
                    v.push((t, e));
                }
                (E::seqs(v), null)
            }
            7 => {
                let n = self.arity();
                let mut v = vec![];
                let mut null = false;
                for _ in 0..n {
                    let (e, nu) = self.expr(depth - 1, left, need);
                    null |= nu;
                    v.push(e);
                }
                (E::chos(v), null)
            }
            8 => {
                let (e, _) = self.expr(depth - 1, left, false);
                (E::Opt(Box::new(e)), true)
            }
            9 if self.s.chance(self.c.big, 100) => {
                let pool = [13, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300];
                let hi = *self.s.pick(&pool);
                let lo = match self.s.n(4) {
                    0 => hi,
                    1 => self.s.n(hi),
                    2 => hi - 1,
                    _ => usize::from(need),
                };
                let k = match self.s.n(5) {
                    0 => RepK::Exact(hi),
                    1 if !need => RepK::Range(None, Some(hi)),
                    2 => RepK::Range(Some(hi), None),
                    _ => RepK::Range(Some(lo.max(usize::from(need))), Some(hi)),
                };
                let t = if self.s.chance(1, 2) { Triv::None } else { self.trivop() };
                let e = match self.s.n(3) {
                    0 => E::Str(self.s.pick(&["a", "b", "é", "0"]).to_string()),
                    1 => E::Rng('a', 'z'),
                    _ => E::Cho(Box::new(E::Str("ab".into())), Box::new(E::Rng('a', 'c'))),
                };
                (E::rep(e, k.clone(), t), k.bounds().0 == 0)
            }
            9 => {
                let m = self.c.max_count;
                let k = match self.s.weighted(&[z(!need, 4), 3, 2, 3, 2, z(!need, 2), z(!need, 1)]) {
                    0 => RepK::Star,
                    1 => RepK::Plus,
                    2 => RepK::Exact(1 + self.s.n(m)),
                    3 => {
                        let lo = if need { 1 } else { 0 } + self.s.n(m);
                        let hi = lo.max(1) + self.s.n(m);
                        RepK::Range(Some(lo), Some(hi))
                    }
                    4 => RepK::Range(Some(if need { 1 } else { 0 } + self.s.n(m)), None),
                    5 => RepK::Range(None, Some(1 + self.s.n(m))),
                    _ => RepK::Range(None, None),
                };
                let (lo, hi) = k.bounds();
                let body_need = need || hi == usize::MAX;
                let t = self.trivop();
                // later items are to the right of the first one
                let (e, nu) = self.expr(depth - 1, left, body_need);
                (E::rep(e, k, t), nu || lo == 0)
            }
            10 => (E::Pos(Box::new(self.expr(depth - 1, left, false).0)), true),
            11 => (E::Neg(Box::new(self.expr(depth - 1, left, false).0)), true),
            12 => self.stackop(depth, left, need),
            13 => {
                let i = metas[self.s.n(metas.len())];
                let r = self.refs[i].clone();
                let mut args = vec![];
                for _ in 0..r.argc {
                    args.push(self.expr(depth.saturating_sub(2), left, true).0);
                }
                (E::Path(r.path, Args::Call(args)), r.nullable)
            }
            _ => {
                let i = self.s.n(self.params.len());
                self.used[i] = true;
                (E::name(&self.params[i].clone()), false)
            }
        }
    }
    fn arity(&mut self) -> usize {
        if self.s.chance(self.c.long, 100) {
            2 + self.s.n(self.c.long_max - 1)
        } else {
            2 + self.s.n(3)
        }
    }
    fn stackop(&mut self, depth: usize, left: bool, need: bool) -> (E, bool) {
        let p = |n: &str| E::path(&format!("pest::stack::{n}"));
        if need {
            let (e, _) = self.expr(depth.saturating_sub(1), left, true);
            return (E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![e])), false);
        }
        if depth > 1 && self.s.chance(1, 4) {
            return self.stack_use(depth, left);
        }
        match self.s.weighted(&[8, 4, 4, 2, 2, 2, 4]) {
            0 => {
                let (e, n) = self.expr(depth.saturating_sub(1), left, false);
                (E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![e])), n)
            }
            1 => (p("peek"), true),
            2 => (p("pop"), true),
            3 => (p("drop"), true),
            4 => (p("peek_all"), true),
            5 => (p("pop_all"), true),
            _ => {
                let bound = |g: &mut Self| if g.s.chance(1, 4) { None } else { Some(g.s.int(-3, 4)) };
                let a = bound(self);
                let b = bound(self);
                (E::Path(vec!["pest".into(), "stack".into(), "peek".into()], Args::Slice(a, b)), true)
            }
        }
    }
    /// Pushes followed by what uses them.
    fn stack_use(&mut self, depth: usize, left: bool) -> (E, bool) {
        let p = |n: &str| E::path(&format!("pest::stack::{n}"));
        let push = |e: E| E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![e]));
        let (mut l, mut null) = (left, true);
        let mut v = vec![];
        for _ in 0..1 + self.s.n(3) {
            let t = if v.is_empty() { Triv::None } else { self.trivop() };
            let (e, nu) = if self.s.chance(1, 4) {
                let (e, _) = self.expr(depth - 2, l, true);
                let k = *self.s.pick(&[0, 1, 2]);
                let k = [RepK::Star, RepK::Plus, RepK::Range(None, Some(3))][k].clone();
                let nu = k.bounds().0 == 0;
                let t = self.trivop();
                (E::rep(push(e), k, t), nu)
            } else {
                let (e, nu) = self.expr(depth - 2, l, false);
                (push(e), nu)
            };
            if !nu {
                l = false;
                null = false;
            }
            v.push((t, e));
        }
        if self.s.chance(1, 2) {
            let t = self.trivop();
            let (e, nu) = self.expr(depth - 2, l, false);
            l &= nu;
            null &= nu;
            v.push((t, e));
        }
        for _ in 0..1 + self.s.n(3) {
            let t = self.trivop();
            let a = self.s.int(-3, 4);
            let b = if self.s.chance(1, 3) { None } else { Some(self.s.int(-3, 4)) };
            let mut e = match self.s.weighted(&[5, 4, 2, 3, 3, 3]) {
                0 => p("peek"),
                1 => p("pop"),
                2 => p("drop"),
                3 => p("peek_all"),
                4 => p("pop_all"),
                _ => E::Path(vec!["pest".into(), "stack".into(), "peek".into()], Args::Slice(Some(a), b)),
            };
            match self.s.n(10) {
                0 => e = E::Opt(Box::new(e)),
                1 => e = E::Pos(Box::new(e)),
                2 => e = E::rep(e, RepK::Range(None, Some(2)), Triv::None),
                3 => {
                    let (x, _) = self.expr(depth - 2, l, false);
                    e = E::chos(vec![e, x]);
                }
                _ => {}
            }
            v.push((t, e));
        }
        (E::seqs(v), null)
    }
    fn name(&mut self, taken: &mut Vec<String>) -> String {
        loop {
            let n = if self.s.chance(self.c.odd_names, 100) { *self.s.pick(ODD) } else { *self.s.pick(NAMES) };
            let mut n = n.to_string();
            let mut k = 2;
            if taken.contains(&n) {
                while taken.contains(&format!("{n}_{k}")) {
                    k += 1;
                }
                n = format!("{n}_{k}");
            }
            taken.push(n.clone());
            return n;
        }
    }
    fn doc(&mut self) -> Vec<String> {
        let mut v = vec![];
        if self.s.chance(self.c.docs, 100) {
            let n = 1 + self.s.n(2);
            for _ in 0..n {
                v.push(self.s.pick(&["plain text", "A rule.", "say \"hi\" \\ there", "é嗨", "x /* y */ z", "// slashes", "{ brace }"]).to_string());
            }
        }
        v
    }
    /// One module.  `foreign`: rules usable through imports, as (path, argc, nullable).
    pub fn module(&mut self, imports: Vec<Import>, foreign: Vec<(Vec<String>, usize, bool)>, root: bool) -> (Module, Vec<(String, usize, bool)>) {
        let mut taken: Vec<String> = imports.iter().map(|i| i.local().to_string()).collect();
        taken.push("pest".into());
        self.opt = self.s.chance(self.c.triv, 100);
        self.man = self.s.chance(self.c.triv, 160);
        let n = self.c.rules.0 + self.s.n(self.c.rules.1 - self.c.rules.0 + 1);
        let n = if root { n } else { n.min(3) };
        let nm = if self.c.metas == 0 { 0 } else { self.s.n(self.c.metas + 1) };
        // (name, args, silent)
        let mut heads: Vec<(String, Vec<String>, bool)> = vec![];
        for _ in 0..n {
            let nme = self.name(&mut taken);
            let si = self.s.chance(self.c.silent, 100);
            heads.push((nme, vec![], si));
        }
        for _ in 0..nm {
            let nme = self.name(&mut taken);
            let k = 1 + self.s.n(3);
            let mut ps: Vec<String> = vec![];
            for _ in 0..k {
                let q = self.s.pick(PARAMS).to_string();
                if !ps.contains(&q) && q != nme {
                    ps.push(q);
                }
            }
            if ps.is_empty() {
                ps.push("zz".into());
            }
            let si = self.s.chance(self.c.silent_meta, 100);
            heads.push((nme, ps, si));
        }
        // a whitespace rule that trivia may call
        let ws = (self.opt || self.man) && self.s.chance(1, 3);
        if ws {
            let nme = self.name(&mut taken);
            let si = self.s.chance(1, 2);
            heads.push((nme, vec![], si));
        }
        self.refs = foreign.into_iter().map(|(path, argc, nullable)| RefI { path, argc, nullable, idx: None }).collect();
        let base = self.refs.len();
        for (i, h) in heads.iter().enumerate() {
            self.refs.push(RefI { path: vec![h.0.clone()], argc: h.1.len(), nullable: true, idx: Some(i) });
        }
        let mut rules: Vec<Option<Rule>> = heads.iter().map(|_| None).collect();
        for i in (0..heads.len()).rev() {
            self.cur = i;
            let (name, args, silent) = heads[i].clone();
            self.params = args.clone();
            self.used = vec![false; args.len()];
            self.no_triv = !root && silent && !args.is_empty();
            self.budget = 14 + self.s.n(14) as i64;
            let is_ws = ws && i == heads.len() - 1;
            let (mut body, mut null) = if is_ws {
                self.in_trivia = true;
                let blank = E::cho(E::Str(" ".into()), E::Str("\n".into()));
                let r = if self.s.chance(self.c.odd_triv, 150) {
                    // A comment with trivia of its own in it: trivia that is recursive, but never at the same place.
                    let t = if self.opt && (!self.man || self.s.chance(1, 2)) { Triv::Opt } else { Triv::Man };
                    let inner = if self.s.chance(1, 2) { E::Opt(Box::new(E::Str("x".into()))) } else { E::rep(E::Str("x".into()), RepK::Star, t) };
                    let c = E::seq(E::Str("(".into()), t, E::seq(inner, t, E::Str(")".into())));
                    (E::cho(blank, c), false)
                } else {
                    (blank, false)
                };
                self.in_trivia = false;
                r
            } else {
                let d = self.c.depth;
                self.expr(d, true, false)
            };
            // every parameter must be used
            for k in 0..args.len() {
                if !self.used[k] {
                    let t = self.trivop();
                    body = if self.s.chance(1, 3) {
                        E::cho(body, E::name(&args[k]))
                    } else {
                        null = false;
                        E::seq(body, t, E::name(&args[k]))
                    };
                }
            }
            self.refs[base + i].nullable = null;
            let doc = self.doc();
            rules[i] = Some(Rule { doc, name, args, silent, body });
        }
        self.no_triv = false;
        self.params.clear();
        self.used.clear();
        let mut rules: Vec<Rule> = rules.into_iter().map(|r| r.unwrap()).collect();
        let wsname = if ws { Some(heads.last().unwrap().0.clone()) } else { None };
        for (on, nm) in [(self.opt, "~"), (self.man, "^")] {
            if on {
                let body = self.trivia_body(&wsname, nm);
                let at = self.s.n(rules.len() + 1);
                rules.insert(at, Rule { doc: vec![], name: nm.into(), args: vec![], silent: self.s.chance(1, 6), body });
            }
        }
        if root && self.s.chance(self.c.ring, 100) {
            let k = 3 + self.s.n(16);
            let names: Vec<String> = (0..k).map(|_| self.name(&mut taken)).collect();
            let mut ring = vec![];
            let chords = self.s.chance(1, 2);
            for i in 0..k {
                let j = if chords && self.s.chance(1, 8) { self.s.n(k) } else { (i + 1) % k };
                let (a, b) = (E::Str(self.s.pick(&["a", "b", "(", "[a"]).to_string()), E::Str(self.s.pick(&["x", "1", "a", ")"]).to_string()));
                let t = self.trivop();
                let next = E::name(&names[j]);
                let body = match self.s.n(6) {
                    0 => E::seq(a, t, E::Opt(Box::new(next))),
                    1 if chords && self.s.chance(1, 3) => E::seq(a, t, E::rep(next, RepK::Range(None, Some(2)), Triv::None)),
                    2 => E::seq(a, t, E::cho(E::seq(next, t, b.clone()), b)),
                    3 => E::cho(b, E::seq(a, t, next)),
                    _ => E::cho(E::seq(a, t, next), b),
                };
                ring.push(Rule { doc: vec![], name: names[i].clone(), args: vec![], silent: self.s.chance(1, 10), body });
            }
            match self.s.n(5) {
                0..=2 => {}
                3 => ring.reverse(),
                _ => {
                    for i in (1..k).rev() {
                        let j = self.s.n(i + 1);
                        ring.swap(i, j);
                    }
                }
            }
            let at = self.s.n(rules.len() + 1);
            rules.splice(at..at, ring);
        }
        let mut exp: Vec<(String, usize, bool)> = vec![];
        for (i, h) in heads.iter().enumerate() {
            exp.push((h.0.clone(), h.1.len(), self.refs[base + i].nullable));
        }
        let doc = self.doc();
        (Module { file: vec![], doc, imports, rules }, exp)
    }
    fn trivia_body(&mut self, ws: &Option<String>, which: &str) -> E {
        let one = |g: &mut Self| -> E {
            match ws {
                Some(w) if g.s.chance(1, 2) => E::name(w),
                _ => match g.s.n(4) {
                    0 => E::Str(" ".into()),
                    1 => E::cho(E::Str(" ".into()), E::Str("\n".into())),
                    2 => E::cho(E::Str(" ".into()), E::path("pest::newline")),
                    _ => E::chos(vec![E::Str(" ".into()), E::seq(E::Str("/".into()), Triv::None, E::Str("/".into())), E::Str("\t".into())]),
                },
            }
        };
        let x = one(self);
        if self.s.chance(self.c.odd_triv, 100) {
            return match self.s.n(7) {
                6 if which == "^" && self.opt => E::seq(x, Triv::Opt, E::Opt(Box::new(E::Str("\n".into())))),
                0 => E::Path(vec!["pest".into(), "stack".into(), "push".into()], Args::Call(vec![E::rep(x, RepK::Star, Triv::None)])),
                1 => E::seq(E::rep(x, RepK::Star, Triv::None), Triv::None, E::Opt(Box::new(E::path("pest::stack::pop")))),
                2 => E::seq(E::Neg(Box::new(E::Str("a".into()))), Triv::None, E::rep(x, RepK::Star, Triv::None)),
                3 => E::path("pest::stack::peek"),
                4 => E::seq(x, Triv::None, E::Pos(Box::new(E::path("pest::any")))),
                _ => E::rep(x, RepK::Range(None, Some(2)), Triv::None),
            };
        }
        if which == "~" {
            match self.s.n(3) {
                0 => E::rep(x, RepK::Star, Triv::None),
                1 => E::Opt(Box::new(x)),
                _ => E::rep(x, RepK::Range(Some(0), Some(2)), Triv::None),
            }
        } else {
            match self.s.n(3) {
                0 => E::rep(x, RepK::Plus, Triv::None),
                1 => x,
                _ => E::rep(x, RepK::Range(Some(1), Some(2)), Triv::None),
            }
        }
    }
    fn builtin_imports(&mut self, taken: &mut Vec<String>) -> (Vec<Import>, Vec<(Vec<String>, usize, bool)>) {
        let mut im = vec![];
        let mut fo = vec![];
        let opts: &[(&str, &str, bool)] = &[
            ("pest::any", "", false),
            ("pest::ascii_digit", "", false),
            ("pest::unicode", "han", false),
            ("pest::unicode::alphabetic", "", false),
            ("pest::stack", "peek", true),
            ("pest::stack::pop", "", true),
            ("pest::newline", "", false),
        ];
        while self.s.chance(self.c.alias, 100) && im.len() < 3 {
            let (p, sub, nu) = *self.s.pick(opts);
            let mut path: Vec<String> = p.split("::").map(|x| x.to_string()).collect();
            let mut sub = sub.to_string();
            if p.starts_with("pest::unicode") && self.c.alluni > 0 {
                let n = self.uni();
                if sub.is_empty() {
                    path[2] = n;
                } else {
                    sub = n;
                }
            }
            let alias = if self.s.chance(1, 2) { Some(self.name(taken)) } else { None };
            let local = alias.clone().unwrap_or_else(|| path.last().unwrap().clone());
            if alias.is_none() {
                if taken.contains(&local) {
                    continue;
                }
                taken.push(local.clone());
            }
            let mut rp = vec![local];
            if !sub.is_empty() {
                rp.push(sub);
            }
            fo.push((rp, 0, nu));
            im.push(Import { path, file: None, alias, target: Target::Builtin });
        }
        (im, fo)
    }
    fn file(&mut self, k: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        if self.s.chance(1, 3) {
            v.push(self.s.pick(&["sub", "in1", "pest_d"]).to_string());
            if self.s.chance(1, 3) {
                v.push(self.s.pick(&["e", "as", "pest1"]).to_string());
            }
        }
        let n = *self.s.pick(&["m", "m", "m", "pest", "pests", "in", "as", "use", "super", "_", "M"]);
        v.push(format!("{n}{k}"));
        v
    }
    /// A grammar with `cfg.mods` further modules forming an acyclic import graph.
    /// Module k is a file below `<dir>`; the root imports by a path that starts with `<dir>`.
    pub fn grammar(&mut self, dir: &str) -> Grammar {
        let nm = if self.c.mods == 0 { 0 } else { 1 + self.s.n(self.c.mods) };
        let mut mods: Vec<Module> = vec![Module::default(); nm + 1];
        let files: Vec<Vec<String>> = (0..=nm).map(|k| self.file(k)).collect();
        let mut exps: Vec<Vec<(Vec<String>, usize, bool)>> = vec![vec![]; nm + 1];
        for k in (0..=nm).rev() {
            let mut taken: Vec<String> = vec!["pest".into()];
            let mut imports = vec![];
            let mut foreign = vec![];
            for j in k + 1..=nm {
                let must = k == 0 && (j == 1 || nm == j && imports.is_empty());
                if must || self.s.chance(1, 2) {
                    let reps = if self.s.chance(1, 8) { 2 } else { 1 };
                    for rep in 0..reps {
                        let alias = if rep > 0 || self.s.chance(1, 3) { Some(self.name(&mut taken)) } else { None };
                        let (from, to) = (&files[k], &files[j]);
                        let mut path: Vec<String> = if k == 0 {
                            [dir.to_string()].into_iter().chain(to.iter().cloned()).collect()
                        } else {
                            let (a, b) = (&from[..from.len() - 1], &to[..to.len() - 1]);
                            let common = a.iter().zip(b).take_while(|(x, y)| x == y).count();
                            (common..a.len()).map(|_| "super".to_string()).chain(to[common..].iter().cloned()).collect()
                        };
                        let mut file = None;
                        if self.s.chance(1, 12) {
                            // Then the path says nothing but the name.
                            file = Some(format!("{}.pest", to.join("/")));
                            path = vec!["elsewhere".to_string(), path.pop().unwrap()];
                        }
                        let im = Import { path, file, alias, target: Target::Module(j) };
                        if taken.contains(&im.local().to_string()) && im.alias.is_none() {
                            continue;
                        }
                        taken.push(im.local().to_string());
                        for (p, c, n) in &exps[j] {
                            let mut q = vec![im.local().to_string()];
                            q.extend(p.iter().cloned());
                            foreign.push((q, *c, *n));
                        }
                        imports.push(im);
                    }
                }
            }
            let (bi, bf) = self.builtin_imports(&mut taken);
            imports.extend(bi);
            foreign.extend(bf.clone());
            let reexp: Vec<(Vec<String>, usize, bool)> = foreign.iter().filter(|f| f.0.len() > 1 && !bf.contains(f)).cloned().collect();
            let (m, e) = self.module(imports, foreign, k == 0);
            mods[k] = m;
            if k > 0 {
                mods[k].file = files[k].clone();
            }
            exps[k] = e.into_iter().map(|(n, c, u)| (vec![n], c, u)).collect();
            if self.s.chance(1, 2) {
                exps[k].extend(reexp);
            }
        }
        Grammar { mods }
    }
}

pub fn grammar(s: &mut Src, c: &Cfg, dir: &str) -> Grammar {
    Gen::new(s, c.clone()).grammar(dir)
}
