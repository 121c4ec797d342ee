//! Inputs for a grammar: sentences sampled from it, mutations of them, and noise over its
//! own alphabet.
use crate::gen::{TEXTS, WORDS};
use crate::interp::*;
use crate::gram::Triv;
use crate::prop::Src;
use std::rc::Rc;

struct Env<'p> {
    args: &'p [X],
    up: Option<Rc<Env<'p>>>,
}
type En<'p> = Option<Rc<Env<'p>>>;

pub struct Sampler<'p, 's> {
    p: &'p Prog,
    s: &'s mut Src,
    out: String,
    stack: Vec<String>,
    budget: i32,
    /// Go round some open repetition a few hundred times.
    long: bool,
    /// Prefer what refers to rules, for rules nested many times.
    deep: bool,
    limit: usize,
}

const CHARS: &[char] = &['a', 'b', 'c', 'z', '0', '1', '9', 'A', 'Z', ' ', '\n', '\r', '\t', 'é', '嗨', '😀', '/', '-', '\u{1}', '\u{7f}', '"', '\''];

impl<'p, 's> Sampler<'p, 's> {
    pub fn sentence(p: &'p Prog, rule: usize, args: &'p [X], s: &'s mut Src) -> String {
        let long = s.chance(1, 24);
        let deep = s.chance(1, 20);
        let mut x = Sampler { p, s, out: String::new(), stack: vec![], budget: if deep { 700 } else { 120 }, long, deep, limit: if long { 4000 } else { 1500 } };
        x.call(rule, args, &None, 0);
        x.out
    }
    fn triv(&mut self, t: Triv, inst: usize, d: u32) {
        let k = match t {
            Triv::None => return,
            Triv::Opt => 0,
            Triv::Man => 1,
        };
        if let Some(id) = self.p.insts[inst].triv[k] {
            let p = self.p;
            self.go(&p.trivs[id], &None, d + 1)
        }
    }
    fn call(&mut self, r: usize, args: &'p [X], env: &En<'p>, d: u32) {
        let p = self.p;
        let rr = &p.rules[r];
        let e = if rr.argc == 0 { None } else { Some(Rc::new(Env { args, up: env.clone() })) };
        self.go(&rr.body, &e, d + 1)
    }
    fn chr(&mut self, f: impl Fn(char) -> bool, lo: char, hi: char) {
        for _ in 0..3 {
            let c = *self.s.pick(CHARS);
            if f(c) {
                self.out.push(c);
                return;
            }
        }
        let c = if lo <= hi {
            match self.s.n(3) {
                0 => lo,
                1 => hi,
                _ => char::from_u32(lo as u32 + self.s.below((hi as u64 - lo as u64) + 1) as u32).unwrap_or(lo),
            }
        } else {
            lo
        };
        self.out.push(c);
    }
    fn go(&mut self, x: &'p X, env: &En<'p>, d: u32) {
        self.budget -= 1;
        let low = self.budget <= 0 || d > if self.deep { 150 } else { 60 };
        // (Pushing what peek_all writes doubles the text every time.)
        if self.budget < -600 || d > 200 || self.out.len() > self.limit {
            return;
        }
        match x {
            X::Str(t) => self.out.push_str(t),
            X::Ins(t) => {
                let up = self.s.n(3);
                for c in t.chars() {
                    let c = match up {
                        0 => c,
                        1 => c.to_ascii_uppercase(),
                        _ => {
                            if self.s.chance(1, 2) {
                                c.to_ascii_uppercase()
                            } else {
                                c.to_ascii_lowercase()
                            }
                        }
                    };
                    self.out.push(c);
                }
            }
            X::Rng(a, b) => {
                let (a, b) = (*a, *b);
                self.chr(|c| a <= c && c <= b, a, b)
            }
            X::Uni(_, f) => self.chr(|c| f(c), 'x', '\u{4e00}'),
            X::Bi(b) => match b {
                B::Any => self.chr(|_| true, 'a', 'z'),
                B::Soi | B::Eoi => {}
                B::Nl => {
                    let t = *self.s.pick(&["\n", "\r\n", "\r"]);
                    self.out.push_str(t)
                }
                B::Peek => {
                    if let Some(t) = self.stack.last().cloned() {
                        self.out.push_str(&t)
                    }
                }
                B::Pop => {
                    if let Some(t) = self.stack.pop() {
                        self.out.push_str(&t)
                    }
                }
                B::Drop => {
                    self.stack.pop();
                }
                B::PeekAll | B::PopAll => {
                    let v: Vec<String> = self.stack.iter().rev().cloned().collect();
                    for t in v {
                        self.out.push_str(&t)
                    }
                    if *b == B::PopAll {
                        self.stack.clear()
                    }
                }
            },
            X::Slice(a, b) => {
                let n = self.stack.len() as i64;
                let f = |i: i64| (if i < 0 { i + n } else { i }).clamp(0, n) as usize;
                let (s, e) = (f(*a), b.map_or(n as usize, f));
                if s < e {
                    let t = self.stack[s..e].concat();
                    self.out.push_str(&t)
                }
            }
            X::Push(x) => {
                let at = self.out.len();
                self.go(x, env, d + 1);
                let t = self.out[at..].to_string();
                self.stack.push(t);
            }
            X::Param(k) => {
                let e = env.as_ref().unwrap().clone();
                self.go(&e.args[*k], &e.up, d + 1)
            }
            X::Named(_, x) => self.go(x, env, d),
            X::Call(r, a) => self.call(*r, a, env, d),
            X::Pos(_) | X::Neg(_) => {}
            X::Seq(v, inst) => {
                for (t, x) in v {
                    self.triv(*t, *inst, d);
                    self.go(x, env, d + 1);
                }
            }
            X::Cho(v) if self.deep && !low && v.iter().any(refers) && self.s.chance(7, 8) => {
                let w: Vec<usize> = (0..v.len()).filter(|i| refers(&v[*i])).collect();
                let i = *self.s.pick(&w);
                self.go(&v[i], env, d + 1)
            }
            X::Cho(v) => {
                let i = if low { 0 } else { self.s.n(v.len()) };
                self.go(&v[i], env, d + 1)
            }
            X::Opt(x) => {
                if !low && (self.s.chance(1, 2) || self.deep && refers(x)) {
                    self.go(x, env, d + 1)
                }
            }
            X::Rep(x, lo, hi, t, inst) if large(*lo, *hi) => {
                let (l, h) = (*lo as i64, if *hi == usize::MAX { *lo as i64 } else { *hi as i64 });
                let n = *self.s.pick(&[l - 1, l, l + 1, h - 1, h, h, h + 1, h + 1, (l + h) / 2]);
                for i in 0..n {
                    if i > 0 {
                        self.triv(*t, *inst, d);
                    }
                    let b = self.budget;
                    self.go(x, env, d + 1);
                    self.budget = b;
                }
            }
            X::Rep(x, lo, usize::MAX, t, inst) if self.long && !low => {
                self.long = false;
                let n = lo + *self.s.pick(&[64, 127, 128, 129, 255, 256, 257, 300, 600, 1030]);
                let b = self.budget;
                for i in 0..n {
                    if i > 0 {
                        self.budget = 3;
                        self.triv(*t, *inst, d);
                    }
                    self.budget = if n < 300 { 6 } else { 2 };
                    self.go(x, env, d + 1);
                }
                self.budget = b - 60;
            }
            X::Rep(x, lo, hi, t, inst) => {
                let mut n = 0usize;
                while n < *lo || (n == 0 && *hi > 0 && self.deep && !low && refers(x)) || (n < *hi && !low && self.budget > 0 && self.s.chance(3, 5)) {
                    if n > 0 {
                        self.triv(*t, *inst, d);
                    }
                    self.go(x, env, d + 1);
                    n += 1;
                    if n > 40 {
                        break;
                    }
                }
            }
        }
    }
}

/// A rule is called in it.
fn refers(x: &X) -> bool {
    match x {
        X::Call(..) | X::Param(_) => true,
        X::Push(x) | X::Opt(x) | X::Named(_, x) | X::Rep(x, ..) => refers(x),
        X::Cho(v) => v.iter().any(refers),
        X::Seq(v, _) => v.iter().any(|x| refers(&x.1)),
        _ => false,
    }
}

fn large(lo: usize, hi: usize) -> bool {
    lo > 12 || hi != usize::MAX && hi > 12
}
/// Some repetition of the program has a large bound.
fn has_large(p: &Prog) -> bool {
    fn walk(x: &X) -> bool {
        match x {
            X::Rep(x, lo, hi, ..) => large(*lo, *hi) || walk(x),
            X::Push(x) | X::Pos(x) | X::Neg(x) | X::Opt(x) | X::Named(_, x) => walk(x),
            X::Call(_, v) | X::Cho(v) => v.iter().any(walk),
            X::Seq(v, _) => v.iter().any(|x| walk(&x.1)),
            _ => false,
        }
    }
    p.rules.iter().any(|r| walk(&r.body))
}

pub fn mutate(t: &str, s: &mut Src) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let n = 1 + s.n(2);
    for _ in 0..n {
        match s.n(7) {
            0 => {
                if !v.is_empty() {
                    let i = s.n(v.len());
                    v.remove(i);
                }
            }
            1 => {
                let i = s.n(v.len() + 1);
                let c = *s.pick(CHARS);
                v.insert(i, c);
            }
            2 => {
                if !v.is_empty() {
                    let i = s.n(v.len());
                    v[i] = *s.pick(CHARS);
                }
            }
            3 => {
                let i = s.n(v.len() + 1);
                v.truncate(i);
            }
            4 => {
                if !v.is_empty() {
                    let i = s.n(v.len());
                    let j = i + 1 + s.n((v.len() - i).min(6));
                    let j = j.min(v.len());
                    let part: Vec<char> = v[i..j].to_vec();
                    let at = s.n(v.len() + 1);
                    for (k, c) in part.into_iter().enumerate() {
                        v.insert(at + k, c);
                    }
                }
            }
            5 => {
                let w = if s.chance(1, 4) { *s.pick(TEXTS) } else { *s.pick(WORDS) };
                let at = if s.chance(1, 2) { v.len() } else { s.n(v.len() + 1) };
                for (k, c) in w.chars().enumerate() {
                    v.insert(at + k, c);
                }
            }
            _ => {
                if !v.is_empty() {
                    let i = s.n(v.len());
                    let c = v[i];
                    v.insert(i, c);
                }
            }
        }
    }
    v.into_iter().collect()
}

/// All literal texts of a program.
pub fn literals(p: &Prog) -> Vec<String> {
    fn walk(x: &X, out: &mut Vec<String>) {
        match x {
            X::Str(t) | X::Ins(t) => {
                if !t.is_empty() && !out.contains(t) {
                    out.push(t.clone())
                }
            }
            X::Rng(a, b) => {
                for c in [a, b] {
                    let t = c.to_string();
                    if !out.contains(&t) {
                        out.push(t)
                    }
                }
            }
            X::Push(x) | X::Pos(x) | X::Neg(x) | X::Opt(x) | X::Rep(x, ..) | X::Named(_, x) => walk(x, out),
            X::Call(_, v) | X::Cho(v) => v.iter().for_each(|x| walk(x, out)),
            X::Seq(v, _) => v.iter().for_each(|x| walk(&x.1, out)),
            _ => {}
        }
    }
    let mut out = vec![];
    p.rules.iter().for_each(|r| walk(&r.body, &mut out));
    p.trivs.iter().for_each(|x| walk(x, &mut out));
    out
}

pub fn input(p: &Prog, rule: usize, args: &[X], lits: &[String], s: &mut Src) -> String {
    let mut t = match s.weighted(&[5, 4, 1, 1]) {
        0 => Sampler::sentence(p, rule, args, s),
        1 => {
            let t = Sampler::sentence(p, rule, args, s);
            mutate(&t, s)
        }
        2 => {
            let mut t = String::new();
            let n = s.n(8);
            for _ in 0..n {
                if lits.is_empty() || s.chance(1, 4) {
                    t.push(*s.pick(CHARS))
                } else {
                    t.push_str(s.pick(lits))
                }
            }
            t
        }
        _ => {
            let mut t = Sampler::sentence(p, rule, args, s);
            let u = Sampler::sentence(p, rule, args, s);
            t.push_str(&u);
            t
        }
    };
    let cap = if has_large(p) { 1200 } else { 400 };
    if t.len() > cap {
        let mut k = cap;
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        t.truncate(k);
    }
    t
}
