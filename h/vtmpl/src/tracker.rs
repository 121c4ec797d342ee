//! C06: the tracker of failures, driven by histories of calls instead of by parsers.
use pest3_core::error::{ErrorVariant, InputLocation};
use pest3_core::typed::wrapper::Rule as RuleWrapper;
use pest3_core::typed::{RuleType, Tracker};
use pest3_core::Position;
use std::collections::BTreeMap;
use vkit::prop::*;
use vkit::stage::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[allow(clippy::upper_case_acronyms, non_camel_case_types)]
pub enum R {
    EOI,
    delta,
    alpha,
    Charlie,
    bravo,
}
impl RuleType for R {
    const EOI: Self = R::EOI;
}
const ALL: [R; 5] = [R::EOI, R::delta, R::alpha, R::Charlie, R::bravo];
struct Delta;
struct Alpha;
struct Charlie;
struct Bravo;
struct End;
macro_rules! wrap {
    ($($t:ident $r:ident),*) => { $(impl RuleWrapper for $t { type Rule = R; const RULE: R = R::$r; })* };
}
wrap!(Delta delta, Alpha alpha, Charlie Charlie, Bravo bravo, End EOI);

/// A call of the tracker.
#[derive(Clone, Debug)]
enum Op {
    /// A rule that is tried at a place, what happens within it, whether it succeeds, and by
    /// which of the three functions it is recorded.
    Rule(R, usize, Vec<Op>, bool, u8),
    Expect(Vec<Op>),
    Refuse(Vec<Op>),
    TooMany(usize),
    Bounds(usize, isize, Option<isize>),
    Empty(usize),
}

fn ops(s: &mut Src, places: &[usize], at: usize, depth: usize) -> Vec<Op> {
    let mut v = vec![];
    let mut at = at;
    while s.more(v.len(), 0, 5, if depth == 0 { 4 } else { 2 }) {
        // Mostly forward, as parsers do; sometimes anywhere.
        if s.chance(1, 2) {
            at = if s.chance(1, 5) { s.n(places.len()) } else { (at + s.n(3)).min(places.len() - 1) };
        }
        let p = places[at];
        v.push(match s.weighted(&[10, 2, 2, 1, 2, 2]) {
            0 => {
                let r = ALL[s.n(5)];
                let body = if depth < 4 { ops(s, places, at, depth + 1) } else { vec![] };
                Op::Rule(r, p, body, s.chance(2, 5), s.n(3) as u8)
            }
            1 if depth < 4 => Op::Expect(ops(s, places, at, depth + 1)),
            2 if depth < 4 => Op::Refuse(ops(s, places, at, depth + 1)),
            3 => Op::TooMany(p),
            4 => Op::Bounds(p, s.int(-9, 9) as isize, if s.chance(1, 3) { None } else { Some(s.int(-9, 9) as isize) }),
            _ => Op::Empty(p),
        });
    }
    v
}

fn drive<'i>(tr: &mut Tracker<'i, R>, text: &'i str, v: &[Op], odd: &mut Vec<String>) {
    let at = |p: usize| Position::new(text, p).unwrap();
    for op in v {
        match op {
            Op::Rule(r, p, body, good, how) => {
                // What the function gives is passed on.
                let n = tr_value(body.len(), *p);
                let good = *good;
                match how {
                    0 => {
                        let x = tr.record_option_during(
                            at(*p),
                            |tr| {
                                drive(tr, text, body, odd);
                                good.then_some((at(*p), n))
                            },
                            *r,
                        );
                        if x != good.then_some((at(*p), n)) {
                            odd.push(format!("record_option_during gives {x:?}"));
                        }
                    }
                    1 => {
                        let x = match r {
                            R::delta => tr.record_empty_during::<Delta>(at(*p), |tr| inner(tr, text, body, odd, good, *p), *r),
                            _ => tr.record_empty_during::<Bravo>(at(*p), |tr| inner(tr, text, body, odd, good, *p), *r),
                        };
                        if x != good.then_some(at(*p)) {
                            odd.push(format!("record_empty_during gives {x:?}"));
                        }
                    }
                    _ => {
                        let want = if good { Ok((at(*p), 7u8)) } else { Err(n) };
                        let mut f = |tr: &mut Tracker<'i, R>| {
                            drive(tr, text, body, odd);
                            want
                        };
                        let x = match r {
                            R::delta => tr.record_result_during::<Delta2<'_>, usize>(at(*p), |tr| f(tr).map(|x| (x.0, Delta2(x.1, ""))))
                                .map(|x| (x.0, x.1 .0)),
                            R::alpha => tr.record_result_during::<Tag<Alpha>, usize>(at(*p), |tr| f(tr).map(Tag::of)).map(Tag::un),
                            R::Charlie => tr.record_result_during::<Tag<Charlie>, usize>(at(*p), |tr| f(tr).map(Tag::of)).map(Tag::un),
                            R::bravo => tr.record_result_during::<Tag<Bravo>, usize>(at(*p), |tr| f(tr).map(Tag::of)).map(Tag::un),
                            R::EOI => tr.record_result_during::<Tag<End>, usize>(at(*p), |tr| f(tr).map(Tag::of)).map(Tag::un),
                        };
                        if x != want {
                            odd.push(format!("record_result_during gives {x:?}"));
                        }
                    }
                }
            }
            Op::Expect(b) => {
                if tr.positive_during(|tr| {
                    drive(tr, text, b, odd);
                    b.len()
                }) != b.len()
                {
                    odd.push("positive_during changes the result".into());
                }
            }
            Op::Refuse(b) => {
                if tr.negative_during(|tr| {
                    drive(tr, text, b, odd);
                    b.len()
                }) != b.len()
                {
                    odd.push("negative_during changes the result".into());
                }
            }
            Op::TooMany(p) => tr.repeat_too_many_times(at(*p)),
            Op::Bounds(p, a, b) => tr.out_of_bound(at(*p), *a, *b),
            Op::Empty(p) => tr.empty_stack(at(*p)),
        }
    }
}
fn tr_value(a: usize, b: usize) -> usize {
    a * 1000 + b
}
fn inner<'i>(tr: &mut Tracker<'i, R>, text: &'i str, body: &[Op], odd: &mut Vec<String>, good: bool, p: usize) -> Option<Position<'i>> {
    drive(tr, text, body, odd);
    good.then(|| Position::new(text, p).unwrap())
}
/// Values whose type names the rule.
struct Tag<T>(u8, std::marker::PhantomData<T>);
impl<T> Tag<T> {
    fn of(x: (Position<'_>, u8)) -> (Position<'_>, Self) {
        (x.0, Tag(x.1, std::marker::PhantomData))
    }
    fn un(x: (Position<'_>, Self)) -> (Position<'_>, u8) {
        (x.0, x.1 .0)
    }
}
impl<T: RuleWrapper<Rule = R>> RuleWrapper for Tag<T> {
    type Rule = R;
    const RULE: R = T::RULE;
}
struct Delta2<'a>(u8, #[allow(dead_code)] &'a str);
impl RuleWrapper for Delta2<'_> {
    type Rule = R;
    const RULE: R = R::delta;
}

/// What is remembered: only events at the furthest place. A rule counts when no rule was tried
/// within it and it failed where it is expected, or succeeded where it is not. An event belongs
/// to the innermost rule around it that began at another place.
#[derive(Default)]
struct Model {
    far: usize,
    around: Vec<(R, usize, bool)>,
    groups: BTreeMap<Option<R>, (Vec<R>, Vec<R>, Vec<String>)>,
}
impl Model {
    fn at(&mut self, p: usize) -> bool {
        if p > self.far {
            self.far = p;
            self.groups.clear();
        }
        p == self.far
    }
    fn group(&mut self, p: usize) -> &mut (Vec<R>, Vec<R>, Vec<String>) {
        let up = self.around.iter().rev().find(|x| x.1 != p).map(|x| x.0);
        self.groups.entry(up).or_default()
    }
    fn go(&mut self, v: &[Op], positive: bool) {
        for op in v {
            let (p, what) = match op {
                Op::Expect(b) => {
                    self.go(b, true);
                    continue;
                }
                Op::Refuse(b) => {
                    self.go(b, false);
                    continue;
                }
                Op::Rule(r, p, b, good, _) => {
                    if let Some(x) = self.around.last_mut() {
                        x.2 = true;
                    }
                    self.around.push((*r, *p, false));
                    self.go(b, positive);
                    let leaf = !self.around.pop().unwrap().2;
                    if leaf && self.at(*p) && *good != positive {
                        let g = self.group(*p);
                        if positive { &mut g.0 } else { &mut g.1 }.push(*r);
                    }
                    continue;
                }
                Op::TooMany(p) => (*p, "Repeated too many times.".to_string()),
                Op::Bounds(p, a, b) => (*p, format!("Peek slice {a}..{} out of bound.", b.map_or(String::new(), |b| b.to_string()))),
                Op::Empty(p) => (*p, "Nothing to pop or drop.".to_string()),
            };
            if self.at(p) {
                self.group(p).2.push(what);
            }
        }
    }
    fn message(&self, text: &str) -> String {
        let ls = text[..self.far].rfind('\n').map_or(0, |i| i + 1);
        let line = text[..self.far].matches('\n').count() + 1;
        let ind = format!("\n{}", " ".repeat(line.to_string().len() + 3));
        let mut m = format!("{}^---", &text[ls..self.far]);
        for (up, (pos, neg, sp)) in &self.groups {
            m.push_str(&ind);
            m.push_str(&match (pos.is_empty(), neg.is_empty()) {
                (true, true) => "Unknown error (no rule tracked)".to_string(),
                (false, true) => format!("Expected {pos:?}"),
                (true, false) => format!("Unexpected {neg:?}"),
                _ => format!("Unexpected {neg:?}, expected {pos:?}"),
            });
            if let Some(u) = up {
                m.push_str(&format!(", by {u:?}"));
            }
            m.push('.');
            for x in sp {
                m.push_str(&ind);
                m.push_str(x);
                if let Some(u) = up {
                    m.push_str(&format!(" (By {u:?})"));
                }
            }
        }
        m
    }
}

fn text(s: &mut Src) -> String {
    let mut t = String::new();
    let mut n = 0;
    while s.more(n, 0, 14, 7) {
        t.push(*s.pick(&['a', 'b', '\n', ' ', 'é', '嗨', '\u{10348}', '\t']));
        n += 1;
    }
    t
}

fn one(s: &mut Src) -> CaseResult {
    let t = text(s);
    let places: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    let from = if s.chance(1, 2) { 0 } else { s.n(places.len()) };
    let v = ops(s, &places, from, 0);
    let mut m = Model { far: places[from], ..Default::default() };
    m.go(&v, true);
    for g in m.groups.values_mut() {
        for v in [&mut g.0, &mut g.1] {
            v.sort();
            v.dedup();
        }
    }
    let mut odd = vec![];
    let fresh = |odd: &mut Vec<String>| {
        let mut tr = Tracker::<R>::new(Position::new(&t, places[from]).unwrap());
        drive(&mut tr, &t, &v, odd);
        tr
    };
    let ctx = || format!("a tracker from byte {} of {t:?} after {v:?}", places[from]);
    let (pos, got) = fresh(&mut odd).finish();
    if let Some(x) = odd.first() {
        return Err(Fail::new("tracker-result", format!("{}: {x}", ctx())));
    }
    let mut seen = BTreeMap::new();
    for (k, (mut a, mut b, c)) in got {
        a.sort();
        a.dedup();
        b.sort();
        b.dedup();
        let c: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        seen.insert(k, (a, b, c));
    }
    if pos.pos() != m.far {
        return Err(Fail::new("tracker-position", format!("{}: the furthest position is {} instead of {}", ctx(), pos.pos(), m.far)));
    }
    // A group that holds nothing says nothing.
    let full = |g: &BTreeMap<Option<R>, (Vec<R>, Vec<R>, Vec<String>)>| {
        let mut g = g.clone();
        g.retain(|_, g| !(g.0.is_empty() && g.1.is_empty() && g.2.is_empty()));
        g
    };
    if full(&seen) != full(&m.groups) {
        return Err(Fail::new("tracker-attempts", format!("{}: {seen:?} is remembered instead of {:?}", ctx(), m.groups)));
    }
    let e = fresh(&mut vec![]).collect();
    let InputLocation::Pos(p) = e.location else {
        return Err(Fail::new("tracker-location", format!("{}: {:?}", ctx(), e.location)));
    };
    if p != m.far {
        return Err(Fail::new("tracker-location", format!("{}: the error is at {p} instead of {}", ctx(), m.far)));
    }
    let ErrorVariant::CustomError { message } = &e.variant else {
        return Err(Fail::new("tracker-message", format!("{}: {e}", ctx())));
    };
    let want = m.message(&t);
    if *message != want {
        return Err(Fail::new("tracker-message", format!("{}: {message:?} instead of {want:?}", ctx())));
    }
    let mut r = Rep { evals: 1, ..Default::default() };
    if m.groups.len() > 1 {
        r.tag("several groups");
    }
    if m.groups.values().any(|g| !g.2.is_empty()) {
        r.tag("special");
    }
    if m.groups.values().any(|g| !g.1.is_empty()) {
        r.tag("unexpected rules");
    }
    if m.groups.values().any(|g| g.0.len() + g.1.len() > 1) || m.groups.len() > 1 {
        r.keys.push(hash64(format!("{t} {from} {v:?}").as_bytes()));
        r.sample = Some(format!("{} → {want:?}", ctx())).filter(|x| x.len() < 500);
    }
    Ok(r)
}

pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let n = if o.thorough() { 20_000_000 } else { 400_000 };
    search(
        o,
        "tracker-history",
        "a nested history of calls of one tracker: rules recorded by the three functions at places that mostly move forward, expectation turned around, and the three special events, from any first place; one that leaves two or more rules or groups in the report counts",
        n,
        out,
        &one,
    );
}
