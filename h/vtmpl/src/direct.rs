//! C22: types that are put together by hand, and the functions for writing own nodes.
use pest3_core::choice::*;
use pest3_core::sequence::*;
use pest3_core::typed::template::*;
use pest3_core::typed::wrapper::{Bound, String as Text};
use pest3_core::typed::{NeverFailedTypedNode, RuleType, SuperRule, Tracker, TypedNode};
use pest3_core::{Position, Span, Stack};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vkit::prop::{self, hash64, CaseResult, Fail, Src};
use vkit::stage::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[allow(clippy::upper_case_acronyms)]
pub enum R {
    EOI,
    Other,
}
impl RuleType for R {
    const EOI: Self = R::EOI;
}

/// A node of one's own, with the functions that are there for it.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Letter(char);
impl<'i, Q: RuleType> TypedNode<'i, Q> for Letter {
    fn try_parse_with_partial(mut input: Position<'i>, _: &mut Stack<Span<'i>>, _: &mut Tracker<'i, Q>) -> Option<(Position<'i>, Self)> {
        let c = match_char_by(&mut input, |c| c.is_alphabetic())?;
        Some((input, Letter(c)))
    }
    fn check_with_partial(mut input: Position<'i>, _: &mut Stack<Span<'i>>, _: &mut Tracker<'i, Q>) -> Option<Position<'i>> {
        match_char_by(&mut input, |c| c.is_alphabetic())?;
        Some(input)
    }
}
/// Pushes and pops before it fails: what is there must be put back by whoever goes on after that.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Messy(u32);
fn messy<'i>(mut input: Position<'i>, stack: &mut Stack<Span<'i>>) -> Option<(Position<'i>, Messy)> {
    let start = input;
    let c = match_char_by(&mut input, |_| true)?;
    match c {
        'a' => stack.push(start.span(&input)),
        'b' => {
            stack.pop()?;
        }
        'c' => {
            stack.push(start.span(&input));
            stack.push(start.span(&input));
            if match_char_by(&mut input, |c| c == 'a').is_none() {
                stack.pop();
                stack.pop();
                stack.pop();
                return None;
            }
        }
        _ => {
            stack.pop();
            stack.push(start.span(&input));
            stack.push(start.span(&input));
            return None;
        }
    }
    Some((input, Messy(c as u32)))
}
impl<'i, Q: RuleType> TypedNode<'i, Q> for Messy {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, _: &mut Tracker<'i, Q>) -> Option<(Position<'i>, Self)> {
        messy(input, stack)
    }
    fn check_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, _: &mut Tracker<'i, Q>) -> Option<Position<'i>> {
        messy(input, stack).map(|x| x.0)
    }
}

/// What is between the parts of a sequence: nothing, any number of spaces, or one dash.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Gap<const N: usize>;
/// What gap `n` takes off the front of `t`.
fn gap(n: usize, t: &str) -> Option<usize> {
    match n % 3 {
        0 => t.starts_with('-').then_some(1),
        1 => Some(t.len() - t.trim_start_matches(' ').len()),
        _ => Some(0),
    }
}
impl<'i, Q: RuleType, const N: usize> TypedNode<'i, Q> for Gap<N> {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Q>) -> Option<(Position<'i>, Self)> {
        Self::check_with_partial(input, stack, tracker).map(|p| (p, Gap))
    }
    fn check_with_partial(mut input: Position<'i>, _: &mut Stack<Span<'i>>, _: &mut Tracker<'i, Q>) -> Option<Position<'i>> {
        match N % 3 {
            0 => match_char_by(&mut input, |c| c == '-').map(|_| ())?,
            1 => while match_char_by(&mut input, |c| c == ' ').is_some() {},
            _ => {}
        }
        Some(input)
    }
}

struct Spaces;
impl Text for Spaces {
    const CONTENT: &'static str = "  ";
}
type Sp = Rep<Char<' '>, Empty>;
type Man = RepOnce<Char<' '>, Empty>;
type Two = Choice2<Str<Spaces2>, Char<'-'>>;
#[derive(Clone, PartialEq, Eq, Hash)]
struct Spaces2;
impl Text for Spaces2 {
    const CONTENT: &'static str = Spaces::CONTENT;
}
type MessySp = RepMax<Messy, Empty, 2>;

fn held(stack: &Stack<Span<'_>>) -> Vec<(usize, usize)> {
    stack[0..stack.len()].iter().map(|s| (s.start(), s.end())).collect()
}
fn fill<'i>(t: &'i str, h: &[(usize, usize)]) -> Stack<Span<'i>> {
    let mut s = Stack::new();
    for &(a, b) in h {
        s.push(Span::new(t, a, b).unwrap());
    }
    // Whatever runs from here can be undone as a whole.
    s.snapshot();
    s
}
fn hash(x: &impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// One node in the middle of a text, parsed and checked, with what any caller relies on: the same
/// end and the same stack, nothing done to the snapshots, and a value that is equal to its copy.
fn node<'i, T>(t: &'i str, at: usize, h: &[(usize, usize)]) -> Result<Option<(usize, T)>, (&'static str, String)>
where
    T: TypedNode<'i, R> + Clone + PartialEq + Hash + Debug,
{
    let pos = Position::new(t, at).unwrap();
    let (mut s1, mut t1) = (fill(t, h), Tracker::<R>::new(pos));
    let a = T::try_parse_with_partial(pos, &mut s1, &mut t1);
    let (mut s2, mut t2) = (fill(t, h), Tracker::<R>::new(pos));
    let b = T::check_with_partial(pos, &mut s2, &mut t2);
    if a.as_ref().map(|x| x.0) != b {
        return Err(("parse-check", format!("parsing ends at {:?}, checking at {:?}", a.as_ref().map(|x| x.0.pos()), b.map(|x| x.pos()))));
    }
    if a.is_some() && held(&s1) != held(&s2) {
        return Err(("parse-check-stack", format!("parsing leaves {:?}, checking {:?}", held(&s1), held(&s2))));
    }
    for s in [&mut s1, &mut s2] {
        s.restore();
        if held(s) != h {
            return Err(("snapshots", format!("the stack is {:?} after undoing everything, not {h:?}", held(s))));
        }
    }
    if let Some((_, x)) = &a {
        let y = x.clone();
        if y != *x || hash(&y) != hash(x) || format!("{x:?}") != format!("{y:?}") {
            return Err(("copy", format!("{x:?} and its copy {y:?} differ")));
        }
        // What the same node is a character further on: equal when it shows the same.
        if let Some(c) = t[at..].chars().next() {
            let pos = Position::new(t, at + c.len_utf8()).unwrap();
            if let Some((_, z)) = T::try_parse_with_partial(pos, &mut fill(t, h), &mut Tracker::<R>::new(pos)) {
                let same = format!("{x:?}") == format!("{z:?}");
                if (*x == z) != same || same && hash(x) != hash(&z) {
                    return Err(("equality", format!("{x:?} and {z:?}: equal {}, hashes {:x} and {:x}", *x == z, hash(x), hash(&z))));
                }
            }
        }
    }
    Ok(a.map(|x| (x.0.pos(), x.1)))
}

/// A node that cannot fail: its own entry points against those of every node.
fn never<'i, T>(t: &'i str, at: usize, h: &[(usize, usize)]) -> Result<usize, (&'static str, String)>
where
    T: TypedNode<'i, R> + NeverFailedTypedNode<'i, R> + Hash,
{
    let Some((end, x)) = node::<T>(t, at, h)? else {
        return Err(("never-failed", "it fails".into()));
    };
    let pos = Position::new(t, at).unwrap();
    let mut st = fill(t, h);
    let (p, y) = <T as NeverFailedTypedNode<'i, R>>::parse_with_partial(pos, &mut st);
    if p.pos() != end || y != x {
        return Err(("never-failed", format!("parse_with_partial gives {y:?} up to {}, try_parse_with_partial {x:?} up to {end}", p.pos())));
    }
    let (mut s2, mut t2) = (fill(t, h), Tracker::<R>::new(pos));
    let _ = T::try_parse_with_partial(pos, &mut s2, &mut t2);
    if held(&st) != held(&s2) {
        return Err(("never-failed-stack", format!("parse_with_partial leaves {:?}, try_parse_with_partial {:?}", held(&st), held(&s2))));
    }
    st.restore();
    if held(&st) != h {
        return Err(("snapshots", format!("parse_with_partial: the stack is {:?} after undoing everything, not {h:?}", held(&st))));
    }
    let (p, y) = <T as NeverFailedTypedNode<'i, R>>::parse_partial(t);
    match T::try_parse_partial(t) {
        Ok((q, z)) if p == q && y == z => {}
        Ok((q, z)) => return Err(("never-failed", format!("parse_partial gives {y:?} up to {}, try_parse_partial {z:?} up to {}", p.pos(), q.pos()))),
        Err(e) => return Err(("never-failed", format!("try_parse_partial fails: {e}"))),
    }
    Ok(end)
}

/// A repetition, done by hand from its element and its trivia.
fn repeated<'i, E, TR, const MIN: usize, const MAX: usize>(t: &'i str, at: usize, h: &[(usize, usize)]) -> Result<usize, (&'static str, String)>
where
    E: TypedNode<'i, R> + Clone + PartialEq + Hash + Debug,
    TR: TypedNode<'i, R> + Hash + PartialEq,
{
    type It<E, TR, const MIN: usize, const MAX: usize> = RepMinMax<E, TR, MIN, MAX>;
    if (<It<E, TR, MIN, MAX> as Bound>::MIN, <It<E, TR, MIN, MAX> as Bound>::MAX) != (MIN, MAX) {
        return Err(("bounds", format!("the bounds are {}..{}", <It<E, TR, MIN, MAX> as Bound>::MIN, <It<E, TR, MIN, MAX> as Bound>::MAX)));
    }
    let got = node::<It<E, TR, MIN, MAX>>(t, at, h)?;
    let mut tr = Tracker::<R>::new(Position::new(t, at).unwrap());
    let mut pos = Position::new(t, at).unwrap();
    let mut stack: Vec<(usize, usize)> = h.to_vec();
    let mut want: Vec<E> = vec![];
    while want.len() < MAX {
        let mut s = fill(t, &stack);
        let mut p = pos;
        if !want.is_empty() {
            match TR::try_parse_with_partial(p, &mut s, &mut tr) {
                Some((q, _)) => p = q,
                None => break,
            }
        }
        let Some((q, x)) = E::try_parse_with_partial(p, &mut s, &mut tr) else { break };
        pos = q;
        want.push(x);
        stack = held(&s);
    }
    let good = want.len() >= MIN;
    match (&got, good) {
        (None, false) => return Ok(at),
        (None, true) => return Err(("repetition", format!("{MIN} to {MAX} times: it fails after {want:?}"))),
        (Some((e, x)), good) => {
            if !good || *e != pos.pos() || x.content != want {
                return Err(("repetition", format!("{MIN} to {MAX} times: {x:?} up to {e} instead of {want:?} up to {}", pos.pos())));
            }
            let a: Vec<&E> = x.iter().collect();
            let b: Vec<E> = x.clone().into_iter().collect();
            if a.len() != want.len() || a.iter().zip(&want).any(|(a, b)| **a != *b) || b != want {
                return Err(("iteration", format!("{MIN} to {MAX} times: {a:?} and {b:?} instead of {want:?}")));
            }
        }
    }
    let mut s = fill(t, h);
    let _ = RepMinMax::<E, TR, MIN, MAX>::try_parse_with_partial(Position::new(t, at).unwrap(), &mut s, &mut tr);
    if held(&s) != stack {
        return Err(("repetition-stack", format!("{MIN} to {MAX} times: the stack is {:?} instead of {stack:?}", held(&s))));
    }
    Ok(pos.pos())
}

type Case = (&'static str, fn(&str, usize, &[(usize, usize)]) -> Result<usize, (&'static str, String)>);
macro_rules! cases {
    ($($f:ident < $($t:ty),* > $(const $a:literal $b:expr)?);* $(;)?) => {
        &[$( (concat!(stringify!($f), "<", $(stringify!($t), " ",)* $(stringify!($a), " ", stringify!($b),)? ">"), |t, at, h| $f::<$($t),* $(, $a, $b)?>(t, at, h)) ),*]
    };
}
const M: usize = usize::MAX;
const CASES: &[Case] = cases![
    never<Empty>;
    never<Rep<Letter, Sp>>;
    never<Rep<Letter, Empty>>;
    never<RepMax<Letter, Sp, 3>>;
    never<RepMax<Letter, Man, 4>>;
    never<RepMax<Option<Letter>, Sp, 5>>;
    never<RepMax<Option<Char<'a'>>, Two, 4>>;
    never<RepMax<Rep<Letter, Empty>, Man, 3>>;
    never<RepMax<RepMax<Letter, Empty, 2>, Two, 3>>;
    never<Rep<Messy, Empty>>;
    never<Rep<Messy, Sp>>;
    never<Rep<Messy, Man>>;
    never<RepMax<Messy, MessySp, 4>>;
    never<RepMax<Option<Messy>, Empty, 4>>;
    never<RepMax<RepMax<Messy, Man, 2>, MessySp, 3>>;
    never<RepMax<Option<RepMax<Messy, Empty, 3>>, Sp, 2>>;
    never<RepMax<Messy, Empty, 0>>;
    never<RepMax<Messy, Empty, 1>>;
    never<RepMax<Option<Choice2<Messy, Letter>>, Sp, 3>>;
    never<RepMax<Option<push<Choice2<Letter, any>>>, Sp, 3>>;
    never<RepMax<Option<Positive<Messy>>, Messy, 3>>;
    never<RepMax<Option<Sequence2<Messy, Empty, Messy, Sp>>, Sp, 3>>;
    never<RepMax<Option<pop<'_>>, Empty, 6>>;
    never<RepMax<Option<peek_all<'_>>, Messy, 6>>;
    repeated<Letter, Sp> const 0 { M };
    repeated<Letter, Empty> const 2 { M };
    repeated<Letter, Man> const 1 3;
    repeated<Messy, Empty> const 0 { M };
    repeated<Messy, Sp> const 1 { M };
    repeated<Messy, Man> const 2 4;
    repeated<Messy, MessySp> const 3 3;
    repeated<Messy, Empty> const 0 0;
    repeated<Messy, Empty> const 1 1;
    repeated<Option<Messy>, Empty> const 0 4;
    repeated<Option<Messy>, Man> const 2 5;
    repeated<Option<Messy>, Messy> const 2 5;
    repeated<Choice3<Sequence2<Messy, Empty, Letter, Sp>, Messy, Char<'-'>>, Two> const 0 { M };
    repeated<Sequence3<Option<Messy>, Empty, any, Sp, Negative<Messy>, Empty>, Empty> const 1 { M };
    repeated<SkipChar<'_, 2>, Two> const 0 { M };
    repeated<SkipChar<'_, 3>, Empty> const 1 2;
    repeated<Positive<Messy>, Messy> const 1 6;
    repeated<push<Letter>, pop<'_>> const 1 6;
    repeated<pop<'_>, push<any>> const 1 6;
    repeated<peek<'_>, Option<drop>> const 0 6;
    repeated<Choice2<peek<'_>, push<any>>, Sp> const 0 12;
    repeated<Choice2<PeekSlice2<0, 1>, push<any>>, Empty> const 0 12;
    repeated<Choice2<PeekSlice1<-1>, push<Letter>>, Sp> const 1 12;
    repeated<RepMinMax<Messy, Sp, 1, 2>, Man> const 1 { M };
    repeated<NONE, Empty> const 0 { M };
    repeated<NONE, Empty> const 1 { M };
    repeated<Empty, Char<'a'>> const 0 9;
    repeated<newline, Sp> const 0 { M };
];

fn text(s: &mut Src) -> String {
    let pool: &[char] = s.pick::<&[char]>(&[&['a', 'b'], &['a', 'b', 'c', ' '], &['a', 'b', 'c', ' ', '-', 'x'], &['a', ' ', '嗨', 'é', '\n', '\r', 'c', '1']]);
    let mut t = String::new();
    let mut n = 0;
    while s.more(n, 0, 20, 9) {
        t.push(*s.pick(pool));
        n += 1;
    }
    t
}
fn one(s: &mut Src) -> CaseResult {
    let t = text(s);
    let places: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    let at = if s.chance(1, 2) { 0 } else { places[s.n(places.len())] };
    let mut h = vec![];
    while s.more(h.len(), 0, 5, 2) {
        let a = s.n(places.len());
        let b = (a + s.n(3)).min(places.len() - 1);
        h.push((places[a], places[b]));
    }
    let k = s.n(CASES.len());
    let (name, f) = CASES[k];
    let ctx = || format!("{name} at byte {at} of {t:?}, stack {:?}", h.iter().map(|&(a, b)| &t[a..b]).collect::<Vec<_>>());
    let end = f(&t, at, &h).map_err(|(sig, m)| Fail::new(sig, format!("{}: {m}", ctx())))?;
    let mut r = prop::Rep { evals: 1, ..Default::default() };
    if end > at {
        r.keys.push(hash64(ctx().as_bytes()));
        r.sample = Some(format!("{} → up to {end}", ctx()));
    }
    Ok(r)
}

/// A history of a stack, with parts that are undone when they come to nothing.
#[derive(Clone, Debug)]
enum Op {
    Push(u32),
    Pop,
    Try(Vec<Op>, bool),
    /// As predicates do: undone in any case.
    Look(Vec<Op>),
}
fn ops(s: &mut Src, depth: usize) -> Vec<Op> {
    let mut v = vec![];
    while s.more(v.len(), 0, 8, if depth == 0 { 6 } else { 3 }) {
        v.push(match s.weighted(&[6, 6, 5, 2]) {
            0 => Op::Push(s.n(100) as u32),
            1 => Op::Pop,
            2 if depth < 6 => Op::Try(ops(s, depth + 1), s.chance(1, 2)),
            3 if depth < 6 => Op::Look(ops(s, depth + 1)),
            _ => Op::Pop,
        });
    }
    v
}
fn real<'i>(stack: &mut Stack<Span<'i>>, spans: &[Span<'i>], v: &[Op], log: &mut Vec<String>) {
    for op in v {
        match op {
            Op::Push(n) => stack.push(spans[*n as usize % spans.len()]),
            Op::Pop => {
                stack.pop();
            }
            Op::Try(b, good) => {
                let x = restore_on_none(stack, |stack| {
                    real(stack, spans, b, log);
                    good.then_some(b.len())
                });
                log.push(format!("{x:?}"));
            }
            Op::Look(b) => {
                stack.snapshot();
                real(stack, spans, b, log);
                stack.restore();
            }
        }
        log.push(format!("{:?}", held(stack)));
    }
}
fn model(stack: &mut Vec<(usize, usize)>, spans: &[(usize, usize)], v: &[Op], log: &mut Vec<String>) {
    for op in v {
        match op {
            Op::Push(n) => stack.push(spans[*n as usize % spans.len()]),
            Op::Pop => {
                stack.pop();
            }
            Op::Try(b, good) => {
                let old = stack.clone();
                model(stack, spans, b, log);
                if !good {
                    *stack = old;
                }
                log.push(format!("{:?}", good.then_some(b.len())));
            }
            Op::Look(b) => {
                let old = stack.clone();
                model(stack, spans, b, log);
                *stack = old;
            }
        }
        log.push(format!("{stack:?}"));
    }
}
fn history(s: &mut Src) -> CaseResult {
    let t = "abcdefghij";
    let spans: Vec<Span<'_>> = (0..10).map(|i| Span::new(t, i, i + 1).unwrap()).collect();
    let places: Vec<(usize, usize)> = (0..10).map(|i| (i, i + 1)).collect();
    let v = ops(s, 0);
    let (mut a, mut b) = (vec![], vec![]);
    real(&mut Stack::new(), &spans, &v, &mut a);
    model(&mut vec![], &places, &v, &mut b);
    if a != b {
        let k = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(0);
        return Err(Fail::new("restore_on_none", format!("after {v:?}: step {k} is {:?} instead of {:?}", a.get(k), b.get(k))));
    }
    let mut r = prop::Rep { evals: 1, ..Default::default() };
    let tries = v.iter().filter(|o| matches!(o, Op::Try(b, _) if !b.is_empty())).count();
    if tries > 0 && v.len() > 1 {
        r.keys.push(hash64(format!("{v:?}").as_bytes()));
        r.sample = Some(format!("{v:?} → {:?}", a.last()));
    }
    Ok(r)
}

/// Sequences and choices of every length: parts in order, apart and together.
fn parts(s: &mut Src) -> CaseResult {
    let t: String = {
        let mut t = String::new();
        let mut n = 0;
        while s.more(n, 0, 24, 16) {
            t.push(*s.pick(&['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', '嗨', ' ']));
            n += 1;
        }
        t
    };
    // The same with something between the parts, mostly what has to be there.
    let u: String = {
        let mut u = String::new();
        for i in 0..=s.n(17) {
            if i > 0 || s.n(6) == 0 {
                match s.n(24) {
                    0 => u.push('-'),
                    1 => u.push(' '),
                    _ if i % 3 == 0 => u.push('-'),
                    _ if i % 3 == 1 => u.push_str(["", " ", "  ", "   "][s.n(4)]),
                    _ => {}
                }
            }
            u.push(*s.pick(&['a', 'b', 'c', 'p', '嗨']));
        }
        u
    };
    let chars: Vec<char> = t.chars().collect();
    let mut r = prop::Rep { evals: 1, ..Default::default() };
    macro_rules! seq {
        ($($name:ident [$($i:tt)*] [$($f:ident)*]);*) => { $( {
            type S = $name<$(P<$i>, Empty),*>;
            let n = [$($i),*].len();
            match (node::<S>(&t, 0, &[]).map_err(|(g, m)| Fail::new(g, format!("{} of {t:?}: {m}", stringify!($name))))?, chars.len() >= n) {
                (None, false) => {}
                (Some((e, x)), true) => {
                    let a = { let y = x.as_tuple(); vec![$( y.$i.content ),*] };
                    let b = vec![$( x.$f.content ),*];
                    let c = { let y = x.into_tuple(); vec![$( y.$i.content ),*] };
                    let want = &chars[..n];
                    if a != want || b != want || c != want || e != want.iter().map(|c| c.len_utf8()).sum::<usize>() {
                        return Err(Fail::new("sequence", format!("{} of {t:?}: as_tuple {a:?}, fields {b:?}, into_tuple {c:?}, up to {e}", stringify!($name))));
                    }
                }
                (x, _) => return Err(Fail::new("sequence", format!("{} of {t:?}: {x:?}", stringify!($name)))),
            }
            type G = $name<$(P<$i>, Gap<$i>),*>;
            let want = (|| {
                let (mut at, mut v) = (0, vec![]);
                for i in 0..n {
                    if i > 0 {
                        at += gap(i, &u[at..])?;
                    }
                    let c = u[at..].chars().next()?;
                    at += c.len_utf8();
                    v.push(c);
                }
                Some((at, v))
            })();
            let got = node::<G>(&u, 0, &[]).map_err(|(g, m)| Fail::new(g, format!("{} with gaps of {u:?}: {m}", stringify!($name))))?;
            let got = got.map(|(e, x)| (e, vec![$( x.$f.content ),*]));
            if got != want {
                return Err(Fail::new("gaps", format!("{} with gaps of {u:?}: {got:?} instead of {want:?}", stringify!($name))));
            }
        } )* };
    }
    type P<const N: usize> = any;
    seq!(
        Sequence2 [0 1] [field_0 field_1];
        Sequence3 [0 1 2] [field_0 field_1 field_2];
        Sequence4 [0 1 2 3] [field_0 field_1 field_2 field_3];
        Sequence5 [0 1 2 3 4] [field_0 field_1 field_2 field_3 field_4];
        Sequence6 [0 1 2 3 4 5] [field_0 field_1 field_2 field_3 field_4 field_5];
        Sequence7 [0 1 2 3 4 5 6] [field_0 field_1 field_2 field_3 field_4 field_5 field_6];
        Sequence8 [0 1 2 3 4 5 6 7] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7];
        Sequence9 [0 1 2 3 4 5 6 7 8] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7 field_8];
        Sequence10 [0 1 2 3 4 5 6 7 8 9] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7 field_8 field_9];
        Sequence11 [0 1 2 3 4 5 6 7 8 9 10] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7 field_8 field_9 field_10];
        Sequence12 [0 1 2 3 4 5 6 7 8 9 10 11] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7 field_8 field_9 field_10 field_11];
        Sequence13 [0 1 2 3 4 5 6 7 8 9 10 11 12] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7 field_8 field_9 field_10 field_11 field_12];
        Sequence14 [0 1 2 3 4 5 6 7 8 9 10 11 12 13] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7 field_8 field_9 field_10 field_11 field_12 field_13];
        Sequence15 [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7 field_8 field_9 field_10 field_11 field_12 field_13 field_14];
        Sequence16 [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15] [field_0 field_1 field_2 field_3 field_4 field_5 field_6 field_7 field_8 field_9 field_10 field_11 field_12 field_13 field_14 field_15]
    );
    macro_rules! cho {
        ($($name:ident [$($c:literal)*] [$($g:ident)*]);*) => { $( {
            type S = $name<$(Char<$c>),*>;
            let all = [$($c),*];
            let want = chars.first().and_then(|c| all.iter().position(|x| x == c));
            let got = node::<S>(&t, 0, &[]).map_err(|(g, m)| Fail::new(g, format!("{} of {t:?}: {m}", stringify!($name))))?;
            let which = got.as_ref().map(|(_, x)| {
                let v = [$( x.$g().is_some() ),*];
                (v.iter().position(|x| *x), v.iter().filter(|x| **x).count())
            });
            if which != want.map(|k| (Some(k), 1)) {
                return Err(Fail::new("choice", format!("{} of {t:?}: {which:?} instead of {want:?}", stringify!($name))));
            }
        } )* };
    }
    cho!(
        Choice2 ['a' 'b'] [choice_0 choice_1];
        Choice3 ['a' 'b' 'c'] [choice_0 choice_1 choice_2];
        Choice4 ['a' 'b' 'c' 'd'] [choice_0 choice_1 choice_2 choice_3];
        Choice5 ['a' 'b' 'c' 'd' 'e'] [choice_0 choice_1 choice_2 choice_3 choice_4];
        Choice6 ['a' 'b' 'c' 'd' 'e' 'f'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5];
        Choice7 ['a' 'b' 'c' 'd' 'e' 'f' 'g'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6];
        Choice8 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7];
        Choice9 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h' 'i'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7 choice_8];
        Choice10 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h' 'i' 'j'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7 choice_8 choice_9];
        Choice11 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h' 'i' 'j' 'k'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7 choice_8 choice_9 choice_10];
        Choice12 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h' 'i' 'j' 'k' 'l'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7 choice_8 choice_9 choice_10 choice_11];
        Choice13 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h' 'i' 'j' 'k' 'l' 'm'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7 choice_8 choice_9 choice_10 choice_11 choice_12];
        Choice14 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h' 'i' 'j' 'k' 'l' 'm' 'n'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7 choice_8 choice_9 choice_10 choice_11 choice_12 choice_13];
        Choice15 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h' 'i' 'j' 'k' 'l' 'm' 'n' 'o'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7 choice_8 choice_9 choice_10 choice_11 choice_12 choice_13 choice_14];
        Choice16 ['a' 'b' 'c' 'd' 'e' 'f' 'g' 'h' 'i' 'j' 'k' 'l' 'm' 'n' 'o' 'p'] [choice_0 choice_1 choice_2 choice_3 choice_4 choice_5 choice_6 choice_7 choice_8 choice_9 choice_10 choice_11 choice_12 choice_13 choice_14 choice_15]
    );
    // What wraps a node gives it back, and lets it be changed.
    let k = s.n(1000) as u32;
    let (mut a, mut b) = (Positive::from(Messy(k)), push::from(Messy(k)));
    if a.0 != k || b.0 != k || a.content != Messy(k) || b.content != Messy(k) {
        return Err(Fail::new("wrapper", format!("{a:?} and {b:?} made of {k}")));
    }
    a.0 += 1;
    b.0 += 1;
    if a.content != Messy(k + 1) || b.content != Messy(k + 1) || <R as SuperRule<R>>::cvt_from(R::Other) != R::Other {
        return Err(Fail::new("wrapper", format!("{a:?} and {b:?} made of {k} and increased")));
    }
    if chars.len() > 1 {
        r.keys.push(hash64(t.as_bytes()));
        r.sample = Some(format!("{t:?}"));
    }
    Ok(r)
}

pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let n = |q: usize, t: usize| if o.thorough() { t } else { q };
    search(
        o,
        "composed-nodes",
        "one of the nodes put together by hand, at a place in a text of the letters that matter to it, with pieces of the text on the stack; a match that takes something counts",
        n(3_000_000, 100_000_000),
        out,
        &one,
    );
    search(
        o,
        "undone-parts",
        "a nested history of a stack through restore_on_none and snapshots; one with a part that may be undone, after or before something else, counts",
        n(800_000, 20_000_000),
        out,
        &history,
    );
    search(
        o,
        "every-length",
        "a text, against sequences (with and without something between the parts) and choices of every length and every way to their parts; a text of two or more characters counts",
        n(60_000, 3_000_000),
        out,
        &parts,
    );
}
