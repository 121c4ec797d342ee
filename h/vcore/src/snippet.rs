//! C13: what is displayed of a span or position.
use crate::text::*;
use pest3_core::formatter::FormatOption;
use pest3_core::{Position, Span};
use std::fmt::Write;
use unicode_width::UnicodeWidthStr;
use vkit::prop::*;
use vkit::stage::*;

/// What is written, by whom: plain, through the span, marker or number formatter.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    P,
    S,
    M,
    N,
}
struct Rec {
    k: K,
    out: Vec<(K, String)>,
    /// Fails after so many calls.
    left: usize,
}
impl Rec {
    fn new(left: usize) -> Rec {
        Rec { k: K::P, out: vec![], left }
    }
    fn call(&mut self, k: K, s: &str) -> std::fmt::Result {
        self.k = k;
        self.out.push((k, String::new()));
        let r = self.write_str(s);
        self.k = K::P;
        r
    }
}
impl Write for Rec {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        match self.out.last_mut() {
            Some((k, t)) if *k == self.k => t.push_str(s),
            _ => self.out.push((self.k, s.to_string())),
        }
        Ok(())
    }
}
/// Neighbouring plain pieces in one, no empty ones. Calls of a formatter stay apart.
fn tidy(v: Vec<(K, String)>) -> Vec<(K, String)> {
    let mut out: Vec<(K, String)> = vec![];
    for (k, s) in v {
        if s.is_empty() {
            continue;
        }
        match out.last_mut() {
            Some((K::P, t)) if k == K::P => t.push_str(&s),
            _ => out.push((k, s)),
        }
    }
    out
}
fn vis(s: &str) -> String {
    s.chars()
        .map(|c| match c as u32 {
            0x20 => ' ',
            v if v < 0x20 => char::from_u32(0x2400 + v).unwrap(),
            0x7f => '\u{2421}',
            _ => c,
        })
        .collect()
}
fn width(s: &str) -> usize {
    vis(s).width_cjk()
}
struct Page {
    out: Vec<(K, String)>,
    digits: usize,
}
impl Page {
    fn new(last: usize) -> Page {
        Page { out: vec![], digits: last.to_string().len() }
    }
    fn p(&mut self, s: impl Into<String>) -> &mut Self {
        self.out.push((K::P, s.into()));
        self
    }
    fn k(&mut self, k: K, s: impl Into<String>) -> &mut Self {
        self.out.push((k, s.into()));
        self
    }
    /// The beginning of a line without a number.
    fn bar(&mut self) -> &mut Self {
        let d = self.digits;
        self.p(" ".repeat(d + 1)).k(K::N, "|")
    }
    fn num(&mut self, n: usize) -> &mut Self {
        let d = self.digits;
        self.k(K::N, format!("{n:>d$}")).p(" ").k(K::N, "|").p(" ")
    }
}
/// All lines, with the empty one after a final line feed.
fn all_lines(t: &str) -> Vec<(usize, usize)> {
    let mut l = lines(t);
    if t.is_empty() || t.ends_with('\n') {
        l.push((t.len(), t.len()));
    }
    l
}
fn line_at(t: &str, p: usize) -> usize {
    t[..p].matches('\n').count()
}
fn position_model(t: &str, p: usize) -> Vec<(K, String)> {
    let l = line_at(t, p);
    let (s, e) = all_lines(t)[l];
    let mut g = Page::new(l + 1);
    g.bar().p("\n");
    g.num(l + 1).p(vis(&t[s..e])).p("\n");
    g.bar().p(" ").p(" ".repeat(width(&t[s..p]))).k(K::M, "^").p("\n");
    g.out
}
fn span_model(t: &str, a: usize, b: usize) -> Vec<(K, String)> {
    let first = line_at(t, a);
    // Of the last character covered.
    let last = if a == b { first } else { line_at(t, t[..b].char_indices().last().unwrap().0) };
    let ls = all_lines(t);
    let mut g = Page::new(last + 1);
    let (s, e) = ls[first];
    if first == last {
        g.bar().p("\n");
        g.num(first + 1).p(vis(&t[s..a])).k(K::S, vis(&t[a..b])).p(vis(&t[b..e])).p("\n");
        g.bar().p(" ").p(" ".repeat(width(&t[s..a]))).k(K::M, "^".repeat(width(&t[a..b]))).p("\n");
        return g.out;
    }
    g.bar().p(" ").p(" ".repeat(width(&t[s..a]))).k(K::M, "v").p("\n");
    g.num(first + 1).p(vis(&t[s..a])).k(K::S, vis(&t[a..e])).p("\n");
    for l in first + 1..last {
        if last - first - 1 <= 3 || l == first + 1 || l == last - 1 {
            let (s, e) = ls[l];
            g.num(l + 1).k(K::S, vis(&t[s..e])).p("\n");
        } else if l == first + 2 {
            g.bar().p(" ...\n");
        }
    }
    let (s, e) = ls[last];
    g.num(last + 1).k(K::S, vis(&t[s..b])).p(vis(&t[b..e])).p("\n");
    g.bar().p(" ").p(" ".repeat(width(&t[s..b]).saturating_sub(1))).k(K::M, "^").p("\n");
    g.out
}
fn plain(v: &[(K, String)]) -> String {
    v.iter().map(|x| x.1.as_str()).collect()
}
#[allow(clippy::type_complexity)]
fn rec_opt() -> FormatOption<
    impl FnMut(&str, &mut Rec) -> std::fmt::Result,
    impl FnMut(&str, &mut Rec) -> std::fmt::Result,
    impl FnMut(&str, &mut Rec) -> std::fmt::Result,
> {
    FormatOption::new(
        |s: &str, f: &mut Rec| f.call(K::S, s),
        |s: &str, f: &mut Rec| f.call(K::M, s),
        |s: &str, f: &mut Rec| f.call(K::N, s),
    )
}
fn judge(
    what: &str,
    want: Vec<(K, String)>,
    default: String,
    show: &dyn Fn(&mut Rec) -> std::fmt::Result,
    fail_at: usize,
) -> Result<(), Fail> {
    let want = tidy(want);
    let text = plain(&want);
    if default != text {
        return Err(Fail::new("display", format!("{what} is displayed as\n{default}instead of\n{text}")));
    }
    let mut rec = Rec::new(usize::MAX);
    if show(&mut rec).is_err() {
        return Err(Fail::new("error", format!("{what}: displaying returns an error")));
    }
    let got = tidy(rec.out);
    if got != want {
        return Err(Fail::new("formatters", format!("{what}: the formatters get\n{got:?}\ninstead of\n{want:?}")));
    }
    // A writer that refuses is reported, and nothing is written after.
    let mut rec = Rec::new(fail_at);
    let res = show(&mut rec);
    let part = plain(&rec.out);
    if rec.left == 0 && part != text && (res.is_ok() || !text.starts_with(&part)) {
        return Err(Fail::new("writer's error", format!("{what}: the writer failed after {part:?}, the result is {res:?}")));
    }
    Ok(())
}
fn one(s: &mut Src, t: &str, r: &mut Rep) -> Result<(), Fail> {
    let bs = boundaries(t);
    let i = s.n(bs.len());
    let fail_at = s.n(12);
    r.evals += 1;
    if s.chance(1, 4) {
        let p = bs[i];
        let x = Position::new(t, p).unwrap();
        r.tag("position");
        return judge(&format!("position {p} of {t:?}"), position_model(t, p), x.to_string(), &|f| x.display(f, rec_opt()), fail_at);
    }
    let j = if s.chance(1, 3) { i + s.n(bs.len() - i).min(3) } else { i + s.n(bs.len() - i) };
    let (a, b) = (bs[i], bs[j]);
    let x = Span::new(t, a, b).unwrap();
    let n = line_at(t, b) - line_at(t, a);
    r.tag(match n {
        0 => "span on one line",
        1..=4 => "span of two to five lines",
        _ => "span of more lines",
    });
    if a == b {
        r.tag("empty span");
    }
    if b == t.len() {
        r.tag("up to the end");
    }
    let what = format!("span {a}..{b} of {t:?}");
    judge(&what, span_model(t, a, b), x.to_string(), &|f| x.display(f, rec_opt()), fail_at)?;
    if n > 0 && !t.is_ascii() || n > 4 || b == t.len() {
        r.keys.push(hash64(what.as_bytes()));
    }
    if r.sample.is_none() {
        r.sample = Some(format!("{what}:\n{x}"));
    }
    Ok(())
}
fn snippets(s: &mut Src) -> CaseResult {
    let t = match s.n(12) {
        0 => tall(s),
        1 => long(s),
        _ => text(s, 30),
    };
    let mut r = Rep::default();
    for _ in 0..6 {
        one(s, &t, &mut r)?;
    }
    Ok(r)
}
/// Every span and position of a short text.
fn small(s: &mut Src) -> CaseResult {
    let t = text(s, 9);
    let mut r = Rep::default();
    let bs = boundaries(&t);
    for (i, &a) in bs.iter().enumerate() {
        let x = Position::new(&t, a).unwrap();
        judge(&format!("position {a} of {t:?}"), position_model(&t, a), x.to_string(), &|f| x.display(f, rec_opt()), 3)?;
        for &b in &bs[i..] {
            r.evals += 1;
            let x = Span::new(&t, a, b).unwrap();
            judge(&format!("span {a}..{b} of {t:?}"), span_model(&t, a, b), x.to_string(), &|f| x.display(f, rec_opt()), 5)?;
        }
    }
    if t.contains('\n') {
        r.keys.push(hash64(t.as_bytes()));
    }
    r.sample = Some(format!("every span and position of {t:?}"));
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let k = if o.thorough() { 20 } else { 1 };
    search(o, "snippets", "the span is of several lines with characters not ASCII, of more than five lines, or ends with the text", 250_000 * k, out, &snippets);
    search(o, "every-span", "a text with a line feed, every span and position of which is displayed", 50_000 * k, out, &small);
}
