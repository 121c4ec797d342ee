//! Linked into the generated runner programs: runs derived parsers and prints what they did.
#![allow(clippy::all)]
use pest3::error::{Error, InputLocation};
use pest3::token::Pair;
use pest3::typed::template as t;
use pest3::typed::{PairContainer, PairTree, RuleType, TypedNode, TypedParser};
use pest3::{Position, Span, Stack};
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Canonical text of a typed node.
pub trait Walk {
    fn walk(&self, o: &mut String);
}
impl<T: Walk + ?Sized> Walk for Box<T> {
    fn walk(&self, o: &mut String) {
        (**self).walk(o)
    }
}
impl<T: Walk> Walk for Option<T> {
    fn walk(&self, o: &mut String) {
        match self {
            None => o.push_str("?-"),
            Some(x) => {
                o.push('?');
                x.walk(o)
            }
        }
    }
}
impl<W: pest3::typed::wrapper::String> Walk for t::Str<W> {
    fn walk(&self, o: &mut String) {
        use pest3::typed::wrapper::String as _;
        write!(o, "S{:?}", self.get_const()).unwrap()
    }
}
impl<W: pest3::typed::wrapper::String> Walk for t::Insens<'_, W> {
    fn walk(&self, o: &mut String) {
        use pest3::typed::wrapper::String as _;
        write!(o, "I{:?}{:?}", self.get_const(), self.content).unwrap()
    }
}
impl<const A: char, const B: char> Walk for t::CharRange<A, B> {
    fn walk(&self, o: &mut String) {
        write!(o, "C{:?}", self.content).unwrap()
    }
}
impl<const C: char> Walk for t::Char<C> {
    fn walk(&self, o: &mut String) {
        write!(o, "S{:?}", C.to_string()).unwrap()
    }
}
impl Walk for t::Empty {
    fn walk(&self, o: &mut String) {
        o.push_str("S\"\"")
    }
}
impl Walk for t::NONE {
    fn walk(&self, o: &mut String) {
        o.push_str("NONE!")
    }
}
impl<const N: usize> Walk for t::SkipChar<'_, N> {
    fn walk(&self, o: &mut String) {
        let v: Vec<String> = self.span.as_str().chars().map(|c| format!("A{c:?}")).collect();
        write!(o, "{{{}}}", v.join(",")).unwrap()
    }
}
impl Walk for t::any {
    fn walk(&self, o: &mut String) {
        write!(o, "A{:?}", self.content).unwrap()
    }
}
impl Walk for t::soi {
    fn walk(&self, o: &mut String) {
        o.push('^')
    }
}
impl Walk for t::eoi {
    fn walk(&self, o: &mut String) {
        o.push('$')
    }
}
impl Walk for t::newline {
    fn walk(&self, o: &mut String) {
        write!(o, "N{:?}", self.content).unwrap()
    }
}
fn sp(s: &Span<'_>, c: char, o: &mut String) {
    write!(o, "{c}{}-{}", s.start(), s.end()).unwrap()
}
impl Walk for t::peek<'_> {
    fn walk(&self, o: &mut String) {
        sp(&self.span, 'k', o)
    }
}
impl Walk for t::peek_all<'_> {
    fn walk(&self, o: &mut String) {
        sp(&self.span, 'K', o)
    }
}
impl Walk for t::pop_all<'_> {
    fn walk(&self, o: &mut String) {
        sp(&self.span, 'Q', o)
    }
}
impl Walk for t::pop<'_> {
    fn walk(&self, o: &mut String) {
        write!(o, "q{:?}", self.span.as_str()).unwrap()
    }
}
impl Walk for t::drop {
    fn walk(&self, o: &mut String) {
        o.push('D')
    }
}
impl<const A: isize> Walk for t::PeekSlice1<A> {
    fn walk(&self, o: &mut String) {
        o.push('L')
    }
}
impl<const A: isize, const B: isize> Walk for t::PeekSlice2<A, B> {
    fn walk(&self, o: &mut String) {
        o.push('L')
    }
}
impl<T: Walk> Walk for t::push<T> {
    fn walk(&self, o: &mut String) {
        o.push_str("P(");
        self.content.walk(o);
        o.push(')')
    }
}
impl<T: Walk> Walk for t::Positive<T> {
    fn walk(&self, o: &mut String) {
        o.push_str("&(");
        self.content.walk(o);
        o.push(')')
    }
}
impl<T> Walk for t::Negative<T> {
    fn walk(&self, o: &mut String) {
        o.push('!')
    }
}
impl<T: Walk, TR, const A: usize, const B: usize> Walk for t::RepMinMax<T, TR, A, B> {
    fn walk(&self, o: &mut String) {
        let n = self.iter().count();
        if n != self.content.len() || !self.iter().zip(&self.content).all(|(a, b)| std::ptr::eq(a, b)) {
            o.push_str("ITER!");
        }
        o.push('{');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push(',')
            }
            x.walk(o)
        }
        o.push('}')
    }
}
macro_rules! uni {
    ($($n:ident)*) => { $(impl Walk for pest3::typed::unicode::$n {
        fn walk(&self, o: &mut String) { write!(o, "C{:?}", self.content).unwrap() }
    })* }
}
uni!(ALPHABETIC BIDI_CONTROL CASE_IGNORABLE CASED CHANGES_WHEN_CASEFOLDED CHANGES_WHEN_CASEMAPPED CHANGES_WHEN_LOWERCASED CHANGES_WHEN_TITLECASED CHANGES_WHEN_UPPERCASED DASH DEFAULT_IGNORABLE_CODE_POINT DEPRECATED DIACRITIC EMOJI EMOJI_COMPONENT EMOJI_MODIFIER EMOJI_MODIFIER_BASE EMOJI_PRESENTATION EXTENDED_PICTOGRAPHIC EXTENDER GRAPHEME_BASE GRAPHEME_EXTEND GRAPHEME_LINK HEX_DIGIT HYPHEN IDS_BINARY_OPERATOR IDS_TRINARY_OPERATOR ID_CONTINUE ID_START IDEOGRAPHIC JOIN_CONTROL LOGICAL_ORDER_EXCEPTION LOWERCASE MATH NONCHARACTER_CODE_POINT OTHER_ALPHABETIC OTHER_DEFAULT_IGNORABLE_CODE_POINT OTHER_GRAPHEME_EXTEND OTHER_ID_CONTINUE OTHER_ID_START OTHER_LOWERCASE OTHER_MATH OTHER_UPPERCASE PATTERN_SYNTAX PATTERN_WHITE_SPACE PREPENDED_CONCATENATION_MARK QUOTATION_MARK RADICAL REGIONAL_INDICATOR SENTENCE_TERMINAL SOFT_DOTTED TERMINAL_PUNCTUATION UNIFIED_IDEOGRAPH UPPERCASE VARIATION_SELECTOR WHITE_SPACE XID_CONTINUE XID_START CASED_LETTER CLOSE_PUNCTUATION CONNECTOR_PUNCTUATION CONTROL CURRENCY_SYMBOL DASH_PUNCTUATION DECIMAL_NUMBER ENCLOSING_MARK FINAL_PUNCTUATION FORMAT INITIAL_PUNCTUATION LETTER LETTER_NUMBER LINE_SEPARATOR LOWERCASE_LETTER MARK MATH_SYMBOL MODIFIER_LETTER MODIFIER_SYMBOL NONSPACING_MARK NUMBER OPEN_PUNCTUATION OTHER OTHER_LETTER OTHER_NUMBER OTHER_PUNCTUATION OTHER_SYMBOL PARAGRAPH_SEPARATOR PRIVATE_USE PUNCTUATION SEPARATOR SPACE_SEPARATOR SPACING_MARK SURROGATE SYMBOL TITLECASE_LETTER UNASSIGNED UPPERCASE_LETTER ADLAM AHOM ANATOLIAN_HIEROGLYPHS ARABIC ARMENIAN AVESTAN BALINESE BAMUM BASSA_VAH BATAK BENGALI BHAIKSUKI BOPOMOFO BRAHMI BRAILLE BUGINESE BUHID CANADIAN_ABORIGINAL CARIAN CAUCASIAN_ALBANIAN CHAKMA CHAM CHEROKEE CHORASMIAN COMMON COPTIC CUNEIFORM CYPRIOT CYPRO_MINOAN CYRILLIC DESERET DEVANAGARI DIVES_AKURU DOGRA DUPLOYAN EGYPTIAN_HIEROGLYPHS ELBASAN ELYMAIC ETHIOPIC GEORGIAN GLAGOLITIC GOTHIC GRANTHA GREEK GUJARATI GUNJALA_GONDI GURMUKHI HAN HANGUL HANIFI_ROHINGYA HANUNOO HATRAN HEBREW HIRAGANA IMPERIAL_ARAMAIC INHERITED INSCRIPTIONAL_PAHLAVI INSCRIPTIONAL_PARTHIAN JAVANESE KAITHI KANNADA KATAKANA KAWI KAYAH_LI KHAROSHTHI KHITAN_SMALL_SCRIPT KHMER KHOJKI KHUDAWADI LAO LATIN LEPCHA LIMBU LINEAR_A LINEAR_B LISU LYCIAN LYDIAN MAHAJANI MAKASAR MALAYALAM MANDAIC MANICHAEAN MARCHEN MASARAM_GONDI MEDEFAIDRIN MEETEI_MAYEK MENDE_KIKAKUI MEROITIC_CURSIVE MEROITIC_HIEROGLYPHS MIAO MODI MONGOLIAN MRO MULTANI MYANMAR NABATAEAN NAG_MUNDARI NANDINAGARI NEW_TAI_LUE NEWA NKO NUSHU NYIAKENG_PUACHUE_HMONG OGHAM OL_CHIKI OLD_HUNGARIAN OLD_ITALIC OLD_NORTH_ARABIAN OLD_PERMIC OLD_PERSIAN OLD_SOGDIAN OLD_SOUTH_ARABIAN OLD_TURKIC OLD_UYGHUR ORIYA OSAGE OSMANYA PAHAWH_HMONG PALMYRENE PAU_CIN_HAU PHAGS_PA PHOENICIAN PSALTER_PAHLAVI REJANG RUNIC SAMARITAN SAURASHTRA SHARADA SHAVIAN SIDDHAM SIGNWRITING SINHALA SOGDIAN SORA_SOMPENG SOYOMBO SUNDANESE SYLOTI_NAGRI SYRIAC TAGALOG TAGBANWA TAI_LE TAI_THAM TAI_VIET TAKRI TAMIL TANGSA TANGUT TELUGU THAANA THAI TIBETAN TIFINAGH TIRHUTA TOTO UGARITIC VAI VITHKUQI WANCHO WARANG_CITI YEZIDI YI ZANABAZAR_SQUARE);

#[macro_export]
macro_rules! walk_seq {
    ($name:ident, $( $f:ident $t:ident $r:ident $i:tt ),*) => {
        impl<$($t: $crate::Walk, $r),*> $crate::Walk for $name<$($t, $r),*> {
            fn walk(&self, o: &mut String) {
                let tuple = self.as_tuple();
                $( if !std::ptr::eq(tuple.$i, &self.$f) { o.push_str("TUPLE!"); } )*
                o.push('[');
                $( if $i > 0 { o.push(','); } self.$f.walk(o); )*
                o.push(']');
            }
        }
    };
}
#[macro_export]
macro_rules! walk_cho {
    ($name:ident, $( $v:ident $t:ident $g:ident $i:tt ),*) => {
        impl<$($t: $crate::Walk),*> $crate::Walk for $name<$($t),*> {
            fn walk(&self, o: &mut String) {
                let mut me = usize::MAX;
                $( if let Self::$v(x) = self {
                    me = $i;
                    o.push_str(concat!(stringify!($i), ":"));
                    x.walk(o);
                } )*
                $( if self.$g().is_some() != (me == $i) { o.push_str("GET!"); } )*
            }
        }
    };
}
include!("arity.rs");

/// Flattens what an accessor returned.
pub trait Flat {
    fn flat(&self, o: &mut Vec<String>);
    /// See the model's `shape`.
    fn shape(&self) -> String;
}
impl<T: Walk> Flat for &T {
    fn flat(&self, o: &mut Vec<String>) {
        let mut s = String::new();
        self.walk(&mut s);
        o.push(s)
    }
    fn shape(&self) -> String {
        "r".into()
    }
}
impl<T: Flat> Flat for Option<T> {
    fn flat(&self, o: &mut Vec<String>) {
        if let Some(x) = self {
            x.flat(o)
        }
    }
    fn shape(&self) -> String {
        self.as_ref().map_or("n".into(), |x| format!("s({})", x.shape()))
    }
}
impl<T: Flat> Flat for Vec<T> {
    fn flat(&self, o: &mut Vec<String>) {
        self.iter().for_each(|x| x.flat(o))
    }
    fn shape(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.shape()).collect::<Vec<_>>().join(","))
    }
}
macro_rules! tup {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Flat),*> Flat for ($($t,)*) {
            fn flat(&self, o: &mut Vec<String>) { $( self.$i.flat(o); )* }
            fn shape(&self) -> String { format!("({})", [$( self.$i.shape() ),*].join(",")) }
        }
    }
}
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

pub fn rule(name: &str, span: &Span<'_>, inner: &dyn Walk, o: &mut String) {
    write!(o, "<{name} {}-{} ", span.start(), span.end()).unwrap();
    inner.walk(o);
    o.push('>')
}
pub fn acc(name: &str, x: impl Flat, o: &mut Vec<String>) {
    let mut v = vec![];
    x.flat(&mut v);
    o.push(format!("{name}={}~{}", v.join(";"), x.shape()));
}

fn err<R: RuleType>(e: &Error<R>) -> String {
    let p = match e.location {
        InputLocation::Pos(p) => p as isize,
        _ => -1,
    };
    format!("err:{p}:{e}")
}
fn ok<T: Walk>(end: usize, x: &T) -> String {
    let mut s = format!("ok:{end}:");
    x.walk(&mut s);
    s
}
fn guard(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(p) => {
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            format!("panic:{m}")
        }
    }
}
fn pair_eq<R: RuleType>(p: &Pair<R>, c: &Pair<String>) -> bool {
    format!("{:?}", p.rule) == c.rule
        && p.start == c.start
        && p.end == c.end
        && p.children.len() == c.children.len()
        && p.children.iter().zip(&c.children).all(|(a, b)| pair_eq(a, b))
}

#[derive(Default)]
pub struct Out {
    pub f: Vec<String>,
}

pub type Acc<T> = fn(&T, &mut Vec<String>);

/// Everything observable about `T` on `input`; `pairs` renders the pair tree if it has one.
pub fn run<'i, T, R, P>(input: &'i str, pairs: &dyn Fn(&T) -> (String, String), accs: &dyn Fn(&T, &mut Vec<String>), out: &mut Out)
where
    R: RuleType,
    T: TypedNode<'i, R> + Walk + Clone + PartialEq + std::fmt::Debug,
    P: TypedParser<R>,
{
    let mut odd = String::new();
    let mut pp_pair = String::new();
    let mut ac = String::new();
    let pp = guard(|| match T::try_parse_partial(input) {
        Ok((p, x)) => {
            let (tree, bad) = pairs(&x);
            pp_pair = tree;
            odd.push_str(&bad);
            let mut v = vec![];
            accs(&x, &mut v);
            ac = v.join("|");
            ok(p.pos(), &x)
        }
        Err(e) => err(&e),
    });
    let mut pf_pair = String::new();
    let pf = guard(|| match T::try_parse(input) {
        Ok(x) => {
            let (tree, bad) = pairs(&x);
            pf_pair = tree;
            odd.push_str(&bad);
            ok(input.len(), &x)
        }
        Err(e) => err(&e),
    });
    let cp = guard(|| match T::check_partial(input) {
        Ok(p) => format!("ok:{}", p.pos()),
        Err(e) => err(&e),
    });
    let cf = guard(|| match T::check(input) {
        Ok(()) => "ok".to_string(),
        Err(e) => err(&e),
    });
    // The parser type's entry points and a second run.
    let again = guard(|| {
        let mut o = String::new();
        let a = P::try_parse::<T>(input).map_err(|e| err(&e));
        let b = T::try_parse(input).map_err(|e| err(&e));
        if a != b {
            o.push_str("TypedParser::try_parse differs from TypedNode::try_parse; ");
        }
        if let (Ok(a), Ok(b)) = (&a, &b) {
            if format!("{a:?}") != format!("{b:?}") || a.clone() != *b {
                o.push_str("equal nodes are not equal (Debug/Clone); ");
            }
        }
        let a = P::try_parse_partial::<T>(input).map(|(p, x)| (p.pos(), x)).map_err(|e| err(&e));
        let b = T::try_parse_partial(input).map(|(p, x)| (p.pos(), x)).map_err(|e| err(&e));
        if a != b {
            o.push_str("TypedParser::try_parse_partial differs from TypedNode::try_parse_partial; ");
        }
        o
    });
    odd.push_str(&again);
    // Low-level entry points: final stack.
    let st = guard(|| {
        let pos = Position::from_start(input);
        let run = |check: bool| {
            let mut stack: Stack<Span<'i>> = Stack::new();
            let mut tr = pest3::typed::Tracker::<R>::new(pos);
            let okd = if check {
                T::check_with_partial(pos, &mut stack, &mut tr).map(|p| p.pos())
            } else {
                T::try_parse_with_partial(pos, &mut stack, &mut tr).map(|(p, _)| p.pos())
            };
            let v: Vec<String> = stack[0..stack.len()].iter().map(|s| format!("{}-{}", s.start(), s.end())).collect();
            // leftovers of snapshots would show here: undo everything
            (okd, v.join(","))
        };
        let (a, sa) = run(false);
        let (b, sb) = run(true);
        if a != b {
            return format!("low-level parse/check disagree: {a:?} {b:?}");
        }
        if a.is_some() && sa != sb {
            return format!("low-level parse/check leave different stacks: {sa} {sb}");
        }
        if a.is_some() {
            format!("[{sa}]")
        } else {
            "-".into()
        }
    });
    // From the middle of the input, with pieces of it on the stack.
    let b: Vec<usize> = (0..=input.len()).filter(|i| input.is_char_boundary(*i)).collect();
    let (a, k) = (b[b.len() / 4], b[b.len() / 2]);
    let (mut ms, mut mf, mut mo) = (String::new(), String::new(), String::new());
    let mp = guard(|| {
        let pos = Position::new(input, k).unwrap();
        let fresh = || {
            let mut stack: Stack<Span<'i>> = Stack::new();
            stack.push(Span::new(input, 0, a).unwrap());
            stack.push(Span::new(input, a, k).unwrap());
            stack.snapshot();
            (stack, pest3::typed::Tracker::<R>::new(pos))
        };
        let show = |stack: &Stack<Span<'i>>| {
            let v: Vec<String> = stack[0..stack.len()].iter().map(|s| format!("{}-{}", s.start(), s.end())).collect();
            format!("[{}]", v.join(","))
        };
        let (mut s1, mut t1) = fresh();
        let p1 = T::try_parse_with_partial(pos, &mut s1, &mut t1);
        let (mut s2, mut t2) = fresh();
        let p2 = T::check_with_partial(pos, &mut s2, &mut t2);
        let (mut s3, mut t3) = fresh();
        let p3 = P::try_parse_with_partial::<T>(pos, &mut s3, &mut t3);
        if p1 != p3 {
            mo.push_str("TypedParser::try_parse_with_partial differs from TypedNode::try_parse_with_partial; ");
        }
        if p1.as_ref().map(|p| p.0) != p2 {
            mo.push_str("try_parse_with_partial and check_with_partial end differently; ");
        } else if p1.is_some() && (show(&s1) != show(&s2) || show(&s1) != show(&s3)) {
            mo.push_str("try_parse_with_partial and check_with_partial leave different stacks; ");
        }
        ms = if p1.is_some() { show(&s1) } else { "-".into() };
        let e1 = p1.is_none().then(|| err(&t1.collect()));
        let e2 = p2.is_none().then(|| err(&t2.collect()));
        let e3 = p3.is_none().then(|| err(&t3.collect()));
        if e1 != e2 || e1 != e3 {
            mo.push_str("the reports of the entry points for a part differ; ");
        }
        let (mut s4, mut t4) = fresh();
        let f1 = T::try_parse_with(pos, &mut s4, &mut t4);
        let (mut s5, mut t5) = fresh();
        let f2 = T::check_with(pos, &mut s5, &mut t5);
        let (mut s6, mut t6) = fresh();
        let f3 = P::try_parse_with::<T>(pos, &mut s6, &mut t6);
        if f1.is_some() != f2 || f1 != f3 {
            mo.push_str("try_parse_with, check_with and TypedParser::try_parse_with disagree; ");
        }
        match (&f1, &p1) {
            (Some(x), Some((p, y))) if x == y && p.pos() == input.len() => {}
            (Some(_), _) => mo.push_str("try_parse_with is not try_parse_with_partial up to the end; "),
            (None, Some((p, _))) if p.pos() == input.len() => mo.push_str("try_parse_with fails where try_parse_with_partial reaches the end; "),
            _ => {}
        }
        // Whoever took a snapshot before can undo all of it, whether it matched or not.
        let all = format!("[0-{a},{a}-{k}]");
        for s in [&mut s1, &mut s2, &mut s3, &mut s4, &mut s5, &mut s6] {
            s.restore();
            if show(s) != all {
                mo.push_str("a snapshot taken before does not bring the stack back; ");
                break;
            }
        }
        let e4 = f1.is_none().then(|| err(&t4.collect()));
        let e5 = (!f2).then(|| err(&t5.collect()));
        let e6 = f3.is_none().then(|| err(&t6.collect()));
        if e4 != e5 || e4 != e6 {
            mo.push_str("the reports of the entry points for the rest differ; ");
        }
        mf = match (f1, e4) {
            (Some(x), _) => ok(input.len(), &x),
            (None, e) => e.unwrap_or_default(),
        };
        match (p1, e1) {
            (Some((p, x)), _) => ok(p.pos(), &x),
            (None, e) => e.unwrap_or_default(),
        }
    });
    out.f = vec![pp, pp_pair, pf, pf_pair, cp, cf, odd, st, ac, mp, ms, mf, mo];
}

/// For non-silent rules.
pub fn pairs<R: RuleType, T: PairTree<R>>(x: &T) -> (String, String) {
    let mut bad = String::new();
    let p: Pair<R> = x.as_pair_tree();
    let c = p.convert(&|r: R| format!("{r:?}"));
    if !pair_eq(&p, &c) {
        bad.push_str("Pair::convert changed the tree; ");
    }
    if x.vec_children_pairs() != p.children {
        bad.push_str("vec_children_pairs differs from the pair's children; ");
    }
    let mut v: Vec<Pair<R>> = vec![];
    x.for_self_or_for_each_child_pair(&mut |q| v.push(q));
    if v.len() != 1 || v[0] != p {
        bad.push_str("for_self_or_for_each_child_pair is not the pair itself; ");
    }
    (show(&p), format!("{bad}{}", if format!("{p}") == show(&p) { "" } else { "Display of Pair is not its tree; " }))
}
fn show<R: RuleType>(p: &Pair<R>) -> String {
    let c: Vec<String> = p.children.iter().map(show).collect();
    format!("{:?}({}, {}, [{}])", p.rule, p.start, p.end, c.join(", "))
}
/// The two ways to the pairs of what a rule holds.
pub fn content<R: RuleType>(mut r: (String, String), a: Vec<Pair<R>>, b: Vec<Pair<R>>) -> (String, String) {
    if a != b {
        r.1.push_str("vec_children_pairs of the content is not what for_each_child_pair visits; ");
    }
    r
}
/// For silent rules: no pair at or below them.
pub fn nopairs<R: RuleType, T: PairContainer<R>>(x: &T) -> (String, String) {
    let mut n = x.vec_children_pairs().len();
    x.for_self_or_for_each_child_pair(&mut |_: Pair<R>| n += 1);
    (String::new(), if n == 0 { String::new() } else { format!("silent rule shows {n} pairs; ") })
}

fn esc(s: &str, o: &mut String) {
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub type Entry = fn(usize, &str, &mut Out);
/// stdin: `grammar entry hexinput` per line; stdout: one line of tab-separated fields each.
pub fn main(table: &[(usize, Entry)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let table: std::collections::HashMap<usize, Entry> = table.iter().copied().collect();
    let h = std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                let mut it = line.split(' ');
                let g: usize = it.next().unwrap().parse().unwrap();
                let r: usize = it.next().unwrap().parse().unwrap();
                let input = String::from_utf8(unhex(it.next().unwrap_or(""))).unwrap();
                let mut out = Out::default();
                (table[&g])(r, &input, &mut out);
                let mut s = String::new();
                for (i, f) in out.f.iter().enumerate() {
                    if i > 0 {
                        s.push('\t');
                    }
                    esc(f, &mut s);
                }
                s.push('\n');
                let mut so = stdout.lock();
                so.write_all(s.as_bytes()).unwrap();
                so.flush().unwrap();
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(101);
    }
}
