//! Generated texts, and the naive view of a text.
use vkit::prop::*;

const PIECES: &[&[&str]] = &[
    &["a", "b", "xyz", "0"],
    &["\n", "\n", "\r\n", "\r", "\n\n"],
    &["中", "嗨", "é", "ß", "∆", "💖", "ｗ"],
    &["\u{301}", "\u{200d}", "\u{200b}", "\u{feff}", "\u{1f468}\u{200d}\u{1f469}", "\u{ad}"],
    &["\t", "\0", "\u{1b}", "\u{7f}", "\u{b}", "\u{c}", "\u{85}", "\u{9f}", " "],
    &["\u{2028}", "\u{2029}", "\u{e000}", "\u{10ffff}", "\u{ffff}"],
];
pub fn text(s: &mut Src, max: usize) -> String {
    let w: &[u32] = s.pick::<&[u32]>(&[&[3, 3, 2, 1, 1, 1], &[2, 5, 0, 0, 0, 0], &[1, 3, 4, 0, 0, 0], &[1, 6, 1, 1, 1, 1], &[5, 1, 1, 1, 1, 0]]);
    let mut t = String::new();
    let mut n = 0;
    while s.more(n, 0, max, 10) {
        n += 1;
        let k = s.weighted(w);
        if s.chance(1, 24) {
            t.push(any_char(s));
        } else {
            t.push_str(s.pick::<&str>(PIECES[k]));
        }
    }
    t
}
/// Of all characters, with a leaning to the ends of the encoding lengths.
pub fn any_char(s: &mut Src) -> char {
    let top = *s.pick(&[0x80u32, 0x100, 0x800, 0x3000, 0x10000, 0x20000, 0x110000]);
    let c = if s.chance(1, 4) { top - 1 - s.n(3) as u32 } else { s.n(top as usize) as u32 };
    char::from_u32(c).unwrap_or('\u{fffd}')
}
/// A few lines, some of which are long: a piece or some pieces many times over.
pub fn long(s: &mut Src) -> String {
    let mut t = String::new();
    let n = 1 + s.n(9);
    for i in 0..n {
        if i > 0 {
            t.push_str(*s.pick(&["\n", "\n", "\r\n", "\n\n"]));
        }
        if s.chance(1, 2) {
            let reps = *s.pick(&[9usize, 31, 33, 64, 65, 79, 81, 127, 129, 257, 400]);
            let k = *s.pick(&[0usize, 0, 2, 2, 3, 4, 5]);
            let piece = s.pick::<&str>(PIECES[k]);
            for _ in 0..reps {
                t.push_str(piece);
            }
        }
        t.push_str(&text(s, 3));
    }
    t
}
/// Many short lines.
pub fn tall(s: &mut Src) -> String {
    let n = *s.pick(&[5usize, 6, 7, 8, 9, 10, 11, 12, 19, 20, 98, 99, 100, 101, 130, 256, 257, 999, 1001]);
    let nl = *s.pick(&["\n", "\r\n"]);
    let mut t = String::new();
    for i in 0..n {
        t.push_str(["", "a", "中b", "x\ty"][(i * 7 + n) % 4]);
        t.push_str(nl);
    }
    if s.chance(1, 2) {
        t.push_str("end");
    }
    t
}
pub fn boundaries(t: &str) -> Vec<usize> {
    let mut b: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
    b.push(t.len());
    b
}
/// Start and end (with its line feed) of every line that has text.
pub fn lines(t: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut at = 0;
    for (i, b) in t.bytes().enumerate() {
        if b == b'\n' {
            out.push((at, i + 1));
            at = i + 1;
        }
    }
    if at < t.len() {
        out.push((at, t.len()));
    }
    out
}
/// 1-based line and column, in characters.
pub fn line_col(t: &str, p: usize) -> (usize, usize) {
    let (mut l, mut c) = (1, 1);
    for (i, ch) in t.char_indices() {
        if i >= p {
            break;
        }
        if ch == '\n' {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    (l, c)
}
/// The line that `p` is in: for the end of a text that ends with a line feed, an empty one.
pub fn line_of(t: &str, p: usize) -> (usize, usize) {
    lines(t).into_iter().find(|&(s, e)| s <= p && (p < e || (e == t.len() && !t.ends_with('\n')))).unwrap_or((t.len(), t.len()))
}
