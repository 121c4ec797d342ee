//! What is compared, per property, and which cases count as non-trivial.
use crate::emit::Entry;
use std::cell::RefCell;
use vkit::interp::*;

pub const LANG: u32 = 1;
pub const PAIR: u32 = 2;
pub const SELF: u32 = 4;
pub const STACK: u32 = 8;
pub const ERR: u32 = 16;
pub const ACC: u32 = 32;
pub const WALK: u32 = 64;
pub const TABLE: u32 = 128;

/// What the model predicts, as plain values.
pub struct Expect {
    pub end: Option<usize>,
    pub full: bool,
    pub walk: String,
    pub pairs: String,
    pub npairs: usize,
    pub accs: Vec<String>,
    pub stack: String,
    pub perr: Option<(usize, String)>,
    pub ferr: Option<(usize, String)>,
    pub flags: u32,
    pub rules_hit: usize,
    /// From the middle of the input with pieces on the stack.
    pub mid: Option<Mid>,
}
pub struct Mid {
    pub end: Option<usize>,
    pub full: bool,
    pub walk: String,
    pub stack: String,
    pub perr: Option<(usize, String)>,
    pub ferr: Option<(usize, String)>,
}
fn show_stack(v: &[(usize, usize)]) -> String {
    format!("[{}]", v.iter().map(|(s, e)| format!("{s}-{e}")).collect::<Vec<_>>().join(","))
}

pub fn expect(p: &Prog, e: &Entry, input: &str, what: u32) -> Option<Expect> {
    let o = outcome(p, e.rule, &e.args, input)?;
    let mut x = Expect {
        end: o.partial.as_ref().map(|x| x.0),
        full: o.full,
        walk: String::new(),
        pairs: String::new(),
        npairs: 0,
        accs: vec![],
        stack: "-".into(),
        perr: None,
        ferr: None,
        flags: o.flags,
        rules_hit: o.rules_hit,
        mid: None,
    };
    let rep = |r: &Report| (r.pos, r.display(p, input));
    let (k, st) = middle(input);
    x.mid = Some(outcome_from(p, e.rule, &e.args, input, FUEL, k, st)?).map(|o| {
        let mut m = Mid {
            end: o.partial.as_ref().map(|x| x.0),
            full: o.full,
            walk: String::new(),
            stack: "-".into(),
            perr: o.perr.as_ref().filter(|_| what & ERR != 0).map(rep),
            ferr: o.ferr.as_ref().filter(|_| what & ERR != 0).map(rep),
        };
        if let Some((_, t)) = &o.partial {
            t.walk(p, &mut m.walk);
            m.stack = show_stack(&o.stack);
        }
        m
    });
    if let Some((_, t)) = &o.partial {
        t.walk(p, &mut x.walk);
        let mut v = vec![];
        t.pairs(p, &mut v);
        x.npairs = v.iter().map(|p| p.count()).sum();
        x.pairs = v.iter().map(|p| p.text()).collect::<Vec<_>>().join(", ");
        x.stack = show_stack(&o.stack);
        if what & ACC != 0 {
            if let T::Rule(r, _, _, body) = t {
                for n in &e.names {
                    let mut occ = vec![];
                    body.occurrences(n, &mut occ);
                    let t: Vec<String> = occ
                        .iter()
                        .map(|t| {
                            let mut s = String::new();
                            t.walk(p, &mut s);
                            s
                        })
                        .collect();
                    let sh = shape(&p.rules[*r].body, body, n).unwrap_or_default();
                    x.accs.push(format!("{n}={}~{sh}", t.join(";")));
                }
            }
        }
    }
    if what & ERR != 0 {
        x.perr = o.perr.as_ref().map(rep);
        x.ferr = o.ferr.as_ref().map(rep);
    }
    Some(x)
}

pub struct Diff {
    pub sig: &'static str,
    pub msg: String,
}

/// A result field: `ok:END:rest`, `err:POS:text`, `panic:text`.
enum R<'a> {
    Ok(usize, &'a str),
    Err(isize, &'a str),
    Panic(&'a str),
}
fn res(s: &str) -> R<'_> {
    let mut it = s.splitn(3, ':');
    match it.next() {
        Some("ok") => R::Ok(it.next().and_then(|x| x.parse().ok()).unwrap_or(0), it.next().unwrap_or("")),
        Some("err") => R::Err(it.next().and_then(|x| x.parse().ok()).unwrap_or(-9), it.next().unwrap_or("")),
        _ => R::Panic(s),
    }
}
fn head(s: &str) -> String {
    s.chars().take(1500).collect()
}

pub fn compare(x: &Expect, f: &[String], e: &Entry, what: u32) -> Option<Diff> {
    let d = |sig: &'static str, msg: String| Some(Diff { sig, msg });
    if f.len() < 13 {
        return d("protocol", format!("fields: {f:?}"));
    }
    let (pp, pp_pair, pf, pf_pair, cp, cf, odd, st, acc) = (&f[0], &f[1], &f[2], &f[3], &f[4], &f[5], &f[6], &f[7], &f[8]);
    let (mp, ms, mf, mo) = (&f[9], &f[10], &f[11], &f[12]);
    for (n, r) in [("try_parse_partial", pp), ("try_parse", pf), ("check_partial", cp), ("check", cf), ("entry points", odd), ("low-level entry", st), ("from the middle", mp)] {
        if r.starts_with("panic:") {
            return d("panic", format!("{n} panicked: {}", head(r)));
        }
    }
    if what & LANG != 0 {
        match (res(pp), x.end) {
            (R::Ok(a, _), Some(b)) if a == b => {}
            (R::Err(..), None) => {}
            (_, w) => return d("language-partial", format!("prefix parse: expected {}, got {}", w.map_or("a rejection".into(), |e| format!("a match up to byte {e}")), head(pp))),
        }
        if matches!(res(pf), R::Ok(..)) != x.full {
            return d("language-full", format!("full parse: expected {}, got {}", if x.full { "acceptance" } else { "a rejection" }, head(pf)));
        }
        match (cp.strip_prefix("ok:").and_then(|s| s.parse::<usize>().ok()), x.end) {
            (a, b) if a == b => {}
            _ => return d("language-check-partial", format!("check_partial: expected {:?}, got {}", x.end, head(cp))),
        }
        if (cf == "ok") != x.full {
            return d("language-check", format!("check: expected {}, got {}", x.full, head(cf)));
        }
    }
    if what & WALK != 0 {
        if let (R::Ok(_, w), Some(_)) = (res(pp), x.end) {
            if w != x.walk {
                return d("typed-node", format!("typed tree: expected {}\n     got      {}", head(&x.walk), head(w)));
            }
        }
        if let (R::Ok(_, w), true) = (res(pf), x.full) {
            if w != x.walk {
                return d("typed-node-full", format!("typed tree (full parse): expected {}\n     got      {}", head(&x.walk), head(w)));
            }
        }
    }
    if what & PAIR != 0 {
        if x.end.is_some() && matches!(res(pp), R::Ok(..)) && *pp_pair != x.pairs {
            return d("pair-tree", format!("pair tree: expected {}\n     got      {}", head(&x.pairs), head(pp_pair)));
        }
        if x.full && matches!(res(pf), R::Ok(..)) && *pf_pair != x.pairs {
            return d("pair-tree-full", format!("pair tree (full parse): expected {}\n     got      {}", head(&x.pairs), head(pf_pair)));
        }
        if let Some(o) = odd.split("; ").find(|o| o.to_lowercase().contains("pair")) {
            return d("pair-api", o.to_string());
        }
    }
    if what & SELF != 0 {
        if let Some(o) = odd.split("; ").find(|o| !o.is_empty() && !o.to_lowercase().contains("pair")) {
            return d("entry-points", o.to_string());
        }
        // prefix parse against prefix check
        let same = match (res(pp), res(cp)) {
            (R::Ok(a, _), _) => *cp == format!("ok:{a}"),
            (R::Err(..), _) => pp == cp,
            _ => false,
        };
        if !same {
            return d("parse-vs-check-partial", format!("try_parse_partial: {}\ncheck_partial: {}", head(pp), head(cp)));
        }
        let same = match (res(pf), res(cf)) {
            (R::Ok(..), _) => cf == "ok",
            (R::Err(..), _) => pf == cf,
            _ => false,
        };
        if !same {
            return d("parse-vs-check", format!("try_parse: {}\ncheck: {}", head(pf), head(cf)));
        }
        // A full parse succeeds exactly when the prefix parse ends at the end of the input.
        match (res(pp), res(pf)) {
            (R::Ok(_, a), R::Ok(_, b)) if a == b => {}
            (R::Ok(..), R::Ok(..)) => return d("full-vs-partial-node", format!("partial {}\nfull {}", head(pp), head(pf))),
            (R::Err(_, a), R::Err(_, b)) if a == b => {}
            (R::Err(..), _) => return d("full-vs-partial", format!("partial {}\nfull {}", head(pp), head(pf))),
            _ => {}
        }
        if st.starts_with("low-level") {
            return d("low-level", head(st));
        }
    }
    if what & STACK != 0 && *st != x.stack {
        return d("final-stack", format!("stack after the prefix parse: expected {}, got {st}", x.stack));
    }
    if what & ERR != 0 {
        for (n, exp, got) in [("try_parse_partial", &x.perr, pp), ("try_parse", &x.ferr, pf), ("check_partial", &x.perr, cp), ("check", &x.ferr, cf)] {
            if let (Some((pos, text)), R::Err(gp, gt)) = (exp, res(got)) {
                if gp != *pos as isize {
                    return d("error-position", format!("{n}: expected byte {pos}, got {gp}\n{}", head(gt)));
                }
                if gt != text {
                    return d("error-text", format!("{n}: expected\n{}\ngot\n{}", head(text), head(gt)));
                }
            }
        }
    }
    if what & SELF != 0 && !mo.is_empty() || what & STACK != 0 && mo.contains("snapshot") {
        return d("entry-points-middle", format!("from the middle of the input, with a stack: {mo}"));
    }
    if let Some(m) = &x.mid {
        let at = "from the middle of the input, with a stack";
        if what & LANG != 0 {
            match (res(mp), m.end) {
                (R::Ok(a, _), Some(b)) if a == b => {}
                (R::Err(..), None) => {}
                (_, w) => return d("language-middle", format!("{at}: expected {}, got {}", w.map_or("a rejection".into(), |e| format!("a match up to byte {e}")), head(mp))),
            }
            if matches!(res(mf), R::Ok(..)) != m.full {
                return d("language-middle-full", format!("{at}, to the end: expected {}, got {}", if m.full { "acceptance" } else { "a rejection" }, head(mf)));
            }
        }
        if let (R::Ok(_, w), Some(_)) = (res(mp), m.end) {
            if what & WALK != 0 && w != m.walk {
                return d("typed-node-middle", format!("{at}: typed tree: expected {}\n     got      {}", head(&m.walk), head(w)));
            }
            if what & STACK != 0 && *ms != m.stack {
                return d("final-stack-middle", format!("{at}: stack afterwards: expected {}, got {ms}", m.stack));
            }
        }
        if what & ERR != 0 {
            for (n, exp, got) in [("a part", &m.perr, mp), ("to the end", &m.ferr, mf)] {
                if let (Some((pos, text)), R::Err(gp, gt)) = (exp, res(got)) {
                    if gp != *pos as isize || gt != text {
                        return d("error-middle", format!("{at}, {n}: expected byte {pos}\n{}\ngot byte {gp}\n{}", head(text), head(gt)));
                    }
                }
            }
        }
    }
    if what & ACC != 0 && x.end.is_some() && matches!(res(pp), R::Ok(..)) {
        let got: Vec<&str> = if acc.is_empty() { vec![] } else { acc.split('|').collect() };
        let want: Vec<String> = x.accs.clone();
        if got != want && acc != &want.join("|") {
            return d("accessor", format!("accessors of {}: expected {}\n     got      {}", e.label, head(&want.join("|")), head(acc)));
        }
    }
    if what & TABLE != 0 && x.end.is_some() && matches!(res(pp), R::Ok(..)) && *acc != e.table.1 {
        return d("enumeration", format!("values, in order?, own value, place, in the root's enumeration (twice), end of input:\nexpected {}\ngot      {acc}", e.table.1));
    }
    None
}

thread_local! { pub static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
