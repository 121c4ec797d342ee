//! Minimises a failing (grammar, entry, input) by rebuilding batches of smaller grammars.
use crate::cmp::*;
use crate::profile::Profile;
use crate::ws::*;
use crate::*;
use vkit::gram::*;

/// Runs the probes; returns the findings (index of the probe, finding, unit).
pub fn probe(p: &Profile, ws: &Ws, units: &[Unit], probes: &[(usize, String, Vec<String>)]) -> Vec<(usize, Finding, Unit)> {
    let again = |k: usize| Unit::new(units[k].g.clone(), units[k].opt.clone()).unwrap();
    let (bad, shards) = ws.build_(units);
    let mut out = vec![];
    let mut jobs = vec![];
    let mut meta = vec![];
    for (n, (k, label, inputs)) in probes.iter().enumerate() {
        if let Some(m) = bad.get(k) {
            out.push((n, Finding { unit: *k, entry: None, input: String::new(), sig: "does-not-compile".into(), msg: m.clone() }, again(*k)));
            continue;
        }
        let Some(e) = units[*k].es.iter().position(|e| e.label == *label) else { continue };
        for t in inputs {
            if let Some(x) = expect(&units[*k].p, &units[*k].es[e], t, what(p, &units[*k].opt)) {
                jobs.push((*k, e, t.clone()));
                meta.push((n, x));
            }
        }
    }
    let res = ws.run(&shards, &jobs);
    for (((k, e, t), (n, x)), r) in jobs.iter().zip(&meta).zip(&res) {
        let f = match r {
            Err(m) if m == "not run" => continue,
            Err(m) => Some(("crash".to_string(), m.clone())),
            Ok(f) => compare(x, f, &units[*k].es[*e], what(p, &units[*k].opt)).map(|d| (d.sig.to_string(), d.msg)),
        };
        if let Some((sig, msg)) = f {
            out.push((*n, Finding { unit: *k, entry: Some(*e), input: t.clone(), sig, msg }, again(*k)));
        }
    }
    out
}

fn size(g: &Grammar) -> usize {
    g.mods
        .iter()
        .map(|m| 2 * m.imports.len() + 3 + m.rules.iter().map(|r| 3 + r.args.len() + r.body.size() + r.doc.len() + r.name.len() / 4 + r.silent as usize + lit(&r.body)).sum::<usize>())
        .sum()
}
fn lit(e: &E) -> usize {
    let mut n = 0;
    e.visit(&mut |x| {
        if let E::Str(s) | E::Ins(s) = x {
            n += s.len().saturating_sub(1)
        }
    });
    n
}

/// Rules and imports that nothing needs are dropped.
fn trim(g: &Grammar, keep: &str) -> Grammar {
    let mut g = g.clone();
    loop {
        let before = size(&g);
        for k in 0..g.mods.len() {
            let m = &g.mods[k];
            let mut used: Vec<String> = vec![];
            let mut triv = [false, false];
            for r in &m.rules {
                r.body.visit(&mut |e| match e {
                    E::Path(p, _) => {
                        if p.len() == 1 && p[0] == r.name {
                            // a rule's use of itself does not keep it
                        } else {
                            used.push(p[0].clone())
                        }
                    }
                    E::Seq(_, _, t) | E::Rep(_, _, t) => match t {
                        Triv::Opt => triv[0] = true,
                        Triv::Man => triv[1] = true,
                        Triv::None => {}
                    },
                    _ => {}
                });
            }
            // Names other modules reach into this one by.
            let mut outer: Vec<String> = vec![];
            for o in &g.mods {
                for r in &o.rules {
                    r.body.visit(&mut |e| {
                        if let E::Path(p, _) = e {
                            if p.len() > 1 {
                                outer.extend(p[1..].iter().cloned())
                            }
                        }
                    });
                }
            }
            let m = &mut g.mods[k];
            m.rules.retain(|r| {
                if r.name == "~" {
                    triv[0]
                } else if r.name == "^" {
                    triv[1]
                } else {
                    used.contains(&r.name) || outer.contains(&r.name) || (r.name == keep)
                }
            });
            m.imports.retain(|i| used.contains(&i.local().to_string()) || outer.contains(&i.local().to_string()));
        }
        if size(&g) == before {
            return g;
        }
    }
}

/// All one-step simplifications of an expression.
fn steps(e: &E, out: &mut Vec<E>) {
    match e {
        E::Str(s) => {
            if s.chars().count() > 1 {
                out.push(E::Str(s.chars().take(1).collect()));
                out.push(E::Str(s.chars().skip(1).collect()));
            }
        }
        E::Ins(s) => {
            out.push(E::Str(s.clone()));
            if s.chars().count() > 1 {
                out.push(E::Ins(s.chars().take(1).collect()));
            }
        }
        E::Rng(a, _) => out.push(E::Str(a.to_string())),
        E::Path(p, Args::Call(v)) => {
            out.extend(v.iter().cloned());
            for (i, x) in v.iter().enumerate() {
                let mut t = vec![];
                steps(x, &mut t);
                for y in t {
                    let mut w = v.clone();
                    w[i] = y;
                    out.push(E::Path(p.clone(), Args::Call(w)));
                }
            }
        }
        E::Path(..) => out.push(E::Str("a".into())),
        E::Pos(x) | E::Neg(x) | E::Opt(x) => {
            out.push((**x).clone());
            let mut t = vec![];
            steps(x, &mut t);
            for y in t {
                let y = Box::new(y);
                out.push(match e {
                    E::Pos(_) => E::Pos(y),
                    E::Neg(_) => E::Neg(y),
                    _ => E::Opt(y),
                });
            }
        }
        E::Rep(x, k, t) => {
            out.push((**x).clone());
            if *t != Triv::None {
                out.push(E::Rep(x.clone(), k.clone(), Triv::None));
            }
            let mut v = vec![];
            steps(x, &mut v);
            for y in v {
                out.push(E::Rep(Box::new(y), k.clone(), *t));
            }
        }
        E::Seq(a, b, t) => {
            out.push((**a).clone());
            out.push((**b).clone());
            if *t != Triv::None {
                out.push(E::Seq(a.clone(), b.clone(), Triv::None));
            }
            let mut v = vec![];
            steps(a, &mut v);
            for y in v {
                out.push(E::Seq(Box::new(y), b.clone(), *t));
            }
            let mut v = vec![];
            steps(b, &mut v);
            for y in v {
                out.push(E::Seq(a.clone(), Box::new(y), *t));
            }
        }
        E::Cho(a, b) => {
            out.push((**a).clone());
            out.push((**b).clone());
            let mut v = vec![];
            steps(a, &mut v);
            for y in v {
                out.push(E::Cho(Box::new(y), b.clone()));
            }
            let mut v = vec![];
            steps(b, &mut v);
            for y in v {
                out.push(E::Cho(a.clone(), Box::new(y)));
            }
        }
    }
}

fn candidates(g: &Grammar, keep: &str) -> Vec<Grammar> {
    let mut out: Vec<Grammar> = vec![];
    let mut add = |g: Grammar, out: &mut Vec<Grammar>| {
        let g = trim(&g, keep);
        // A text without anything in it is not a grammar: it fails for a reason of its own.
        if g.mods.iter().all(|m| !m.rules.is_empty() || !m.imports.is_empty()) && vkit::interp::Prog::compile(&g).is_ok() && !out.contains(&g) {
            out.push(g);
        }
    };
    add(g.clone(), &mut out);
    for k in 0..g.mods.len() {
        for i in 0..g.mods[k].rules.len() {
            let r = &g.mods[k].rules[i];
            let mut v = vec![];
            steps(&r.body, &mut v);
            for b in v {
                let mut h = g.clone();
                h.mods[k].rules[i].body = b;
                add(h, &mut out);
            }
            if r.silent {
                let mut h = g.clone();
                h.mods[k].rules[i].silent = false;
                add(h, &mut out);
            }
            if !r.doc.is_empty() {
                let mut h = g.clone();
                h.mods[k].rules[i].doc.clear();
                add(h, &mut out);
            }
        }
        if !g.mods[k].doc.is_empty() {
            let mut h = g.clone();
            h.mods[k].doc.clear();
            add(h, &mut out);
        }
    }
    let me = size(g);
    out.retain(|h| size(h) < me);
    out.sort_by_key(size);
    // Spread over the sizes: the smallest ones and a sample of the rest.
    if out.len() > 64 {
        let step = out.len() as f64 / 64.0;
        out = (0..64).map(|i| out[(i as f64 * step) as usize].clone()).collect();
    }
    out
}

fn inputs(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![t.to_string(), String::new()];
    let mut w = (c.len() / 2).max(1);
    while w >= 1 && !c.is_empty() {
        for i in (0..c.len()).step_by(w) {
            let mut d = c.clone();
            d.drain(i..(i + w).min(c.len()));
            v.push(d.into_iter().collect());
        }
        if w == 1 {
            break;
        }
        w /= 2;
    }
    v.dedup();
    v.truncate(90);
    v
}

pub fn shrink(p: &Profile, ws: &Ws, units: Vec<Unit>, finds: Vec<Finding>, no: bool) -> Vec<Violation> {
    // One representative per kind of difference: the smallest.
    let mut by: BTreeMap<String, Finding> = BTreeMap::new();
    for f in finds {
        let sz = |f: &Finding| (size(&units[f.unit].g), f.input.len());
        match by.get(&f.sig) {
            Some(o) if sz(o) <= sz(&f) => {}
            _ => {
                by.insert(f.sig.clone(), f);
            }
        }
    }
    let t0 = std::time::Instant::now();
    let mut out = vec![];
    for (n, (sig, f)) in by.into_iter().enumerate() {
        let mut u = Unit::new(units[f.unit].g.clone(), units[f.unit].opt.clone()).unwrap();
        let mut f = f;
        let label = f.entry.map(|e| u.es[e].label.clone()).unwrap_or_default();
        let rule = f.entry.map(|e| u.p.rules[u.es[e].rule].name.clone()).unwrap_or_else(|| u.g.mods[0].rules[0].name.clone());
        for _ in 0..14 {
            if no || n >= 2 || t0.elapsed().as_secs() > 150 {
                break;
            }
            // First pass: the input on the same grammar; then grammars.
            let mut cand = vec![Unit::new(u.g.clone(), u.opt.clone()).unwrap()];
            for g in candidates(&u.g, &rule) {
                if let Ok(x) = Unit::new(g, u.opt.clone()) {
                    cand.push(x);
                }
            }
            let cand: Vec<Unit> = cand.into_iter().enumerate().map(|(k, u)| crate::fix_dir(u, k)).collect();
            let ins = if f.entry.is_some() { inputs(&f.input) } else { vec![] };
            let probes: Vec<(usize, String, Vec<String>)> = (0..cand.len()).map(|k| (k, label.clone(), ins.clone())).collect();
            let mut best: Option<(usize, usize, Finding, Unit)> = None;
            for (_, g, v) in probe(p, ws, &cand, &probes) {
                // A derive that panics and code that does not compile are different failures.
                if g.sig != sig || (g.sig == "does-not-compile" && g.msg.contains("derive panicked") != f.msg.contains("derive panicked")) {
                    continue;
                }
                let key = (size(&v.g), g.input.len());
                if key < best.as_ref().map_or((size(&u.g), f.input.len()), |b| (b.0, b.1)) {
                    best = Some((key.0, key.1, g, v));
                }
            }
            match best {
                None => break,
                Some((_, _, g, v)) => {
                    f = g;
                    u = v;
                }
            }
        }
        let detail = format!(
            "{}\n{}{}\n{}",
            u.g.mods.iter().enumerate().map(|(i, m)| format!("{}{}", if i > 0 { format!("-- {} --\n", m.rel(i)) } else { String::new() }, m.text())).collect::<String>(),
            if f.entry.is_some() { format!("rule {label} on {:?}", f.input) } else { "deriving a parser".into() },
            format_args!(": {sig}"),
            f.msg
        );
        out.push(Violation { sig, detail, replay: replay_json(p, &u, &f) });
    }
    out
}
