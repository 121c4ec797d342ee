mod cmp;
mod emit;
mod hand;
mod profile;
mod shrink;
mod ws;
use cmp::*;
use emit::*;
use profile::*;
use std::collections::{BTreeMap, HashSet};
use vkit::gram::*;
use vkit::json::J;
use vkit::prop::*;
use vkit::stage::*;
use ws::*;

pub struct Finding {
    pub unit: usize,
    pub entry: Option<usize>,
    pub input: String,
    pub sig: String,
    pub msg: String,
}

fn options(p: &Profile, k: usize) -> Opt {
    if p.id == "C16" {
        return Opt::variant(k);
    }
    Opt {
        accessors: p.what & ACC != 0,
        table: p.what & TABLE != 0,
        hand: p.id == "C22",
        layout: (p.id == "C10").then_some(k as u64),
        rules_mod: (p.id == "C20" && k % 4 == 3).then(|| "other".into()),
        attrs: if p.id == "C20" && k % 4 == 3 { vec!["#[rules_mod = \"other\"]".into()] } else { vec![] },
        ..Default::default()
    }
}
/// What is compared for a parser written in this way.
fn what(p: &Profile, o: &Opt) -> u32 {
    p.what & !(if o.no_pair { PAIR } else { 0 }) & !(if o.accessors { 0 } else { ACC })
}

fn make(p: &Profile, seed: u64, i: usize, k: usize) -> Option<Unit> {
    for attempt in 0..6 {
        let mut s = Src::random(hash64(format!("{} {seed} {i} {attempt}", p.id).as_bytes()));
        let mut c = p.cfg.swarm(&mut s);
        if p.id == "C22" {
            c.mods = 0;
        }
        let g = vkit::gen::grammar(&mut s, &c, &format!("g{k}"));
        let o = options(p, k);
        if let Ok(u) = Unit::new(g, o) {
            return Some(u);
        }
    }
    None
}

fn main() {
    let o = Opts::parse();
    install_panic_hook();
    let id = o.get("prop").unwrap_or("C01").to_string();
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(o, &id)).unwrap();
    if h.join().is_err() {
        die(&format!("driver panicked: {}", last_panic()));
    }
}

/// Inputs of one entry with what the model expects of them.
fn cases(p: &Profile, u: &Unit, e: usize, seed: u64, i: usize, disc: &mut u64) -> Vec<(String, Expect)> {
    let ent = &u.es[e];
    let lits = vkit::sample::literals(&u.p);
    let mut seen = HashSet::new();
    let mut out = vec![];
    for k in 0..p.inputs {
        let mut s = Src::random(hash64(format!("{} in {seed} {i} {e} {k}", p.id).as_bytes()));
        let t = if k == 0 { String::new() } else { vkit::sample::input(&u.p, ent.rule, &ent.args, &lits, &mut s) };
        if !seen.insert(t.clone()) {
            continue;
        }
        match expect(&u.p, ent, &t, what(p, &u.opt)) {
            Some(x) => out.push((t, x)),
            None => *disc += 1,
        }
    }
    out
}

fn real(o: Opts, id: &str) {
    let Some(p) = profile(id, o.thorough()) else { die("unknown profile") };
    let ws = Ws::new(p.id);
    if let Some(r) = o.get("replay") {
        return replay(&o, &p, &ws, r);
    }
    let mut st = Stage::new(&format!("derived-{id}"), p.rule);
    let seed = o.seed();
    let n = o.get("grammars").and_then(|x| x.parse().ok()).unwrap_or(p.grammars);
    let batches = o.get("batches").and_then(|x| x.parse().ok()).unwrap_or(p.batches);
    let mut nontriv: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    for b in 0..batches {
        let units: Vec<Unit> = (0..n).filter_map(|k| make(&p, seed, b * n + k, k)).enumerate().map(|(k, u)| fix_dir(u, k)).collect();
        let t0 = std::time::Instant::now();
        let (bad, shards) = ws.build_(&units);
        let t1 = t0.elapsed().as_secs_f64();
        let mut finds: Vec<Finding> = bad
            .iter()
            .map(|(k, m)| Finding { unit: *k, entry: None, input: String::new(), sig: "does-not-compile".into(), msg: m.clone() })
            .collect();
        // Cases, in parallel over grammars.
        let next = std::sync::atomic::AtomicUsize::new(0);
        type CaseV = Vec<(usize, usize, Vec<(String, Expect)>, u64)>;
        let all: std::sync::Mutex<CaseV> = Default::default();
        let plain: Vec<(Grammar, Opt)> = units.iter().map(|u| (u.g.clone(), u.opt.clone())).collect();
        std::thread::scope(|s| {
            for _ in 0..o.threads() {
                std::thread::Builder::new()
                    .stack_size(1 << 28)
                    .spawn_scoped(s, || loop {
                        let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if k >= plain.len() {
                            break;
                        }
                        // The model is rebuilt here: it is not shared between threads.
                        let u = Unit::new(plain[k].0.clone(), plain[k].1.clone()).unwrap();
                        for e in 0..u.es.len() {
                            let mut d = 0;
                            let c = cases(&p, &u, e, seed, b * n + k, &mut d);
                            all.lock().unwrap().push((k, e, c, d));
                        }
                    })
                    .unwrap();
            }
        });
        let mut all = all.into_inner().unwrap();
        all.sort_by_key(|x| (x.0, x.1));
        let t2 = t0.elapsed().as_secs_f64();
        let mut jobs = vec![];
        let mut exps = vec![];
        for (k, e, c, d) in all {
            *classes.entry("discarded".into()).or_default() += d;
            if bad.contains_key(&k) {
                continue;
            }
            for (t, x) in c {
                jobs.push((k, e, t));
                exps.push(x);
            }
        }
        let res = ws.run(&shards, &jobs);
        for ((job, x), r) in jobs.iter().zip(&exps).zip(&res) {
            let (k, e, t) = job;
            let u = &units[*k];
            match r {
                Err(m) if m == "not run" => continue,
                Err(m) => {
                    finds.push(Finding { unit: *k, entry: Some(*e), input: t.clone(), sig: "crash".into(), msg: m.clone() });
                    continue;
                }
                Ok(f) => {
                    st.evals += 1;
                    *classes.entry(if x.full { "accepted" } else if x.end.is_some() { "prefix" } else { "rejected" }.into()).or_default() += 1;
                    if (p.nontrivial)(x, t) {
                        let key = hash64(format!("{}\u{0}{}\u{0}{}", b * n + k, e, t).as_bytes());
                        if nontriv.insert(key) && st.samples.len() < 6 && (nontriv.len() % 701) == 3 {
                            st.samples.push(format!(
                                "{}\nrule {} on {t:?}: {} (pairs {}; stack {}; report {:?})",
                                u.g.mods.iter().map(|m| m.text()).collect::<Vec<_>>().join("-- imported --\n"),
                                u.es[*e].label,
                                x.end.map_or("no match".into(), |e| format!("matches {e} of {} bytes, tree {}", t.len(), x.walk)),
                                x.pairs,
                                x.stack,
                                x.ferr
                            ));
                        }
                    }
                    for (n, fl) in [
                        ("trivia", vkit::interp::F_TRIVIA),
                        ("predicate", vkit::interp::F_PRED),
                        ("stack", vkit::interp::F_STACK),
                        ("stack rolled back", vkit::interp::F_ROLLBACK),
                        ("meta rule", vkit::interp::F_META),
                        ("inlined silent meta rule", vkit::interp::F_INLINE),
                        ("imported rule", vkit::interp::F_IMPORT),
                        ("special report", vkit::interp::F_SPECIAL),
                        ("multi-byte", vkit::interp::F_MULTIBYTE),
                    ] {
                        if x.flags & fl != 0 {
                            *classes.entry(n.into()).or_default() += 1;
                        }
                    }
                    if let Some(d) = compare(x, f, &u.es[*e], what(&p, &u.opt)) {
                        finds.push(Finding { unit: *k, entry: Some(*e), input: t.clone(), sig: d.sig.into(), msg: d.msg });
                    }
                }
            }
        }
        *classes.entry("grammars".into()).or_default() += units.len() as u64;
        st.notes.push(format!("batch {b}: build {t1:.1}s, model {:.1}s, run {:.1}s", t2 - t1, t0.elapsed().as_secs_f64() - t2));
        if !finds.is_empty() {
            *classes.entry("differences".into()).or_default() += finds.len() as u64;
            if o.get("list").is_some() {
                for f in &finds {
                    let u = &units[f.unit];
                    println!("---- {} g{} {} on {:?}\n{}\n{}", f.sig, f.unit, f.entry.map_or("", |e| &u.es[e].label), f.input, u.g.text(), f.msg);
                }
            }
            st.violations = shrink::shrink(&p, &ws, units, finds, o.get("noshrink").is_some());
            break;
        }
    }
    if id == "C14" && st.violations.is_empty() {
        // The one name an accessor cannot have: it hides the method of `PairTree` that generated code calls
        // (a listed finding; the name is not generated anywhere else).
        let r = Rule::new;
        let g = Grammar { mods: vec![Module { rules: vec![r("a", E::path("as_pair_tree")), r("as_pair_tree", E::Str("x".into()))], ..Default::default() }] };
        let u = Unit::new(g, options(&p, 0)).unwrap_or_else(|e| die(&e));
        st.evals += 1;
        for (_, f, u) in shrink::probe(&p, &ws, &[u], &[(0, "a".into(), vec!["x".into()])]) {
            let detail = format!("{}\n{}", u.g.text(), f.msg);
            st.violations.push(Violation { sig: f.sig.clone(), detail, replay: replay_json(&p, &u, &f) });
        }
    }
    st.nontrivial = nontriv.len() as u64;
    st.classes = classes;
    o.write(&[st]);
}

/// Module directories are named after the place in the batch.
fn fix_dir(u: Unit, k: usize) -> Unit {
    let mut g = u.g;
    for im in &mut g.mods[0].imports {
        if matches!(im.target, Target::Module(_)) && im.file.is_none() {
            im.path[0] = format!("g{k}");
        }
    }
    Unit::new(g, u.opt).unwrap()
}

pub fn replay_json(p: &Profile, u: &Unit, f: &Finding) -> J {
    J::obj([
        ("prop", J::s(p.id)),
        ("variant", J::Int((0..4096).find(|k| options(p, *k) == u.opt).unwrap_or(0) as i64)),
        ("grammar", vkit::gjson::grammar(&u.g)),
        ("grammar_text", J::Arr(u.g.mods.iter().map(|m| J::s(m.text())).collect())),
        ("entry", f.entry.map_or(J::Null, |e| J::s(&u.es[e].label))),
        ("input", J::s(&f.input)),
        ("sig", J::s(&f.sig)),
    ])
}

fn replay(o: &Opts, p: &Profile, ws: &Ws, file: &str) {
    let j = J::parse(&std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{file}: {e}")))).unwrap_or_else(|| die("bad replay file"));
    let j = j.get("replay").cloned().unwrap_or(j);
    let g = vkit::gjson::ungrammar(j.get("grammar").unwrap());
    let u = Unit::new(g, options(p, j.get("variant").map_or(0, |v| v.int()) as usize)).unwrap_or_else(|e| die(&e));
    let u = fix_dir(u, 0);
    let mut st = Stage::new(&format!("derived-{}", p.id), p.rule);
    let label = j.get("entry").map(|s| s.str().to_string()).unwrap_or_default();
    let input = j.get("input").unwrap().str().to_string();
    let f = shrink::probe(p, ws, &[u], &[(0, label, vec![input])]);
    for (_, f, u) in f {
        st.violations.push(Violation { sig: f.sig.clone(), detail: f.msg.clone(), replay: replay_json(p, &u, &f) });
    }
    o.write(&[st]);
}
