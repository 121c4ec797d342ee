//! What a stage program writes for the orchestrator.
use crate::json::J;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identification of what fails (matched against the known findings).
    pub sig: String,
    pub detail: String,
    pub replay: J,
}
pub struct Stage {
    pub name: String,
    pub evals: u64,
    pub nontrivial: u64,
    pub rule: String,
    pub samples: Vec<String>,
    pub classes: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub notes: Vec<String>,
}
impl Stage {
    pub fn new(name: &str, rule: &str) -> Stage {
        Stage {
            name: name.into(),
            evals: 0,
            nontrivial: 0,
            rule: rule.into(),
            samples: vec![],
            classes: BTreeMap::new(),
            violations: vec![],
            notes: vec![],
        }
    }
    pub fn from_summary(name: &str, rule: &str, s: &crate::prop::Summary) -> Stage {
        let mut st = Stage::new(name, rule);
        st.evals = s.evals.max(s.cases);
        st.nontrivial = s.distinct.len() as u64;
        st.samples = s.samples.clone();
        st.classes.insert("cases".into(), s.cases);
        st.classes.insert("discarded".into(), s.discarded);
        for (k, v) in &s.tags {
            st.classes.insert(k.to_string(), *v);
        }
        if let Some((i, f, c)) = &s.failure {
            st.violations.push(Violation {
                sig: f.sig.clone(),
                detail: f.msg.clone(),
                replay: J::obj([
                    ("stage", J::s(name)),
                    ("case", J::Int(*i as i64)),
                    ("choices", J::Arr(c.iter().map(|x| J::s(x.to_string())).collect())),
                ]),
            });
        }
        st
    }
    pub fn json(&self) -> J {
        J::obj([
            ("stage", J::s(&self.name)),
            ("evaluations", J::Int(self.evals as i64)),
            ("distinct_nontrivial", J::Int(self.nontrivial as i64)),
            ("rule", J::s(&self.rule)),
            ("samples", J::Arr(self.samples.iter().map(J::s).collect())),
            ("notes", J::Arr(self.notes.iter().map(J::s).collect())),
            ("classes", J::Obj(self.classes.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())),
            (
                "violations",
                J::Arr(
                    self.violations
                        .iter()
                        .map(|v| J::obj([("sig", J::s(&v.sig)), ("detail", J::s(&v.detail)), ("replay", v.replay.clone())]))
                        .collect(),
                ),
            ),
        ])
    }
}

/// `--key value` arguments.
pub struct Opts(BTreeMap<String, String>);
impl Opts {
    pub fn parse() -> Opts {
        let mut m = BTreeMap::new();
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            if let Some(k) = k.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            }
        }
        Opts(m)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn seed(&self) -> u64 {
        self.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1)
    }
    pub fn thorough(&self) -> bool {
        self.get("tier") == Some("thorough")
    }
    pub fn threads(&self) -> usize {
        self.get("threads").and_then(|s| s.parse().ok()).unwrap_or(8)
    }
    pub fn write(&self, stages: &[Stage]) {
        let j = J::Arr(stages.iter().map(|s| s.json()).collect()).render();
        match self.get("out") {
            Some(p) => std::fs::write(p, j).unwrap(),
            None => println!("{j}"),
        }
    }
}

/// Runs one property search, or its replay when `--replay` names a file made by it.
pub fn search(
    o: &Opts,
    name: &str,
    rule: &str,
    cases: usize,
    out: &mut Vec<Stage>,
    f: &(dyn Fn(&mut crate::prop::Src) -> crate::prop::CaseResult + Sync),
) {
    use crate::prop::*;
    if let Some(r) = o.get("replay") {
        let j = J::parse(&std::fs::read_to_string(r).unwrap()).unwrap();
        let j = j.get("replay").cloned().unwrap_or(j);
        if j.get("stage").map(|s| s.str()) != Some(name) {
            return;
        }
        // Either the shrunk choices, or (for a case that ends the process) its seed.
        let c: Option<Vec<u64>> = j.get("choices").map(|c| c.arr().iter().map(|x| x.str().parse().unwrap()).collect());
        let seed = case_seed(name, j.get("seed").map_or(1, |s| s.int()) as u64, j.get("case").map_or(0, |s| s.int()) as usize);
        let mut st = Stage::new(name, rule);
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn_scoped(s, || {
                    let mut s = c.clone().map_or_else(|| Src::random(seed), Src::replay);
                    run_case(f, &mut s).err()
                })
                .unwrap()
                .join()
                .unwrap()
        });
        if let Some(fl) = r {
            st.violations.push(Violation { sig: fl.sig, detail: fl.msg, replay: j });
        }
        out.push(st);
        return;
    }
    if let Some(only) = o.get("only") {
        if only != name {
            return;
        }
    }
    let cfg = Cfg { name: name.into(), seed: o.seed(), cases, threads: o.threads(), shrink: 4000 };
    let t0 = std::time::Instant::now();
    let s = run(&cfg, f);
    let mut st = Stage::from_summary(name, rule, &s);
    st.notes.push(format!("{:.1}s", t0.elapsed().as_secs_f64()));
    out.push(st);
}
