//! C16: the same attributes and text give the same code, in any process.
use crate::derive::*;
use crate::given::*;
use std::collections::BTreeMap;
use std::sync::Mutex;
use vkit::json::J;
use vkit::prop::*;
use vkit::stage::*;

static SEEN: Mutex<BTreeMap<u64, (u64, String)>> = Mutex::new(BTreeMap::new());

fn one(s: &mut Src) -> CaseResult {
    let Some(g) = grammar(s) else {
        return Ok(Rep { discard: true, ..Default::default() });
    };
    let v = given(s);
    let (g, dir) = place(&g, v.source);
    let once = || derive(input(attributes(&g, &dir, &v), &v.attrs)).map(|t| t.to_string());
    let (a, b) = (once(), once());
    unplace(&dir);
    let text = show(&g, &v);
    if a != b {
        let (a, b) = (a.unwrap_or_else(|e| e), b.unwrap_or_else(|e| e));
        let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
        let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[i.saturating_sub(100)..(i + 100).min(t.len())]).to_string();
        return Err(Fail::new("differs", format!("derived twice, the code differs: ...{}...\n...{}...\n{text}", cut(&a), cut(&b))));
    }
    let a = a.map_err(|e| Fail::new("refused", format!("{text}\nis refused: {e}")))?;
    let key = hash64(format!("{text}{}", v.at).as_bytes());
    SEEN.lock().unwrap().insert(key, (hash64(a.as_bytes()), text.clone()));
    Ok(Rep { evals: 2, keys: vec![key], sample: Some(text), ..Default::default() })
}
pub fn run(o: &Opts, out: &mut Vec<Stage>, child: bool) {
    let n = if o.thorough() { 60_000 } else { 8_000 };
    search(o, "derived-twice", "each distinct grammar, given with some attributes; derived twice in one process", n, out, &one);
    let dump = |m: &BTreeMap<u64, (u64, String)>| m.iter().map(|(k, v)| format!("{k:016x} {:016x}\n", v.0)).collect::<String>();
    if child {
        std::fs::write(std::env::var("VGEN_CHILD").unwrap(), dump(&SEEN.lock().unwrap())).unwrap();
        return;
    }
    let replay = o.get("replay").map(|f| J::parse(&std::fs::read_to_string(f).unwrap()).unwrap()).map(|j| j.get("replay").cloned().unwrap_or(j));
    let (seed, tier) = match &replay {
        Some(j) if j.get("stage").map(|s| s.str()) == Some("other-process") => (j.get("seed").map_or(1, |s| s.int()) as u64, j.get("tier").map_or("quick", |s| s.str()).to_string()),
        Some(_) => return,
        None => (o.seed(), if o.thorough() { "thorough".into() } else { "quick".to_string() }),
    };
    let mut st = Stage::new("other-process", "each distinct grammar, derived in a second process with the same result");
    // Other processes, with another environment and hash seeds.
    let mut maps: Vec<BTreeMap<String, String>> = vec![];
    let mut runs = 1;
    if replay.is_some() {
        runs = 3;
    } else {
        maps.push(parse(&dump(&SEEN.lock().unwrap())));
    }
    for k in 0..runs {
        let f = base().join(format!("child-{k}"));
        let r = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["--prop", "C16", "--seed", &seed.to_string(), "--tier", &tier, "--only", "derived-twice", "--out", "/dev/null"])
            .env("VGEN_CHILD", &f)
            .env("VGEN_OTHER", "x".repeat(k * 100 + 7))
            .env_remove("VKIT_MARK")
            .status()
            .unwrap();
        assert!(r.success(), "the second process failed");
        maps.push(parse(&std::fs::read_to_string(f).unwrap()));
    }
    let seen = SEEN.lock().unwrap();
    for m in &maps[1..] {
        for (k, v) in m {
            st.evals += 1;
            st.nontrivial += 1;
            if maps[0].get(k).is_some_and(|w| w != v) && st.violations.is_empty() {
                let text = u64::from_str_radix(k, 16).ok().and_then(|k| seen.get(&k)).map_or(String::new(), |x| x.1.clone());
                st.violations.push(Violation {
                    sig: "differs between processes".into(),
                    detail: format!("two processes derive different code from\n{text}"),
                    replay: J::obj([("stage", J::s("other-process")), ("seed", J::Int(seed as i64)), ("tier", J::s(&tier)), ("key", J::s(k))]),
                });
            }
        }
    }
    if let Some((_, (_, t))) = seen.iter().next() {
        st.samples.push(t.clone());
    }
    out.push(st);
}
fn parse(t: &str) -> BTreeMap<String, String> {
    t.lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
