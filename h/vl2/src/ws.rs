//! Builds and runs the generated programs.
use crate::emit::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use vkit::gram::*;
use vkit::interp::*;

pub const SHARDS: usize = 8;

pub struct Unit {
    pub g: Grammar,
    pub p: Prog,
    pub es: Vec<Entry>,
    pub opt: Opt,
}
impl Unit {
    pub fn new(g: Grammar, opt: Opt) -> Result<Unit, String> {
        let p = Prog::compile(&g)?;
        let es = entries(&p, opt.rules_mod.as_deref().unwrap_or("rules"));
        Ok(Unit { g, p, es, opt })
    }
}

pub fn die(msg: &str) -> ! {
    eprintln!("TOOL-ERROR {msg}");
    std::process::exit(2)
}

fn put(path: &str, text: &str) {
    if std::fs::read_to_string(path).ok().as_deref() != Some(text) {
        if let Some(d) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(path, text).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    }
}

pub struct Ws {
    pub dir: String,
    pub target: String,
}

impl Ws {
    pub fn new(name: &str) -> Ws {
        let root = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let dir = format!("{root}/work/l2/{name}");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let m: Vec<String> = (0..SHARDS).map(|i| format!("\"c{i}\"")).collect();
        put(
            &format!("{dir}/Cargo.toml"),
            &format!(
                "[workspace]\nmembers = [{}]\nresolver = \"2\"\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n\
                 overflow-checks = true\ndebug-assertions = true\n",
                m.join(", ")
            ),
        );
        std::fs::copy(format!("{root}/h/Cargo.lock"), format!("{dir}/Cargo.lock")).unwrap_or_else(|e| die(&format!("lock: {e}")));
        for i in 0..SHARDS {
            put(
                &format!("{dir}/c{i}/Cargo.toml"),
                &format!(
                    "[package]\nname = \"c{i}\"\nversion = \"0.1.0\"\nedition = \"{}\"\n[dependencies]\n\
                     pest3 = {{ path = \"/repo/pest\", features = [\"derive\"] }}\nl2common = {{ path = \"{root}/h/l2common\" }}\n",
                    // The users' edition of Rust.
                    ["2021", "2024", "2018"][[0, 0, 1, 2][i % 4]]
                ),
            );
        }
        Ws { dir, target: format!("{root}/target/l2") }
    }
    fn emit(&self, units: &[Unit], shards: &[Vec<usize>]) {
        for (c, ks) in shards.iter().enumerate() {
            let mut main = String::from("#![allow(warnings)]\n");
            for k in ks {
                main.push_str(&format!("mod g{k};\n"));
            }
            main.push_str("fn main() { l2common::main(&[");
            for k in ks {
                main.push_str(&format!("({k}, g{k}::run as l2common::Entry), "));
            }
            main.push_str("]) }\n");
            for k in ks {
                let u = &units[*k];
                let (mut text, files) = module(&u.g, &u.p, &u.es, *k, &u.opt, &format!("{}/c{c}", self.dir));
                for (f, t) in &files {
                    // Imported files are part of the text, so that a change of them is seen.
                    text.push_str(&format!("// {f} {:016x}\n", vkit::prop::hash64(t.as_bytes())));
                    put(&format!("{}/c{c}/{f}", self.dir), t);
                }
                put(&format!("{}/c{c}/src/g{k}.rs", self.dir), &text);
            }
            put(&format!("{}/c{c}/src/main.rs", self.dir), &main);
        }
    }
    fn cargo(&self) -> (bool, String, bool) {
        let out = Command::new("timeout")
            .args(["-k", "5", "420", "cargo", "build", "--offline", "--keep-going", "--message-format", "short", "-q"])
            .current_dir(&self.dir)
            .env("CARGO_TARGET_DIR", &self.target)
            .env("RUSTFLAGS", "-Awarnings")
            .env("CARGO_INCREMENTAL", "0")
            .env("RUST_MIN_STACK", "67108864")
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .output()
            .unwrap_or_else(|e| die(&format!("cargo: {e}")));
        let t = String::from_utf8_lossy(&out.stderr).to_string() + &String::from_utf8_lossy(&out.stdout);
        let timed_out = out.status.code() == Some(124);
        (out.status.success(), t, timed_out)
    }
    /// Compiles all units; returns what does not compile, with the message.
    pub fn build(&self, units: &[Unit]) -> BTreeMap<usize, String> {
        self.build_(units).0
    }
    pub fn build_(&self, units: &[Unit]) -> (BTreeMap<usize, String>, Vec<Vec<usize>>) {
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let mut suspects: BTreeSet<usize> = BTreeSet::new();
        for round in 0..40 {
            let mut shards: Vec<Vec<usize>> = vec![vec![]; SHARDS];
            // Suspects (their crate brought the compiler down) are built one per crate.
            let mut n = 0;
            let now: Vec<usize> = suspects.iter().copied().take(SHARDS - 1).collect();
            for k in 0..units.len() {
                if bad.contains_key(&k) {
                    continue;
                }
                if let Some(i) = now.iter().position(|x| *x == k) {
                    shards[i + 1].push(k);
                } else if suspects.contains(&k) {
                    continue;
                } else if now.is_empty() {
                    shards[n % SHARDS].push(k);
                    n += 1;
                } else {
                    continue;
                }
            }
            self.emit(units, &shards);
            let (ok, text, timed_out) = self.cargo();
            if timed_out {
                die("the compilation of generated parsers timed out");
            }
            if ok {
                if now.is_empty() {
                    return (bad, shards);
                }
                for k in now {
                    suspects.remove(&k);
                }
                continue;
            }
            let mut hit = false;
            for l in text.lines() {
                if let Some((c, k)) = locate(l) {
                    if l.contains("error") {
                        let _ = c;
                        hit = true;
                        bad.entry(k).or_insert_with(|| l.to_string());
                    }
                }
            }
            if !hit {
                if !now.is_empty() {
                    // One of the crates with a single grammar brought the compiler down.
                    for (i, k) in now.iter().enumerate() {
                        let name = format!("c{}", i + 1);
                        if text.contains(&format!("`{name}`")) || text.contains(&format!("crate-name {name} ")) {
                            bad.insert(*k, first_error(&text));
                            hit = true;
                        } else {
                            suspects.remove(k);
                        }
                    }
                } else {
                    for c in 0..SHARDS {
                        if text.contains(&format!("could not compile `c{c}`")) {
                            suspects.extend(shards[c].iter().copied());
                            hit = true;
                        }
                    }
                }
            } else {
                for k in bad.keys() {
                    suspects.remove(k);
                }
            }
            if !hit || round == 39 {
                eprintln!("{}", text.chars().take(6000).collect::<String>());
                die("the harness does not build");
            }
        }
        unreachable!()
    }
    /// Runs `(unit, entry, input)` on the built programs; `Err` is a crash or hang.
    pub fn run(&self, shards: &[Vec<usize>], jobs: &[(usize, usize, String)]) -> Vec<Result<Vec<String>, String>> {
        let mut out: Vec<Result<Vec<String>, String>> = jobs.iter().map(|_| Err("not run".into())).collect();
        let per: Vec<Vec<usize>> = shards.iter().map(|ks| (0..jobs.len()).filter(|j| ks.contains(&jobs[*j].0)).collect()).collect();
        let res: Vec<Vec<(usize, Result<Vec<String>, String>)>> = std::thread::scope(|s| {
            let h: Vec<_> = per.iter().enumerate().map(|(c, js)| s.spawn(move || self.run_shard(c, js, jobs))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for v in res {
            for (j, r) in v {
                out[j] = r;
            }
        }
        out
    }
    fn run_shard(&self, c: usize, js: &[usize], jobs: &[(usize, usize, String)]) -> Vec<(usize, Result<Vec<String>, String>)> {
        let mut out = vec![];
        let mut at = 0;
        let mut crashes = 0;
        while at < js.len() {
            let rest: Vec<usize> = js[at..].to_vec();
            let mut child = Command::new("bash")
                .args(["-c", &format!("ulimit -v 8000000; ulimit -c 0; exec {}/debug/c{c}", self.target)])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| die(&format!("runner: {e}")));
            let mut si = child.stdin.take().unwrap();
            let text: String = rest
                .iter()
                .map(|j| {
                    let (u, e, i) = &jobs[*j];
                    let hex: String = i.bytes().map(|b| format!("{b:02x}")).collect();
                    format!("{u} {e} {hex}\n")
                })
                .collect();
            let w = std::thread::spawn(move || {
                let _ = si.write_all(text.as_bytes());
            });
            let mut se = child.stderr.take().unwrap();
            let ew = std::thread::spawn(move || {
                let mut s = vec![];
                let _ = std::io::Read::read_to_end(&mut se, &mut s);
                String::from_utf8_lossy(&s).to_string()
            });
            let so = child.stdout.take().unwrap();
            let (tx, rx) = mpsc::channel();
            let r = std::thread::spawn(move || {
                for l in BufReader::new(so).lines() {
                    match l {
                        Ok(l) => {
                            if tx.send(l).is_err() {
                                break;
                            }
                        }
                        Err(_) => break,
                    }
                }
            });
            let mut n = 0;
            let mut hang = false;
            let mut last = Instant::now();
            while n < rest.len() {
                match rx.recv_timeout(Duration::from_millis(500)) {
                    Ok(l) => {
                        out.push((rest[n], Ok(l.split('\t').map(unesc).collect())));
                        n += 1;
                        last = Instant::now();
                    }
                    Err(mpsc::RecvTimeoutError::Disconnected) => break,
                    Err(mpsc::RecvTimeoutError::Timeout) => {
                        if last.elapsed() > Duration::from_secs(60) {
                            hang = true;
                            break;
                        }
                    }
                }
            }
            let _ = child.kill();
            let st = child.wait();
            let _ = w.join();
            drop(rx);
            let _ = r.join();
            let err = ew.join().unwrap_or_default();
            if n < rest.len() {
                let why = if hang {
                    "no answer after 60 s".to_string()
                } else {
                    format!("the process died ({}) {}", st.map(|s| s.to_string()).unwrap_or_default(), err.chars().take(200).collect::<String>())
                };
                out.push((rest[n], Err(why)));
                n += 1;
                crashes += 1;
                if crashes > 3 {
                    break;
                }
            }
            at += n;
        }
        out
    }
}
fn first_error(t: &str) -> String {
    t.lines().find(|l| l.contains("error") || l.contains("overflow")).unwrap_or("the compiler died").to_string()
}
fn locate(l: &str) -> Option<(usize, usize)> {
    let i = l.find("/src/g")?;
    let c = l[..i].rsplit(|x: char| !x.is_ascii_alphanumeric()).next()?.strip_prefix('c')?.parse().ok()?;
    let k = l[i + 6..].split('.').next()?.parse().ok()?;
    Some((c, k))
}
fn unesc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
