//! C19: trees of files that import each other.
use pest3_meta::parser::{parse, GrammarModule, Import};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use vkit::gram::esc_str;
use vkit::prop::*;
use vkit::stage::*;

const DIRS: [&[&str]; 7] = [&[], &["d"], &["d", "e"], &["f"], &["d", "e", "g"], &["d", "x.pest"], &["d", "x.pest", "h"]];
const IDS: [&str; 12] = ["a", "b", "c", "m1", "_x", "as_", "inner", "pests", "X", "fn", "in1", "e"];
const FREE: [&str; 6] = ["a b.pest", "x.txt", "noext", "é嗨.pest", "q\"uote.pest", "two.dots.pest"];

struct File {
    dir: usize,
    name: String,
    /// can be named by a module path
    plain: bool,
    imports: Vec<Im>,
}
struct Im {
    to: usize,
    text: String,
    local: String,
}
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static HERE: PathBuf = {
        let d = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
            .join(format!("work/c19-{}/{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).unwrap();
        d.canonicalize().unwrap()
    };
}
fn place(base: &Path, f: &File) -> PathBuf {
    let mut p = base.to_owned();
    p.extend(DIRS[f.dir]);
    p.push(&f.name);
    p
}
fn clear(base: &Path) {
    // Only below the scratch directory of this thread.
    assert!(base.to_string_lossy().contains("/work/c19-"));
    if let Ok(d) = fs::read_dir(base) {
        for e in d.flatten() {
            let p = e.path();
            if p.is_dir() && !p.is_symlink() {
                let _ = fs::remove_dir_all(&p);
            } else {
                let _ = fs::remove_file(&p);
            }
        }
    }
}
fn import_text(s: &mut Src, base: &Path, from: usize, f: &[File], to: usize) -> Im {
    let (a, b) = (DIRS[f[from].dir], DIRS[f[to].dir]);
    let alias = s.chance(1, 3).then(|| format!("{}{}", s.pick(&["l", "as_", "x_", "Z"]), s.n(3)));
    let mut path: Vec<String> = vec![];
    let mut file = None;
    // up to a common directory (or further), then down
    let mut common = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    if s.chance(1, 4) {
        common = s.n(common + 1);
    }
    // A directory with a dot is in no module path.
    if f[to].plain && !s.chance(1, 5) && !b[common..].iter().any(|x| x.contains('.')) {
        path.extend((common..a.len()).map(|_| "super".to_string()));
        path.extend(b[common..].iter().map(|x| x.to_string()));
        path.push(f[to].name.strip_suffix(".pest").unwrap().to_string());
    } else {
        let p = place(base, &f[to]);
        let mut t = p.to_string_lossy().to_string();
        if s.chance(1, 4) {
            // another name of the same file
            t = t.replacen("/c19-", "/./c19-", 1);
        }
        file = Some(t);
        while s.more(path.len(), 1, 3, 1) {
            path.push(s.pick(&["m", "n", "super", "o"]).to_string());
        }
    }
    let local = alias.clone().unwrap_or_else(|| path.last().unwrap().clone());
    let mut text = format!("use {}", path.join("::"));
    if let Some(x) = &file {
        text.push_str(&format!(" in {}", esc_str(x)));
    }
    if let Some(x) = &alias {
        text.push_str(&format!(" as {x}"));
    }
    Im { to, text, local }
}
fn text(f: &File, k: usize) -> String {
    let mut t = format!("//! file {k}\n");
    for i in &f.imports {
        t.push_str(&i.text);
        t.push('\n');
    }
    t.push_str(&format!("r{k} = {{ \"{k}\" }}\n"));
    t
}
fn expect(files: &[File], k: usize, got: &GrammarModule, seen: &mut BTreeMap<usize, *const GrammarModule>, base: &Path) -> Result<BTreeSet<PathBuf>, String> {
    let names: Vec<_> = got.rules.iter().map(|r| r.name.clone()).collect();
    if names != [format!("r{k}")] || got.doc.grammar_doc != [format!("file {k}")] {
        return Err(format!("file {k} is expected, but the rules are {names:?}"));
    }
    if got.imports.len() != files[k].imports.len() {
        return Err(format!("file {k} has {} imports, not {}", got.imports.len(), files[k].imports.len()));
    }
    let mut all = BTreeSet::new();
    for (g, w) in got.imports.iter().zip(&files[k].imports) {
        let Import::File(alias, m) = g else { return Err(format!("an import of file {k} is {g:?}")) };
        if *alias != w.local {
            return Err(format!("in file {k}, {:?} is named {alias}", w.text));
        }
        let p: *const GrammarModule = Arc::as_ptr(m);
        match seen.get(&w.to) {
            Some(q) if *q != p => return Err(format!("file {} is two modules", w.to)),
            Some(_) => {}
            None => {
                seen.insert(w.to, p);
            }
        }
        let sub = expect(files, w.to, m, seen, base)?;
        all.insert(place(base, &files[w.to]).canonicalize().map_err(|e| e.to_string())?);
        all.extend(sub);
    }
    let deps: BTreeSet<PathBuf> = got.dependencies.iter().map(|p| p.canonicalize().unwrap_or_else(|_| p.clone())).collect();
    if deps != all {
        return Err(format!("file {k} depends on {deps:?}, not {all:?}"));
    }
    Ok(all)
}

/// Several sources of one parser make a module that has what all of them have.
fn joined(s: &mut Src, files: &[File], texts: &[String], base: &Path) -> Result<(), String> {
    let mut parts: Vec<Arc<GrammarModule>> = vec![];
    while s.more(parts.len(), 1, 4, 2) {
        let k = s.n(files.len());
        let root = place(base, &files[k]);
        if let Ok(t) = fs::read_to_string(&root) {
            if t == texts[k] {
                parts.push(parse(&t, &root).map_err(|e| e.to_string())?);
            }
        }
        if parts.is_empty() {
            return Ok(());
        }
    }
    let all: GrammarModule =
        if s.chance(1, 2) { parts.iter().cloned().collect() } else { parts.iter().map(|m| (**m).clone()).collect() };
    let rules = |m: &GrammarModule| -> Vec<String> { m.rules.iter().map(|r| format!("{r:?}")).collect() };
    let imports = |m: &GrammarModule| -> Vec<String> {
        m.imports
            .iter()
            .map(|i| match i {
                Import::Builtin(a, p) => format!("{a} {p:?}"),
                Import::File(a, m) => format!("{a} {:?} {:p}", m.doc.grammar_doc, Arc::as_ptr(m)),
            })
            .collect()
    };
    let differ = |what: &str| Err(format!("joining {} sources changes {what}", parts.len()));
    if rules(&all) != parts.iter().flat_map(|m| rules(m)).collect::<Vec<_>>() {
        return differ("the rules");
    }
    if imports(&all) != parts.iter().flat_map(|m| imports(m)).collect::<Vec<_>>() {
        return differ("the imports");
    }
    if all.doc.grammar_doc != parts.iter().flat_map(|m| m.doc.grammar_doc.clone()).collect::<Vec<_>>() {
        return differ("the documentation");
    }
    if all.dependencies != parts.iter().flat_map(|m| m.dependencies.clone()).collect() {
        return differ("the dependencies");
    }
    Ok(())
}

fn check(s: &mut Src) -> CaseResult {
    let base = HERE.with(|h| h.clone());
    clear(&base);
    let mut files: Vec<File> = vec![];
    let n = 1 + s.n(6);
    let mut used = BTreeSet::new();
    for k in 0..n {
        let dir = s.n(DIRS.len());
        let plain = k == 0 || !s.chance(1, 4);
        let name = if plain { format!("{}.pest", IDS[s.n(IDS.len())]) } else { FREE[s.n(FREE.len())].to_string() };
        if used.insert((dir, name.clone())) {
            files.push(File { dir, name, plain, imports: vec![] });
        }
    }
    let n = files.len();
    for d in DIRS {
        let mut p = base.clone();
        p.extend(d);
        fs::create_dir_all(p).unwrap();
    }
    for k in 0..n {
        let mut c = 0;
        while k + 1 < n && s.more(c, if k == 0 { 1 } else { 0 }, 4, 2) {
            c += 1;
            let to = k + 1 + s.n(n - k - 1);
            let im = import_text(s, &base, k, &files, to);
            files[k].imports.push(im);
        }
    }
    let mut reach = BTreeSet::from([0]);
    for k in 0..n {
        if reach.contains(&k) {
            reach.extend(files[k].imports.iter().map(|i| i.to));
        }
    }
    let mut texts: Vec<String> = files.iter().enumerate().map(|(k, f)| text(f, k)).collect();
    let mut fault = None;
    let mut gone = None;
    let mut raw: Option<usize> = None;
    if s.chance(1, 3) {
        let victims: Vec<usize> = reach.iter().copied().collect();
        let v = victims[s.n(victims.len())];
        match s.weighted(&[2, 2, 3, 1, 1, 1, 1]) {
            0 if v != 0 => {
                gone = Some(v);
                fault = Some("a file is missing");
            }
            1 => {
                let x = *s.pick(&["r = {", "use", "= b", "a = \"", "a = { b }} ", "a = { b{0} }", "\\"]);
                texts[v].push_str(x);
                fault = Some("a file is malformed");
            }
            2 => {
                // someone above, or itself
                let up: Vec<usize> = (0..=v)
                    .filter(|u| {
                        // v is reachable from u
                        let mut r = BTreeSet::from([*u]);
                        for k in *u..n {
                            if r.contains(&k) {
                                r.extend(files[k].imports.iter().map(|i| i.to));
                            }
                        }
                        r.contains(&v)
                    })
                    .collect();
                let u = up[s.n(up.len())];
                let im = import_text(s, &base, v, &files, u);
                texts[v] = format!("//! file {v}\n{}\n{}", im.text, texts[v].split_once('\n').unwrap().1);
                fault = Some("files import each other");
            }
            3 if v != 0 => {
                raw = Some(v);
                fault = Some("a file is not text");
            }
            4 => {
                texts[v].push_str("use nowhere::at_all\n");
                fault = Some("an imported file does not exist");
            }
            5 => {
                texts[v].push_str("use a(b)\n");
                fault = Some("an import has arguments");
            }
            6 if v != 0 => {
                texts[v].clear();
                fault = Some("a file has no rules");
            }
            _ => {}
        }
    }
    for (k, f) in files.iter().enumerate() {
        let p = place(&base, f);
        if gone == Some(k) {
            if s.chance(1, 2) {
                fs::create_dir_all(p).unwrap();
            }
        } else if raw == Some(k) {
            fs::write(p, b"r = { \"\xff\" }").unwrap();
        } else if reach.contains(&k) {
            fs::write(p, &texts[k]).unwrap();
        } else {
            // Nobody reads this one.
            fs::write(p, "not { a grammar").unwrap();
        }
    }
    let mut root = place(&base, &files[0]);
    match s.weighted(&[6, 2, 2, 1]) {
        // Through another directory and back.
        1 => {
            let to = DIRS[files[0].dir];
            let by = *s.pick(&["d/..", "d/e/../..", "f/../d/..", "."]);
            root = base.join(by);
            for (i, sec) in to.iter().enumerate() {
                root.push(sec);
                if *sec == "d" && i == 0 && s.chance(1, 2) {
                    root.push("e/..");
                }
            }
            root.push(&files[0].name);
        }
        // A file that only its name is needed of.
        2 => root.set_file_name(*s.pick(&["not there", "_.rs", "g.grammar"])),
        3 => {
            root.set_file_name("d");
            root.push("..");
            root.push("main.pest");
            if !root.parent().unwrap().exists() {
                root = place(&base, &files[0]);
            }
        }
        _ => {}
    }
    if s.chance(1, 3) {
        // relative to the current directory
        let cwd = std::env::current_dir().unwrap();
        if let Ok(r) = root.strip_prefix(&cwd) {
            root = r.to_owned();
        }
    }
    let show = |m: &str| {
        let mut t = format!("{m}\n(the root is read as {})\n", root.display());
        for (k, f) in files.iter().enumerate() {
            t.push_str(&format!("--- {}\n{}\n", place(&base, f).strip_prefix(&base).unwrap().display(), texts[k]));
        }
        t.replace(&*base.to_string_lossy(), "BASE")
    };
    let got = guarded(|| parse(&texts[0], &root)).map_err(|p| Fail::new("panic", show(&format!("reading panics: {p}"))))?;
    match (&got, fault) {
        (Ok(m), None) => {
            let mut seen = BTreeMap::new();
            expect(&files, 0, m, &mut seen, &base).map_err(|e| Fail::new("imports", show(&e)))?;
            if s.chance(1, 3) {
                joined(s, &files, &texts, &base).map_err(|e| Fail::new("joined", show(&e)))?;
            }
        }
        (Err(e), None) => return Err(Fail::new("refused", show(&format!("reading fails: {e}")))),
        (Ok(_), Some(f)) => return Err(Fail::new("accepted", show(&format!("{f}, but reading succeeds")))),
        (Err(e), Some(_)) => {
            let _ = e.to_string();
        }
    }
    let mut r = Rep { evals: 1, ..Default::default() };
    if let Some(f) = fault {
        r.tag(f);
    }
    let edges: usize = reach.iter().map(|k| files[*k].imports.len()).sum();
    if edges >= reach.len() && reach.len() > 2 {
        r.tag("shared file");
    }
    if reach.len() > 1 || fault.is_some() {
        let key: String = show("");
        r.keys.push(hash64(key.as_bytes()));
        r.sample = Some(key);
    }
    Ok(r)
}
pub fn run(o: &Opts, out: &mut Vec<Stage>) {
    let n = if o.thorough() { 1_000_000 } else { 100_000 };
    search(
        o,
        "import-trees",
        "up to seven files in seven directories importing each other by module path or file name, a third of them with one fault; non-trivial: more than one file is read or there is a fault, each distinct tree counts",
        n,
        out,
        &check,
    );
    let d = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join(format!("work/c19-{}", std::process::id()));
    let _ = fs::remove_dir_all(d);
}
