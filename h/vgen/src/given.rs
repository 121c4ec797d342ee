//! Grammars and the ways they are given.
use crate::derive::{Given, ENDS};
use vkit::gen::Cfg;
use vkit::gram::*;
use vkit::interp::Prog;
use vkit::prop::*;

pub fn grammar(s: &mut Src) -> Option<Grammar> {
    let b = Cfg::base();
    let mods = *s.pick(&[0usize, 0, 1, 2, 3]);
    let c = Cfg { mods, metas: 2, silent_meta: 50, alias: 20, docs: 35, silent: 25, rules: (1, 5), odd_names: 25, ..b };
    let g = vkit::gen::grammar(s, &c, "dd");
    Prog::compile(&g).ok().map(|_| g)
}
pub fn given(s: &mut Src) -> Given {
    let mut attrs = vec![];
    for f in ["no_pair", "no_getter", "box_rules_only_if_needed", "no_span", "no_warnings"] {
        match s.weighted(&[8, 1, 1, 1]) {
            0 => {}
            1 => attrs.push(format!("#[{f}]")),
            2 => attrs.push(format!("#[{f} = true]")),
            _ => attrs.push(format!("#[{f} = false]")),
        }
    }
    if s.chance(1, 4) {
        attrs.push(format!("#[rules_mod = \"{}\"]", s.pick(&["custom", "r#fn", "Nodes", "_r", "rules"])));
    }
    if s.chance(1, 6) {
        attrs.insert(0, "#[doc = \"other\"]".into());
    }
    Given { attrs, source: *s.pick(&[0u8, 0, 1, 2, 3, 4]), at: s.n(8), end: ENDS[s.weighted(&[8, 1, 1, 1, 1])] }
}
pub fn rules_mod(v: &Given) -> String {
    v.attrs
        .iter()
        .find_map(|a| a.strip_prefix("#[rules_mod = \"").and_then(|a| a.strip_suffix("\"]")))
        .unwrap_or("rules")
        .trim_start_matches("r#")
        .to_string()
}
/// The modules that are read.
pub fn reachable(g: &Grammar) -> Vec<usize> {
    let mut r = vec![0];
    let mut i = 0;
    while i < r.len() {
        for im in &g.mods[r[i]].imports {
            if let Target::Module(j) = im.target {
                if !r.contains(&j) {
                    r.push(j);
                }
            }
        }
        i += 1;
    }
    r
}
