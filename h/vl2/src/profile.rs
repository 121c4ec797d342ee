use crate::cmp::*;
use vkit::gen::Cfg;
use vkit::interp::*;

pub struct Profile {
    pub id: &'static str,
    pub cfg: Cfg,
    pub what: u32,
    pub grammars: usize,
    pub batches: usize,
    /// inputs per entry
    pub inputs: usize,
    pub rule: &'static str,
    pub nontrivial: fn(&Expect, &str) -> bool,
}

pub fn profile(id: &str, thorough: bool) -> Option<Profile> {
    let b = Cfg::base();
    let t = |q: usize, t: usize| if thorough { t } else { q };
    let p = |id: &'static str, cfg, what, grammars, inputs, rule, nontrivial| Profile { id, cfg, what, grammars, batches: t(if id == "C16" { 2 } else { 4 }, 40), inputs: t(4, 10) * inputs, rule, nontrivial };
    Some(match id {
        "C01" => p(
            "C01",
            b,
            LANG,
            72,
            60,
            "the rule matched past an alternative, a repeated item, trivia, a predicate or a stack operation, or was rejected after consuming something",
            |x, _| x.flags & (F_CHO | F_REP2 | F_TRIVIA | F_PRED | F_ROLLBACK | F_STACK) != 0,
        ),
        "C02" => p(
            "C02",
            Cfg { w_ref: 26, silent: 30, w_pos: 4, w_neg: 3, w_rep: 9, w_lit: 8, ..b },
            PAIR,
            64,
            60,
            "the match holds at least three pairs",
            |x, _| x.end.is_some() && x.npairs >= 3,
        ),
        "C03" => p(
            "C03",
            Cfg { w_stack: 4, w_neg: 4, ..b },
            SELF,
            64,
            60,
            "the prefix parse consumed something or the report is past the start; backtracking, predicate or stack use happened",
            |x, _| x.flags & (F_CHO | F_REP2 | F_PRED | F_ROLLBACK | F_STACK | F_REPFAIL) != 0,
        ),
        "C04" => p(
            "C04",
            Cfg { w_stack: 16, w_opt: 7, w_cho: 12, w_ref: 8, w_neg: 4, w_pos: 4, text: 20, ..b },
            LANG | STACK | WALK,
            64,
            80,
            "a stack operation ran",
            |x, _| x.flags & F_STACK != 0,
        ),
        "C05" => p(
            "C05",
            Cfg { triv: 100, w_triv: 30, odd_triv: 35, w_seq: 16, w_rep: 14, text: 15, ..b },
            LANG | WALK | PAIR,
            64,
            70,
            "trivia was consumed, or given back after a repetition",
            |x, _| x.flags & (F_TRIVIA | F_TRIVBACK) != 0,
        ),
        "C06" => p(
            "C06",
            Cfg { w_ref: 22, w_pos: 5, w_neg: 6, w_stack: 4, silent: 20, text: 30, ..b },
            ERR,
            64,
            70,
            "a failure reported past the start of the input or naming a calling rule",
            |x, _| x.perr.as_ref().or(x.ferr.as_ref()).is_some_and(|(p, t)| *p > 0 || t.contains(", by ")),
        ),
        "C07" => p(
            "C07",
            Cfg { metas: 4, silent_meta: 45, rules: (2, 4), w_ref: 16, ..b },
            LANG | PAIR | WALK | ERR,
            64,
            60,
            "a meta rule was applied",
            |x, _| x.flags & (F_META | F_INLINE) != 0,
        ),
        "C08" => p(
            "C08",
            Cfg { mods: 3, alias: 20, rules: (2, 4), w_ref: 22, ..b },
            LANG | PAIR | WALK | ERR,
            56,
            60,
            "an imported rule was applied",
            |x, _| x.flags & F_IMPORT != 0,
        ),
        "C10" => p(
            "C10",
            Cfg { w_lit: 30, w_ins: 8, w_rng: 12, w_rep: 10, text: 70, w_stack: 4, w_ref: 8, triv: 20, max_count: 12, alltext: 60, longtext: 60, ..b },
            LANG | WALK,
            64,
            60,
            "the input is accepted, or rejected past its start",
            |x, t| x.end.is_some() && !t.is_empty() || x.perr.as_ref().is_some_and(|p| p.0 > 0),
        ),
        "C15" => p(
            "C15",
            Cfg { w_blt: 24, w_uni: 30, w_stack: 8, alias: 60, mods: 1, w_lit: 3, w_ref: 8, alluni: 80, ..b },
            LANG | WALK | PAIR,
            64,
            80,
            "the rule matched something, or was rejected past its start",
            |x, _| x.end.is_some_and(|e| e > 0) || x.perr.as_ref().is_some_and(|p| p.0 > 0),
        ),
        "C20" => p(
            "C20",
            Cfg { mods: 3, odd_names: 45, docs: 50, metas: 2, rules: (2, 6), depth: 2, silent: 35, w_ref: 22, ..b },
            PAIR | TABLE,
            48,
            16,
            "the rule matched: its enumeration, its own value and that value in every importing enumeration were compared",
            |x, _| x.end.is_some(),
        ),
        "C14" => p(
            "C14",
            Cfg { w_ref: 26, metas: 2, long: 8, w_opt: 8, w_cho: 12, w_pos: 4, w_lit: 6, w_blt: 8, ..b },
            ACC,
            56,
            50,
            "some accessor has at least one match and some accessor has none or several",
            |x, _| x.accs.iter().any(|a| !a.contains("=~")) && x.accs.iter().any(|a| a.contains("=~") || a.contains(';')),
        ),
        "C16" => p(
            "C16",
            Cfg { mods: 2, metas: 2, alias: 10, odd_triv: 25, w_ref: 20, ring: 40, ..b },
            LANG | PAIR | WALK | ERR | ACC,
            96,
            40,
            "the parser is written with an option, from a file or in two parts, and the input is accepted, or rejected past its start",
            |x, _| x.end.is_some() || x.perr.as_ref().is_some_and(|p| p.0 > 0),
        ),
        "C17" => p(
            "C17",
            Cfg { w_rep: 26, max_count: 6, big: 14, w_seq: 8, w_cho: 6, w_stack: 3, triv: 70, ..b },
            LANG | WALK,
            64,
            70,
            "a repetition took two or more items, reached its upper bound or missed its lower bound",
            |x, _| x.flags & (F_REP2 | F_REPMAX | F_REPFAIL) != 0,
        ),
        "C18" => p(
            "C18",
            Cfg { long: 12, long_max: 20, w_ins: 4, w_blt: 7, w_uni: 3, text: 60, w_stack: 5, ..b },
            WALK,
            56,
            50,
            "the typed tree has at least three leaves",
            |x, _| x.walk.matches(['"', '\'', '^', '$']).count() >= 6,
        ),
        "C22" => p(
            "C22",
            Cfg { w_stack: 8, metas: 2, silent_meta: 0, long: 10, long_max: 20, max_count: 6, w_opt: 7, triv: 60, odd_triv: 30, mods: 0, ..b },
            LANG | PAIR | WALK | ERR | STACK | SELF,
            96,
            60,
            "the rule matched past an alternative, a repeated item, trivia, a predicate or a stack operation, or was rejected after consuming something",
            |x, _| x.flags & (F_CHO | F_REP2 | F_TRIVIA | F_PRED | F_ROLLBACK | F_STACK) != 0,
        ),
        _ => return None,
    })
}
