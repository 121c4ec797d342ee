//! The parser of builtins.pest. Its only reason not to compile: a built-in that is not usable by its path.
use pest3::typed::{Tracker, TypedNode};
use pest3::{Position, Span, Stack};

#[derive(pest3::Parser)]
#[grammar = "builtins.pest"]
pub struct P;

pub type Got = (Option<usize>, Option<usize>);
/// End offset of parsing and of checking at `at` with a stack that holds `held`.
pub type Fun = for<'i> fn(&'i str, usize, &[(usize, usize)]) -> Got;
pub fn run<'i, T: TypedNode<'i, Rule>>(t: &'i str, at: usize, held: &[(usize, usize)]) -> Got {
    let pos = Position::new(t, at).unwrap();
    let stack = || {
        let mut s: Stack<Span<'i>> = Stack::new();
        for (a, b) in held {
            s.push(Span::new(t, *a, *b).unwrap());
        }
        s
    };
    let a = T::try_parse_with_partial(pos, &mut stack(), &mut Tracker::new(pos)).map(|x| x.0.pos());
    let b = T::check_with_partial(pos, &mut stack(), &mut Tracker::new(pos)).map(|x| x.pos());
    (a, b)
}
/// Name, whether it is of pest::unicode, how to run it.
pub static RULES: &[(&str, bool, Fun)] = &[
    ("ascii_digit", false, |t, at, h| run::<rules::x_ascii_digit<'_>>(t, at, h)),
    ("ascii_nonzero_digit", false, |t, at, h| run::<rules::x_ascii_nonzero_digit<'_>>(t, at, h)),
    ("ascii_bin_digit", false, |t, at, h| run::<rules::x_ascii_bin_digit<'_>>(t, at, h)),
    ("ascii_oct_digit", false, |t, at, h| run::<rules::x_ascii_oct_digit<'_>>(t, at, h)),
    ("ascii_hex_digit", false, |t, at, h| run::<rules::x_ascii_hex_digit<'_>>(t, at, h)),
    ("ascii_alpha_lower", false, |t, at, h| run::<rules::x_ascii_alpha_lower<'_>>(t, at, h)),
    ("ascii_alpha_upper", false, |t, at, h| run::<rules::x_ascii_alpha_upper<'_>>(t, at, h)),
    ("ascii_alpha", false, |t, at, h| run::<rules::x_ascii_alpha<'_>>(t, at, h)),
    ("ascii_alphanumeric", false, |t, at, h| run::<rules::x_ascii_alphanumeric<'_>>(t, at, h)),
    ("ascii", false, |t, at, h| run::<rules::x_ascii<'_>>(t, at, h)),
    ("any", false, |t, at, h| run::<rules::x_any<'_>>(t, at, h)),
    ("newline", false, |t, at, h| run::<rules::x_newline<'_>>(t, at, h)),
    ("soi", false, |t, at, h| run::<rules::x_soi<'_>>(t, at, h)),
    ("eoi", false, |t, at, h| run::<rules::x_eoi<'_>>(t, at, h)),
    ("peek", false, |t, at, h| run::<rules::x_peek<'_>>(t, at, h)),
    ("peek_all", false, |t, at, h| run::<rules::x_peek_all<'_>>(t, at, h)),
    ("pop", false, |t, at, h| run::<rules::x_pop<'_>>(t, at, h)),
    ("pop_all", false, |t, at, h| run::<rules::x_pop_all<'_>>(t, at, h)),
    ("drop", false, |t, at, h| run::<rules::x_drop<'_>>(t, at, h)),
    ("push", false, |t, at, h| run::<rules::x_push<'_>>(t, at, h)),
    ("peek_slice", false, |t, at, h| run::<rules::x_peek_slice<'_>>(t, at, h)),
    ("peek_from", false, |t, at, h| run::<rules::x_peek_from<'_>>(t, at, h)),
    ("alphabetic", true, |t, at, h| run::<rules::u_alphabetic<'_>>(t, at, h)),
    ("bidi_control", true, |t, at, h| run::<rules::u_bidi_control<'_>>(t, at, h)),
    ("case_ignorable", true, |t, at, h| run::<rules::u_case_ignorable<'_>>(t, at, h)),
    ("cased", true, |t, at, h| run::<rules::u_cased<'_>>(t, at, h)),
    ("changes_when_casefolded", true, |t, at, h| run::<rules::u_changes_when_casefolded<'_>>(t, at, h)),
    ("changes_when_casemapped", true, |t, at, h| run::<rules::u_changes_when_casemapped<'_>>(t, at, h)),
    ("changes_when_lowercased", true, |t, at, h| run::<rules::u_changes_when_lowercased<'_>>(t, at, h)),
    ("changes_when_titlecased", true, |t, at, h| run::<rules::u_changes_when_titlecased<'_>>(t, at, h)),
    ("changes_when_uppercased", true, |t, at, h| run::<rules::u_changes_when_uppercased<'_>>(t, at, h)),
    ("dash", true, |t, at, h| run::<rules::u_dash<'_>>(t, at, h)),
    ("default_ignorable_code_point", true, |t, at, h| run::<rules::u_default_ignorable_code_point<'_>>(t, at, h)),
    ("deprecated", true, |t, at, h| run::<rules::u_deprecated<'_>>(t, at, h)),
    ("diacritic", true, |t, at, h| run::<rules::u_diacritic<'_>>(t, at, h)),
    ("emoji", true, |t, at, h| run::<rules::u_emoji<'_>>(t, at, h)),
    ("emoji_component", true, |t, at, h| run::<rules::u_emoji_component<'_>>(t, at, h)),
    ("emoji_modifier", true, |t, at, h| run::<rules::u_emoji_modifier<'_>>(t, at, h)),
    ("emoji_modifier_base", true, |t, at, h| run::<rules::u_emoji_modifier_base<'_>>(t, at, h)),
    ("emoji_presentation", true, |t, at, h| run::<rules::u_emoji_presentation<'_>>(t, at, h)),
    ("extended_pictographic", true, |t, at, h| run::<rules::u_extended_pictographic<'_>>(t, at, h)),
    ("extender", true, |t, at, h| run::<rules::u_extender<'_>>(t, at, h)),
    ("grapheme_base", true, |t, at, h| run::<rules::u_grapheme_base<'_>>(t, at, h)),
    ("grapheme_extend", true, |t, at, h| run::<rules::u_grapheme_extend<'_>>(t, at, h)),
    ("grapheme_link", true, |t, at, h| run::<rules::u_grapheme_link<'_>>(t, at, h)),
    ("hex_digit", true, |t, at, h| run::<rules::u_hex_digit<'_>>(t, at, h)),
    ("hyphen", true, |t, at, h| run::<rules::u_hyphen<'_>>(t, at, h)),
    ("ids_binary_operator", true, |t, at, h| run::<rules::u_ids_binary_operator<'_>>(t, at, h)),
    ("ids_trinary_operator", true, |t, at, h| run::<rules::u_ids_trinary_operator<'_>>(t, at, h)),
    ("id_continue", true, |t, at, h| run::<rules::u_id_continue<'_>>(t, at, h)),
    ("id_start", true, |t, at, h| run::<rules::u_id_start<'_>>(t, at, h)),
    ("ideographic", true, |t, at, h| run::<rules::u_ideographic<'_>>(t, at, h)),
    ("join_control", true, |t, at, h| run::<rules::u_join_control<'_>>(t, at, h)),
    ("logical_order_exception", true, |t, at, h| run::<rules::u_logical_order_exception<'_>>(t, at, h)),
    ("lowercase", true, |t, at, h| run::<rules::u_lowercase<'_>>(t, at, h)),
    ("math", true, |t, at, h| run::<rules::u_math<'_>>(t, at, h)),
    ("noncharacter_code_point", true, |t, at, h| run::<rules::u_noncharacter_code_point<'_>>(t, at, h)),
    ("other_alphabetic", true, |t, at, h| run::<rules::u_other_alphabetic<'_>>(t, at, h)),
    ("other_default_ignorable_code_point", true, |t, at, h| run::<rules::u_other_default_ignorable_code_point<'_>>(t, at, h)),
    ("other_grapheme_extend", true, |t, at, h| run::<rules::u_other_grapheme_extend<'_>>(t, at, h)),
    ("other_id_continue", true, |t, at, h| run::<rules::u_other_id_continue<'_>>(t, at, h)),
    ("other_id_start", true, |t, at, h| run::<rules::u_other_id_start<'_>>(t, at, h)),
    ("other_lowercase", true, |t, at, h| run::<rules::u_other_lowercase<'_>>(t, at, h)),
    ("other_math", true, |t, at, h| run::<rules::u_other_math<'_>>(t, at, h)),
    ("other_uppercase", true, |t, at, h| run::<rules::u_other_uppercase<'_>>(t, at, h)),
    ("pattern_syntax", true, |t, at, h| run::<rules::u_pattern_syntax<'_>>(t, at, h)),
    ("pattern_white_space", true, |t, at, h| run::<rules::u_pattern_white_space<'_>>(t, at, h)),
    ("prepended_concatenation_mark", true, |t, at, h| run::<rules::u_prepended_concatenation_mark<'_>>(t, at, h)),
    ("quotation_mark", true, |t, at, h| run::<rules::u_quotation_mark<'_>>(t, at, h)),
    ("radical", true, |t, at, h| run::<rules::u_radical<'_>>(t, at, h)),
    ("regional_indicator", true, |t, at, h| run::<rules::u_regional_indicator<'_>>(t, at, h)),
    ("sentence_terminal", true, |t, at, h| run::<rules::u_sentence_terminal<'_>>(t, at, h)),
    ("soft_dotted", true, |t, at, h| run::<rules::u_soft_dotted<'_>>(t, at, h)),
    ("terminal_punctuation", true, |t, at, h| run::<rules::u_terminal_punctuation<'_>>(t, at, h)),
    ("unified_ideograph", true, |t, at, h| run::<rules::u_unified_ideograph<'_>>(t, at, h)),
    ("uppercase", true, |t, at, h| run::<rules::u_uppercase<'_>>(t, at, h)),
    ("variation_selector", true, |t, at, h| run::<rules::u_variation_selector<'_>>(t, at, h)),
    ("white_space", true, |t, at, h| run::<rules::u_white_space<'_>>(t, at, h)),
    ("xid_continue", true, |t, at, h| run::<rules::u_xid_continue<'_>>(t, at, h)),
    ("xid_start", true, |t, at, h| run::<rules::u_xid_start<'_>>(t, at, h)),
    ("cased_letter", true, |t, at, h| run::<rules::u_cased_letter<'_>>(t, at, h)),
    ("close_punctuation", true, |t, at, h| run::<rules::u_close_punctuation<'_>>(t, at, h)),
    ("connector_punctuation", true, |t, at, h| run::<rules::u_connector_punctuation<'_>>(t, at, h)),
    ("control", true, |t, at, h| run::<rules::u_control<'_>>(t, at, h)),
    ("currency_symbol", true, |t, at, h| run::<rules::u_currency_symbol<'_>>(t, at, h)),
    ("dash_punctuation", true, |t, at, h| run::<rules::u_dash_punctuation<'_>>(t, at, h)),
    ("decimal_number", true, |t, at, h| run::<rules::u_decimal_number<'_>>(t, at, h)),
    ("enclosing_mark", true, |t, at, h| run::<rules::u_enclosing_mark<'_>>(t, at, h)),
    ("final_punctuation", true, |t, at, h| run::<rules::u_final_punctuation<'_>>(t, at, h)),
    ("format", true, |t, at, h| run::<rules::u_format<'_>>(t, at, h)),
    ("initial_punctuation", true, |t, at, h| run::<rules::u_initial_punctuation<'_>>(t, at, h)),
    ("letter", true, |t, at, h| run::<rules::u_letter<'_>>(t, at, h)),
    ("letter_number", true, |t, at, h| run::<rules::u_letter_number<'_>>(t, at, h)),
    ("line_separator", true, |t, at, h| run::<rules::u_line_separator<'_>>(t, at, h)),
    ("lowercase_letter", true, |t, at, h| run::<rules::u_lowercase_letter<'_>>(t, at, h)),
    ("mark", true, |t, at, h| run::<rules::u_mark<'_>>(t, at, h)),
    ("math_symbol", true, |t, at, h| run::<rules::u_math_symbol<'_>>(t, at, h)),
    ("modifier_letter", true, |t, at, h| run::<rules::u_modifier_letter<'_>>(t, at, h)),
    ("modifier_symbol", true, |t, at, h| run::<rules::u_modifier_symbol<'_>>(t, at, h)),
    ("nonspacing_mark", true, |t, at, h| run::<rules::u_nonspacing_mark<'_>>(t, at, h)),
    ("number", true, |t, at, h| run::<rules::u_number<'_>>(t, at, h)),
    ("open_punctuation", true, |t, at, h| run::<rules::u_open_punctuation<'_>>(t, at, h)),
    ("other", true, |t, at, h| run::<rules::u_other<'_>>(t, at, h)),
    ("other_letter", true, |t, at, h| run::<rules::u_other_letter<'_>>(t, at, h)),
    ("other_number", true, |t, at, h| run::<rules::u_other_number<'_>>(t, at, h)),
    ("other_punctuation", true, |t, at, h| run::<rules::u_other_punctuation<'_>>(t, at, h)),
    ("other_symbol", true, |t, at, h| run::<rules::u_other_symbol<'_>>(t, at, h)),
    ("paragraph_separator", true, |t, at, h| run::<rules::u_paragraph_separator<'_>>(t, at, h)),
    ("private_use", true, |t, at, h| run::<rules::u_private_use<'_>>(t, at, h)),
    ("punctuation", true, |t, at, h| run::<rules::u_punctuation<'_>>(t, at, h)),
    ("separator", true, |t, at, h| run::<rules::u_separator<'_>>(t, at, h)),
    ("space_separator", true, |t, at, h| run::<rules::u_space_separator<'_>>(t, at, h)),
    ("spacing_mark", true, |t, at, h| run::<rules::u_spacing_mark<'_>>(t, at, h)),
    ("surrogate", true, |t, at, h| run::<rules::u_surrogate<'_>>(t, at, h)),
    ("symbol", true, |t, at, h| run::<rules::u_symbol<'_>>(t, at, h)),
    ("titlecase_letter", true, |t, at, h| run::<rules::u_titlecase_letter<'_>>(t, at, h)),
    ("unassigned", true, |t, at, h| run::<rules::u_unassigned<'_>>(t, at, h)),
    ("uppercase_letter", true, |t, at, h| run::<rules::u_uppercase_letter<'_>>(t, at, h)),
    ("adlam", true, |t, at, h| run::<rules::u_adlam<'_>>(t, at, h)),
    ("ahom", true, |t, at, h| run::<rules::u_ahom<'_>>(t, at, h)),
    ("anatolian_hieroglyphs", true, |t, at, h| run::<rules::u_anatolian_hieroglyphs<'_>>(t, at, h)),
    ("arabic", true, |t, at, h| run::<rules::u_arabic<'_>>(t, at, h)),
    ("armenian", true, |t, at, h| run::<rules::u_armenian<'_>>(t, at, h)),
    ("avestan", true, |t, at, h| run::<rules::u_avestan<'_>>(t, at, h)),
    ("balinese", true, |t, at, h| run::<rules::u_balinese<'_>>(t, at, h)),
    ("bamum", true, |t, at, h| run::<rules::u_bamum<'_>>(t, at, h)),
    ("bassa_vah", true, |t, at, h| run::<rules::u_bassa_vah<'_>>(t, at, h)),
    ("batak", true, |t, at, h| run::<rules::u_batak<'_>>(t, at, h)),
    ("bengali", true, |t, at, h| run::<rules::u_bengali<'_>>(t, at, h)),
    ("bhaiksuki", true, |t, at, h| run::<rules::u_bhaiksuki<'_>>(t, at, h)),
    ("bopomofo", true, |t, at, h| run::<rules::u_bopomofo<'_>>(t, at, h)),
    ("brahmi", true, |t, at, h| run::<rules::u_brahmi<'_>>(t, at, h)),
    ("braille", true, |t, at, h| run::<rules::u_braille<'_>>(t, at, h)),
    ("buginese", true, |t, at, h| run::<rules::u_buginese<'_>>(t, at, h)),
    ("buhid", true, |t, at, h| run::<rules::u_buhid<'_>>(t, at, h)),
    ("canadian_aboriginal", true, |t, at, h| run::<rules::u_canadian_aboriginal<'_>>(t, at, h)),
    ("carian", true, |t, at, h| run::<rules::u_carian<'_>>(t, at, h)),
    ("caucasian_albanian", true, |t, at, h| run::<rules::u_caucasian_albanian<'_>>(t, at, h)),
    ("chakma", true, |t, at, h| run::<rules::u_chakma<'_>>(t, at, h)),
    ("cham", true, |t, at, h| run::<rules::u_cham<'_>>(t, at, h)),
    ("cherokee", true, |t, at, h| run::<rules::u_cherokee<'_>>(t, at, h)),
    ("chorasmian", true, |t, at, h| run::<rules::u_chorasmian<'_>>(t, at, h)),
    ("common", true, |t, at, h| run::<rules::u_common<'_>>(t, at, h)),
    ("coptic", true, |t, at, h| run::<rules::u_coptic<'_>>(t, at, h)),
    ("cuneiform", true, |t, at, h| run::<rules::u_cuneiform<'_>>(t, at, h)),
    ("cypriot", true, |t, at, h| run::<rules::u_cypriot<'_>>(t, at, h)),
    ("cypro_minoan", true, |t, at, h| run::<rules::u_cypro_minoan<'_>>(t, at, h)),
    ("cyrillic", true, |t, at, h| run::<rules::u_cyrillic<'_>>(t, at, h)),
    ("deseret", true, |t, at, h| run::<rules::u_deseret<'_>>(t, at, h)),
    ("devanagari", true, |t, at, h| run::<rules::u_devanagari<'_>>(t, at, h)),
    ("dives_akuru", true, |t, at, h| run::<rules::u_dives_akuru<'_>>(t, at, h)),
    ("dogra", true, |t, at, h| run::<rules::u_dogra<'_>>(t, at, h)),
    ("duployan", true, |t, at, h| run::<rules::u_duployan<'_>>(t, at, h)),
    ("egyptian_hieroglyphs", true, |t, at, h| run::<rules::u_egyptian_hieroglyphs<'_>>(t, at, h)),
    ("elbasan", true, |t, at, h| run::<rules::u_elbasan<'_>>(t, at, h)),
    ("elymaic", true, |t, at, h| run::<rules::u_elymaic<'_>>(t, at, h)),
    ("ethiopic", true, |t, at, h| run::<rules::u_ethiopic<'_>>(t, at, h)),
    ("georgian", true, |t, at, h| run::<rules::u_georgian<'_>>(t, at, h)),
    ("glagolitic", true, |t, at, h| run::<rules::u_glagolitic<'_>>(t, at, h)),
    ("gothic", true, |t, at, h| run::<rules::u_gothic<'_>>(t, at, h)),
    ("grantha", true, |t, at, h| run::<rules::u_grantha<'_>>(t, at, h)),
    ("greek", true, |t, at, h| run::<rules::u_greek<'_>>(t, at, h)),
    ("gujarati", true, |t, at, h| run::<rules::u_gujarati<'_>>(t, at, h)),
    ("gunjala_gondi", true, |t, at, h| run::<rules::u_gunjala_gondi<'_>>(t, at, h)),
    ("gurmukhi", true, |t, at, h| run::<rules::u_gurmukhi<'_>>(t, at, h)),
    ("han", true, |t, at, h| run::<rules::u_han<'_>>(t, at, h)),
    ("hangul", true, |t, at, h| run::<rules::u_hangul<'_>>(t, at, h)),
    ("hanifi_rohingya", true, |t, at, h| run::<rules::u_hanifi_rohingya<'_>>(t, at, h)),
    ("hanunoo", true, |t, at, h| run::<rules::u_hanunoo<'_>>(t, at, h)),
    ("hatran", true, |t, at, h| run::<rules::u_hatran<'_>>(t, at, h)),
    ("hebrew", true, |t, at, h| run::<rules::u_hebrew<'_>>(t, at, h)),
    ("hiragana", true, |t, at, h| run::<rules::u_hiragana<'_>>(t, at, h)),
    ("imperial_aramaic", true, |t, at, h| run::<rules::u_imperial_aramaic<'_>>(t, at, h)),
    ("inherited", true, |t, at, h| run::<rules::u_inherited<'_>>(t, at, h)),
    ("inscriptional_pahlavi", true, |t, at, h| run::<rules::u_inscriptional_pahlavi<'_>>(t, at, h)),
    ("inscriptional_parthian", true, |t, at, h| run::<rules::u_inscriptional_parthian<'_>>(t, at, h)),
    ("javanese", true, |t, at, h| run::<rules::u_javanese<'_>>(t, at, h)),
    ("kaithi", true, |t, at, h| run::<rules::u_kaithi<'_>>(t, at, h)),
    ("kannada", true, |t, at, h| run::<rules::u_kannada<'_>>(t, at, h)),
    ("katakana", true, |t, at, h| run::<rules::u_katakana<'_>>(t, at, h)),
    ("kawi", true, |t, at, h| run::<rules::u_kawi<'_>>(t, at, h)),
    ("kayah_li", true, |t, at, h| run::<rules::u_kayah_li<'_>>(t, at, h)),
    ("kharoshthi", true, |t, at, h| run::<rules::u_kharoshthi<'_>>(t, at, h)),
    ("khitan_small_script", true, |t, at, h| run::<rules::u_khitan_small_script<'_>>(t, at, h)),
    ("khmer", true, |t, at, h| run::<rules::u_khmer<'_>>(t, at, h)),
    ("khojki", true, |t, at, h| run::<rules::u_khojki<'_>>(t, at, h)),
    ("khudawadi", true, |t, at, h| run::<rules::u_khudawadi<'_>>(t, at, h)),
    ("lao", true, |t, at, h| run::<rules::u_lao<'_>>(t, at, h)),
    ("latin", true, |t, at, h| run::<rules::u_latin<'_>>(t, at, h)),
    ("lepcha", true, |t, at, h| run::<rules::u_lepcha<'_>>(t, at, h)),
    ("limbu", true, |t, at, h| run::<rules::u_limbu<'_>>(t, at, h)),
    ("linear_a", true, |t, at, h| run::<rules::u_linear_a<'_>>(t, at, h)),
    ("linear_b", true, |t, at, h| run::<rules::u_linear_b<'_>>(t, at, h)),
    ("lisu", true, |t, at, h| run::<rules::u_lisu<'_>>(t, at, h)),
    ("lycian", true, |t, at, h| run::<rules::u_lycian<'_>>(t, at, h)),
    ("lydian", true, |t, at, h| run::<rules::u_lydian<'_>>(t, at, h)),
    ("mahajani", true, |t, at, h| run::<rules::u_mahajani<'_>>(t, at, h)),
    ("makasar", true, |t, at, h| run::<rules::u_makasar<'_>>(t, at, h)),
    ("malayalam", true, |t, at, h| run::<rules::u_malayalam<'_>>(t, at, h)),
    ("mandaic", true, |t, at, h| run::<rules::u_mandaic<'_>>(t, at, h)),
    ("manichaean", true, |t, at, h| run::<rules::u_manichaean<'_>>(t, at, h)),
    ("marchen", true, |t, at, h| run::<rules::u_marchen<'_>>(t, at, h)),
    ("masaram_gondi", true, |t, at, h| run::<rules::u_masaram_gondi<'_>>(t, at, h)),
    ("medefaidrin", true, |t, at, h| run::<rules::u_medefaidrin<'_>>(t, at, h)),
    ("meetei_mayek", true, |t, at, h| run::<rules::u_meetei_mayek<'_>>(t, at, h)),
    ("mende_kikakui", true, |t, at, h| run::<rules::u_mende_kikakui<'_>>(t, at, h)),
    ("meroitic_cursive", true, |t, at, h| run::<rules::u_meroitic_cursive<'_>>(t, at, h)),
    ("meroitic_hieroglyphs", true, |t, at, h| run::<rules::u_meroitic_hieroglyphs<'_>>(t, at, h)),
    ("miao", true, |t, at, h| run::<rules::u_miao<'_>>(t, at, h)),
    ("modi", true, |t, at, h| run::<rules::u_modi<'_>>(t, at, h)),
    ("mongolian", true, |t, at, h| run::<rules::u_mongolian<'_>>(t, at, h)),
    ("mro", true, |t, at, h| run::<rules::u_mro<'_>>(t, at, h)),
    ("multani", true, |t, at, h| run::<rules::u_multani<'_>>(t, at, h)),
    ("myanmar", true, |t, at, h| run::<rules::u_myanmar<'_>>(t, at, h)),
    ("nabataean", true, |t, at, h| run::<rules::u_nabataean<'_>>(t, at, h)),
    ("nag_mundari", true, |t, at, h| run::<rules::u_nag_mundari<'_>>(t, at, h)),
    ("nandinagari", true, |t, at, h| run::<rules::u_nandinagari<'_>>(t, at, h)),
    ("new_tai_lue", true, |t, at, h| run::<rules::u_new_tai_lue<'_>>(t, at, h)),
    ("newa", true, |t, at, h| run::<rules::u_newa<'_>>(t, at, h)),
    ("nko", true, |t, at, h| run::<rules::u_nko<'_>>(t, at, h)),
    ("nushu", true, |t, at, h| run::<rules::u_nushu<'_>>(t, at, h)),
    ("nyiakeng_puachue_hmong", true, |t, at, h| run::<rules::u_nyiakeng_puachue_hmong<'_>>(t, at, h)),
    ("ogham", true, |t, at, h| run::<rules::u_ogham<'_>>(t, at, h)),
    ("ol_chiki", true, |t, at, h| run::<rules::u_ol_chiki<'_>>(t, at, h)),
    ("old_hungarian", true, |t, at, h| run::<rules::u_old_hungarian<'_>>(t, at, h)),
    ("old_italic", true, |t, at, h| run::<rules::u_old_italic<'_>>(t, at, h)),
    ("old_north_arabian", true, |t, at, h| run::<rules::u_old_north_arabian<'_>>(t, at, h)),
    ("old_permic", true, |t, at, h| run::<rules::u_old_permic<'_>>(t, at, h)),
    ("old_persian", true, |t, at, h| run::<rules::u_old_persian<'_>>(t, at, h)),
    ("old_sogdian", true, |t, at, h| run::<rules::u_old_sogdian<'_>>(t, at, h)),
    ("old_south_arabian", true, |t, at, h| run::<rules::u_old_south_arabian<'_>>(t, at, h)),
    ("old_turkic", true, |t, at, h| run::<rules::u_old_turkic<'_>>(t, at, h)),
    ("old_uyghur", true, |t, at, h| run::<rules::u_old_uyghur<'_>>(t, at, h)),
    ("oriya", true, |t, at, h| run::<rules::u_oriya<'_>>(t, at, h)),
    ("osage", true, |t, at, h| run::<rules::u_osage<'_>>(t, at, h)),
    ("osmanya", true, |t, at, h| run::<rules::u_osmanya<'_>>(t, at, h)),
    ("pahawh_hmong", true, |t, at, h| run::<rules::u_pahawh_hmong<'_>>(t, at, h)),
    ("palmyrene", true, |t, at, h| run::<rules::u_palmyrene<'_>>(t, at, h)),
    ("pau_cin_hau", true, |t, at, h| run::<rules::u_pau_cin_hau<'_>>(t, at, h)),
    ("phags_pa", true, |t, at, h| run::<rules::u_phags_pa<'_>>(t, at, h)),
    ("phoenician", true, |t, at, h| run::<rules::u_phoenician<'_>>(t, at, h)),
    ("psalter_pahlavi", true, |t, at, h| run::<rules::u_psalter_pahlavi<'_>>(t, at, h)),
    ("rejang", true, |t, at, h| run::<rules::u_rejang<'_>>(t, at, h)),
    ("runic", true, |t, at, h| run::<rules::u_runic<'_>>(t, at, h)),
    ("samaritan", true, |t, at, h| run::<rules::u_samaritan<'_>>(t, at, h)),
    ("saurashtra", true, |t, at, h| run::<rules::u_saurashtra<'_>>(t, at, h)),
    ("sharada", true, |t, at, h| run::<rules::u_sharada<'_>>(t, at, h)),
    ("shavian", true, |t, at, h| run::<rules::u_shavian<'_>>(t, at, h)),
    ("siddham", true, |t, at, h| run::<rules::u_siddham<'_>>(t, at, h)),
    ("signwriting", true, |t, at, h| run::<rules::u_signwriting<'_>>(t, at, h)),
    ("sinhala", true, |t, at, h| run::<rules::u_sinhala<'_>>(t, at, h)),
    ("sogdian", true, |t, at, h| run::<rules::u_sogdian<'_>>(t, at, h)),
    ("sora_sompeng", true, |t, at, h| run::<rules::u_sora_sompeng<'_>>(t, at, h)),
    ("soyombo", true, |t, at, h| run::<rules::u_soyombo<'_>>(t, at, h)),
    ("sundanese", true, |t, at, h| run::<rules::u_sundanese<'_>>(t, at, h)),
    ("syloti_nagri", true, |t, at, h| run::<rules::u_syloti_nagri<'_>>(t, at, h)),
    ("syriac", true, |t, at, h| run::<rules::u_syriac<'_>>(t, at, h)),
    ("tagalog", true, |t, at, h| run::<rules::u_tagalog<'_>>(t, at, h)),
    ("tagbanwa", true, |t, at, h| run::<rules::u_tagbanwa<'_>>(t, at, h)),
    ("tai_le", true, |t, at, h| run::<rules::u_tai_le<'_>>(t, at, h)),
    ("tai_tham", true, |t, at, h| run::<rules::u_tai_tham<'_>>(t, at, h)),
    ("tai_viet", true, |t, at, h| run::<rules::u_tai_viet<'_>>(t, at, h)),
    ("takri", true, |t, at, h| run::<rules::u_takri<'_>>(t, at, h)),
    ("tamil", true, |t, at, h| run::<rules::u_tamil<'_>>(t, at, h)),
    ("tangsa", true, |t, at, h| run::<rules::u_tangsa<'_>>(t, at, h)),
    ("tangut", true, |t, at, h| run::<rules::u_tangut<'_>>(t, at, h)),
    ("telugu", true, |t, at, h| run::<rules::u_telugu<'_>>(t, at, h)),
    ("thaana", true, |t, at, h| run::<rules::u_thaana<'_>>(t, at, h)),
    ("thai", true, |t, at, h| run::<rules::u_thai<'_>>(t, at, h)),
    ("tibetan", true, |t, at, h| run::<rules::u_tibetan<'_>>(t, at, h)),
    ("tifinagh", true, |t, at, h| run::<rules::u_tifinagh<'_>>(t, at, h)),
    ("tirhuta", true, |t, at, h| run::<rules::u_tirhuta<'_>>(t, at, h)),
    ("toto", true, |t, at, h| run::<rules::u_toto<'_>>(t, at, h)),
    ("ugaritic", true, |t, at, h| run::<rules::u_ugaritic<'_>>(t, at, h)),
    ("vai", true, |t, at, h| run::<rules::u_vai<'_>>(t, at, h)),
    ("vithkuqi", true, |t, at, h| run::<rules::u_vithkuqi<'_>>(t, at, h)),
    ("wancho", true, |t, at, h| run::<rules::u_wancho<'_>>(t, at, h)),
    ("warang_citi", true, |t, at, h| run::<rules::u_warang_citi<'_>>(t, at, h)),
    ("yezidi", true, |t, at, h| run::<rules::u_yezidi<'_>>(t, at, h)),
    ("yi", true, |t, at, h| run::<rules::u_yi<'_>>(t, at, h)),
    ("zanabazar_square", true, |t, at, h| run::<rules::u_zanabazar_square<'_>>(t, at, h)),
];
/// The character in the node of a Unicode rule, by the order of `RULES`.
pub static CONTENT: &[for<'i> fn(&'i str, usize) -> Option<char>] = &[
    |t, at| node::<rules::u_alphabetic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_bidi_control<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_case_ignorable<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_cased<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_changes_when_casefolded<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_changes_when_casemapped<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_changes_when_lowercased<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_changes_when_titlecased<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_changes_when_uppercased<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_dash<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_default_ignorable_code_point<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_deprecated<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_diacritic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_emoji<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_emoji_component<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_emoji_modifier<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_emoji_modifier_base<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_emoji_presentation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_extended_pictographic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_extender<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_grapheme_base<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_grapheme_extend<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_grapheme_link<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_hex_digit<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_hyphen<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_ids_binary_operator<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_ids_trinary_operator<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_id_continue<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_id_start<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_ideographic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_join_control<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_logical_order_exception<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_lowercase<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_math<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_noncharacter_code_point<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_alphabetic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_default_ignorable_code_point<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_grapheme_extend<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_id_continue<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_id_start<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_lowercase<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_math<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_uppercase<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_pattern_syntax<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_pattern_white_space<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_prepended_concatenation_mark<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_quotation_mark<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_radical<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_regional_indicator<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_sentence_terminal<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_soft_dotted<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_terminal_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_unified_ideograph<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_uppercase<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_variation_selector<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_white_space<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_xid_continue<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_xid_start<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_cased_letter<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_close_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_connector_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_control<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_currency_symbol<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_dash_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_decimal_number<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_enclosing_mark<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_final_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_format<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_initial_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_letter<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_letter_number<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_line_separator<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_lowercase_letter<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_mark<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_math_symbol<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_modifier_letter<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_modifier_symbol<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_nonspacing_mark<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_number<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_open_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_letter<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_number<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_other_symbol<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_paragraph_separator<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_private_use<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_punctuation<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_separator<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_space_separator<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_spacing_mark<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_surrogate<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_symbol<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_titlecase_letter<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_unassigned<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_uppercase_letter<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_adlam<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_ahom<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_anatolian_hieroglyphs<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_arabic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_armenian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_avestan<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_balinese<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_bamum<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_bassa_vah<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_batak<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_bengali<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_bhaiksuki<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_bopomofo<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_brahmi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_braille<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_buginese<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_buhid<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_canadian_aboriginal<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_carian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_caucasian_albanian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_chakma<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_cham<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_cherokee<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_chorasmian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_common<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_coptic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_cuneiform<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_cypriot<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_cypro_minoan<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_cyrillic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_deseret<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_devanagari<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_dives_akuru<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_dogra<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_duployan<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_egyptian_hieroglyphs<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_elbasan<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_elymaic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_ethiopic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_georgian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_glagolitic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_gothic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_grantha<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_greek<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_gujarati<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_gunjala_gondi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_gurmukhi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_han<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_hangul<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_hanifi_rohingya<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_hanunoo<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_hatran<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_hebrew<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_hiragana<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_imperial_aramaic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_inherited<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_inscriptional_pahlavi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_inscriptional_parthian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_javanese<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_kaithi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_kannada<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_katakana<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_kawi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_kayah_li<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_kharoshthi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_khitan_small_script<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_khmer<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_khojki<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_khudawadi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_lao<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_latin<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_lepcha<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_limbu<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_linear_a<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_linear_b<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_lisu<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_lycian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_lydian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_mahajani<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_makasar<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_malayalam<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_mandaic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_manichaean<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_marchen<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_masaram_gondi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_medefaidrin<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_meetei_mayek<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_mende_kikakui<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_meroitic_cursive<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_meroitic_hieroglyphs<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_miao<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_modi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_mongolian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_mro<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_multani<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_myanmar<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_nabataean<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_nag_mundari<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_nandinagari<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_new_tai_lue<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_newa<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_nko<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_nushu<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_nyiakeng_puachue_hmong<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_ogham<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_ol_chiki<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_hungarian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_italic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_north_arabian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_permic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_persian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_sogdian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_south_arabian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_turkic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_old_uyghur<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_oriya<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_osage<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_osmanya<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_pahawh_hmong<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_palmyrene<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_pau_cin_hau<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_phags_pa<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_phoenician<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_psalter_pahlavi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_rejang<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_runic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_samaritan<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_saurashtra<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_sharada<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_shavian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_siddham<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_signwriting<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_sinhala<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_sogdian<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_sora_sompeng<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_soyombo<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_sundanese<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_syloti_nagri<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_syriac<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tagalog<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tagbanwa<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tai_le<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tai_tham<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tai_viet<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_takri<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tamil<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tangsa<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tangut<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_telugu<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_thaana<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_thai<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tibetan<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tifinagh<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_tirhuta<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_toto<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_ugaritic<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_vai<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_vithkuqi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_wancho<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_warang_citi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_yezidi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_yi<'_>>(t, at).map(|x| x.content.content),
    |t, at| node::<rules::u_zanabazar_square<'_>>(t, at).map(|x| x.content.content),
];
fn node<'i, T: TypedNode<'i, Rule>>(t: &'i str, at: usize) -> Option<T> {
    let pos = Position::new(t, at).unwrap();
    T::try_parse_with_partial(pos, &mut Stack::new(), &mut Tracker::new(pos)).map(|x| x.1)
}
