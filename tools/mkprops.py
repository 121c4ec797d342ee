import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TM="core/src/typed/template/mod.rs"; TR="core/src/typed/traits.rs"; RE="core/src/typed/template/repetition.rs"
SQ="core/src/sequence.rs"; CH="core/src/choice.rs"; GN="generator/src/typed/generator.rs"; MP="meta/src/parser.rs"
p("C01","A derived parser accepts exactly the language its grammar defines",
 "For every well-formed grammar (no left recursion, no unbounded repetition of an expression that can match without consuming) the parser derived from it compiles, and for every rule and every input it matches a prefix exactly when parsing-expression semantics do - literals, ranges, case-insensitive strings, ordered choice, sequences, optionals, greedy repetition, non-consuming predicates - and stops at the same byte offset. Full parsing succeeds exactly when that matched prefix is the whole input. Parsing always terminates without panicking.",
 ["programs","inputs"],"all well-formed grammars x all rules x all UTF-8 inputs",
 "The tests compile a few dozen fixed rules and try a handful of inputs on each; acceptance of an arbitrary grammar (nesting, arity, recursion, multi-byte text) is a for-all over programs and inputs.",
 [TM,SQ,CH,RE,TR,GN,MP,"core/src/position.rs"],
 [("matching combinators",TM),("ordered choice",CH),("sequence",SQ),("repetition",RE),("grammar expression to Rust type translation",GN)],
 ["T::try_parse / try_parse_partial of derived rules"])
p("C02","The pair tree is the derivation tree of the non-silent rules",
 "After a successful parse, the pair tree has exactly one pair per application of a non-silent rule that took part in the match, carrying that rule and the exact byte span it matched, children in input order and nested under the rule that invoked them. Rules tried and abandoned by backtracking, rules inside predicates, trivia, and everything at or below a silent rule (built-ins included) contribute no pair. Rendering a pair and converting it to another rule type keep this structure unchanged.",
 ["programs","inputs"],"all well-formed grammars x all accepted inputs",
 "Tests compare the pair text of a few hand-written cases; which applications survive backtracking and at what offsets depends on the grammar and input.",
 ["core/src/token/mod.rs",TR,TM,SQ,CH,RE,GN],
 [("PairContainer / PairTree",TR),("Pair",'core/src/token/mod.rs'),("generated pair API",GN)],["as_pair_tree(), vec_children_pairs(), Pair::convert, Display of Pair"])
p("C03","Parsing and checking entry points always agree",
 "For every rule and input, checking without building a tree returns success or failure, the same end offset and, on failure, the same error report as parsing with a tree; the parser type's entry points agree with the node type's. A full parse succeeds if and only if the partial parse ends at the end of the input, and both then give equal trees. Repeating a parse gives an equal result.",
 ["programs","inputs"],"all well-formed grammars x all rules x all inputs x the eight entry points",
 "Every combinator implements parsing and checking as two separate pieces of code; tests exercise mostly one of the two for a given shape.",
 [TR,TM,SQ,CH,RE,"core/src/lib.rs"],
 [("try_parse*/check* pairs in every combinator",TM),("full_rule_struct",TR)],["try_parse, try_parse_partial, check, check_partial, TypedParser::*"])
p("C04","Stack operations match a model stack and roll back exactly on failure",
 "push, pop, drop, peek, pop_all, peek_all and peek[a..b] act on one stack of matched spans as documented: push stores the text its operand matched, pop/peek match the top, the _all forms match top to bottom, slices match bottom to top with negative indices counting from the top, and an empty stack or an out-of-range index makes the operation fail. Whenever an alternative, an optional or a repetition iteration is abandoned, and after every predicate whether it held or not, the stack is exactly what it was before, however deeply these are nested.",
 ["programs","inputs","histories"],"all grammars mixing stack operations with choice/optional/repetition/predicates x all inputs",
 "The tests contain single-level stack scripts; rollback correctness is about arbitrary interleavings of pushes and pops across nested backtracking points.",
 [TM,RE,CH,TR],
 [("snapshot/restore in choice",CH),("restore_on_none",TM),("Option rollback",TR),("stack_slice / constrain_idxs",TM)],
 ["acceptance and end offset; the stack handed to try_parse_with_partial"],
 [("matching stack","spans pushed so far",TM)])
p("C05","Trivia is skipped exactly where the grammar's operators say",
 "Between two operands joined by `~` the optional-trivia rule is applied once, by `^` the mandatory-trivia rule is applied once, and by `-` nothing is skipped; a repetition written `e~*`, `e^+`, `e~{n..m}` applies the corresponding trivia between consecutive items only. Trivia is never skipped before the first item, after the last one, or at the edges of a rule, an abandoned item gives back the trivia skipped before it, and trivia leaves no trace in the tree.",
 ["programs","inputs"],"all grammars using mixed trivia operators (including trivia rules that push/pop or may match nothing) x all inputs",
 "Tests use one whitespace rule and a few inputs; which separators belong to which gap in mixed-operator sequences and counted repetitions is not sampled.",
 [SQ,RE,GN,"generator/src/typed/output.rs"],
 [("trivia type parameters of sequences",SQ),("try_parse_unit/check_unit",RE),("embed_trivia, collect_sequence",GN),("__OptionalTrivia/__MandatoryTrivia","generator/src/typed/output.rs")],
 ["acceptance, end offsets and spans"])
p("C06","A failure report names the furthest failure point and what was tried there",
 "On failure the error's position is the furthest offset at which any rule that calls no other rule (or a failing stack access, or the final end-of-input test) was attempted. The message shows the text of that line before the position and lists, grouped by the closest enclosing rule that began at a different position, exactly the rules that were expected and failed there, those that were unexpected because they matched under a negative predicate, and the failed stack accesses. Building and rendering the report never panics, whatever text the input holds.",
 ["programs","inputs"],"all well-formed grammars x all rejected inputs (multi-line, CR/LF, multi-byte)",
 "Tests compare a few literal error texts; the furthest-point bookkeeping depends on the whole attempt history including polarity changes under nested predicates.",
 ["core/src/typed/tracker.rs",TR,TM],
 [("Tracker::record / prepare / get_entry","core/src/typed/tracker.rs"),("collect_to_message","core/src/typed/tracker.rs"),("polarity in predicates",TM)],
 ["Err(..) of every entry point, its position and Display"],
 [("attempts","rules attempted at the furthest position, by enclosing rule","core/src/typed/tracker.rs")])
p("C07","Calling a meta rule equals substituting its arguments into its body",
 "A rule with parameters, silent or not, applied to any argument expressions behaves exactly like its definition with each parameter replaced, everywhere and simultaneously, by the corresponding argument; the meaning of names is that of the module where they were written. This holds for nested and repeated calls, calls in argument position, arguments that themselves mention names equal to a parameter, and calls to imported or built-in parameterised rules with the same name.",
 ["programs","inputs"],"all grammars with (silent and non-silent) meta rules x argument expressions x inputs",
 "Tests cover two silent meta rules and one non-silent one, each called once with plain rule names.",
 [GN,MP,"generator/src/typed/module.rs","derive/src/lib.rs"],
 [("inline_silent_rules_with_args",GN),("ParseExpr::replace",MP),("generic rule structs",GN)],
 ["acceptance and end offset of rules that call meta rules; whether the derive compiles"])
p("C08","Splitting a grammar over modules and sources does not change its language",
 "A rule reached through `use` (file import, alias, nested import, `pest::...` built-in import) or supplied by one of several grammar attributes matches exactly what it would match in its own file, using that file's own trivia and names; two imports of the same file give equal languages. Pairs of imported rules appear in the importer's pair tree with their rule wrapped in the importing module's variant. This holds for any name chosen for the generated rules module.",
 ["programs","inputs","configurations"],"all acyclic import graphs of well-formed grammar files x aliases x inputs",
 "One import test and one DAG snapshot exist; name resolution and trivia scoping over arbitrary import graphs are not exercised.",
 ["generator/src/typed/module.rs",GN,"generator/src/typed/output.rs","generator/src/common.rs",MP],
 [("ModuleSystem::resolve","generator/src/typed/module.rs"),("process_rules per module",GN),("SubRule/SuperRule",TR)],
 ["acceptance, pair trees, compilation of multi-file grammars"])
p("C09","Grammar text parses to the tree its documented syntax denotes",
 "Every grammar written in the documented syntax is read back as exactly the rules written: names, parameters, silent markers, documentation, imports and expressions, with postfix binding tighter than prefix, prefix tighter than `-`/`~`/`^` (one right-associative level), and those tighter than `|`. Layout, line breaks, ordinary and nested block comments, redundant parentheses, optional braces, a leading `|` and trailing commas change nothing. Recorded source spans lie within the text and cover the rule they describe.",
 ["inputs"],"all abstract grammars x all layouts of them",
 "Unit tests check token positions of some 60 small snippets; only generated trees with random layout can cover operator interaction.",
 [MP,"meta/src/grammar.pest"],
 [("pratt parser / parse_term",MP),("grammar.pest","meta/src/grammar.pest")],["pest3_meta::parser::parse result"])
p("C10","Literals denote exactly the characters their source form spells",
 "String, raw string, case-insensitive and character-range literals in a grammar denote exactly the characters spelled, whatever mix of plain characters, named, \\xHH and \\u{...} escapes or raw-string delimiters is used, and a derived parser matches exactly those characters. Repetition counts, slice indices and range endpoints are read as the numbers and characters written. Out-of-range numbers and invalid escapes are rejected with an error that points at them, never altered.",
 ["inputs"],"all strings/characters/numbers x all spellings of them",
 "Tests decode one string with every escape and a few ranges; quotes in character literals, raw strings with several pounds and boundary code points are not covered.",
 [MP,"meta/src/grammar.pest"],
 [("unescape",MP),("parse_raw_string, parse_char_range, parse_range",MP)],["ParseExpr::Str/Insens/Range/RepRange, matching behaviour"])
p("C11","Reading any text as a grammar ends in a module or an error, never a crash",
 "For every UTF-8 text, reading it as a grammar terminates and returns either a module or an error; it never panics. An error carries a position inside the text and can be rendered; a returned module can be rendered back as text rule by rule. Reading is deterministic.",
 ["inputs"],"all UTF-8 texts, including mutations of valid grammars",
 "Tests feed a few dozen malformed snippets; totality is over all texts.",
 [MP,"meta/src/grammar.pest","meta/src/error.rs"],
 [("_parse and helpers",MP)],["pest3_meta::parser::parse"])
p("C12","Positions and spans agree with a naive model of the text",
 "For every text and offsets, constructing a position or span succeeds exactly on character boundaries with start not after end, and line/column, containing line, line iteration, sub-span, split, merge, ordering, equality and span-between-positions agree with a direct computation on the text. Lines end after LF (CR LF counting as one break for columns, in characters), and iterating a span's lines yields each full line it touches once, in order. No operation panics on values it was able to construct from the same text.",
 ["inputs"],"all texts (CR, LF, CRLF, multi-byte, empty) x all offsets and sub-ranges",
 "Unit tests use a handful of offsets in three short strings.",
 ["core/src/position.rs","core/src/span.rs"],
 [("line_col, line_of, find_line_start/end","core/src/position.rs"),("get, lines_span, merge_spans","core/src/span.rs")],["Position and Span public methods"])
p("C13","Span and position snippets show the right lines, text and markers",
 "Displaying any span or position of any text never panics and shows the 1-based numbers and visualised text of the line where it starts and the line where it ends, all lines between when at most three and otherwise the first and last of them around an ellipsis, with the marker(s) under the first (and last) covered column measured in display width. Custom formatters receive exactly the covered text, the markers and the numbers, so stripping the decoration gives the default output.",
 ["inputs"],"all texts x all spans and positions x formatter options",
 "About 25 fixed snapshots; widths, line counts, control characters and edges are combinatorial.",
 ["core/src/formatter.rs","core/src/span.rs","core/src/position.rs"],
 [("display_span / display_position","core/src/formatter.rs")],["Display of Span/Position; display() with FormatOption"])
p("C14","Generated accessors return exactly the sub-nodes the rule body names",
 "Calling the accessor that a rule offers for a name returns, in input order, exactly the nodes matched by the occurrences of that name in the rule's body (parameters included): nothing for alternatives, optionals or iterations that did not take part, and nodes looked at by positive predicates included. Its shape follows the body: a single reference for a name that always takes part once, one `Option` for an optional or alternative one (nested options flattened), a `Vec` per enclosing repetition, a tuple with one component per occurrence. Every name referenced by a rule body outside negative predicates and outside the arguments of calls has such an accessor.",
 ["programs","inputs"],"all rule bodies (nested repetition, option, choice, sequence, push, predicates) x accepted inputs",
 "Snapshots of generated code are compared for five grammars, and a few accessors are called; nesting combinations are unbounded.",
 ["generator/src/typed/getter.rs",GN],
 [("GetterByName / Node::expand","generator/src/typed/getter.rs")],["generated accessor methods"])
p("C15","Built-in rules match exactly their documented characters and positions",
 "Every built-in rule under `pest` - any, soi, eoi, newline, the ascii classes, the stack rules' names, and each Unicode property - is usable by its documented path, and matches exactly one character of its class (newline: LF, CR LF or CR, longest first; soi/eoi: only the start/end, consuming nothing) and nothing else. Unicode rules agree with the Unicode property tables for every scalar value, and parsing and checking agree.",
 ["inputs"],"all built-in rules x all Unicode scalar values and positions",
 "Tests try a few characters for a few of roughly 270 built-ins.",
 [TM,"core/src/typed/unicode.rs","core/src/lib.rs","generator/src/typed/module.rs","generator/src/typed/output.rs"],
 [("template built-ins",TM),("unicode! types","core/src/typed/unicode.rs"),("make_global","generator/src/typed/module.rs")],["rules referencing built-ins"])
p("C16","Code generation is deterministic and options never change the language",
 "Deriving a parser from the same attributes and grammar text always yields the same code, in any process. Whether the grammar is given inline or in a file, split over several grammar attributes, laid out differently, its rules reordered, or derived with any combination of the supported attributes and any rules-module name, the derived rules accept the same inputs with the same end offsets.",
 ["programs","configurations"],"all grammars x attribute combinations x processes",
 "Snapshot tests run one configuration per grammar once.",
 [GN,"generator/src/typed/attr.rs","generator/src/config.rs","generator/src/typed/config.rs","derive/src/lib.rs"],
 [("parse_derive","generator/src/typed/attr.rs"),("collect_data","generator/src/config.rs"),("collect_reachability",GN)],["derive_typed_parser output; compiled behaviour"])
p("C17","Counted repetition matches between its bounds, greedily, and no more",
 "`e*`, `e+`, `e?`, `e{n}`, `e{n..m}`, `e{n..}`, `e{..m}` and `e{..}`, with or without trivia separators, match as many consecutive items as possible up to the inclusive upper bound and succeed exactly when at least the lower bound was reached. They never give items back, consume nothing of an item that fails, and expose exactly the matched items in order.",
 ["programs","inputs"],"all bounds n<=m x separators x operands x inputs",
 "Tests instantiate about ten bound combinations on one operand each.",
 [RE,GN,MP,TR],
 [("RepMinMax",RE),("RepRange translation",GN),("parse_range",MP)],["acceptance, end offset, item counts"])
p("C18","Typed nodes record exactly what was matched",
 "After a successful parse the typed tree holds, for every part of the expression, what that part matched: the selected alternative and no other, presence or absence of an optional, the repeated items in order, the sequence fields in order, and for leaves the exact character or text matched (original case for insensitive strings, line-ending kind, stack span). Tuple, reference and iterator views agree with the fields, and each rule node's span is exactly the text it consumed.",
 ["programs","inputs"],"all expression shapes up to the supported arities x accepted inputs",
 "Tests look at the content of a few nodes; field and variant indexing for arities 2 to 16 and leaf contents are not exhausted.",
 [TM,SQ,CH,RE,TR],
 [("typed combinators' fields and accessors",TM),("sequence_type",SQ),("choice_type",CH)],["public fields and accessors of typed nodes"])
p("C19","Imports resolve to the right files, each once, and failures are reported",
 "An import without an explicit path names the file derived from the module path relative to the importing file (`super` going up), one with `in \"path\"` names that file, and the local name is the alias or the last path segment. The dependency set of a grammar, and the files the derived code includes, are exactly the files read, directly or indirectly, each file being read into one shared module, and several sources join into one module with all they have. A missing, malformed or cyclically importing file yields an error from the importing read, not a crash.",
 ["programs","fault_sequences"],"all directory layouts and import graphs, including missing, malformed and cyclic files",
 "Two fixed import fixtures exist, both healthy.",
 [MP,GN,"generator/src/common.rs"],
 [("mod_path_to_fs_path, _parse import arm, cache",MP)],["parse() result: imports, dependencies, error"])
p("C20","The rule enumeration reflects the grammar",
 "The generated rule enumeration has an end-of-input variant and one variant per rule of the grammar (trivia rules and inlined silent meta rules excepted) in definition order, plus one wrapping variant per file import in import order; rule documentation and grammar documentation are attached to them. The order of variants is the order used by comparisons and error reports, each generated node reports its own variant, and conversion of an imported rule into its importer's enumeration wraps it without loss.",
 ["programs"],"all grammars (names including Rust keywords, documentation, imports)",
 "Snapshots cover five grammars.",
 ["generator/src/common.rs",GN,TR],
 [("generate_rule_enum","generator/src/common.rs"),("SubRule/SuperRule",TR)],["generated Rule enum"])
p("C21","Ill-formed grammars are rejected when the parser is generated",
 "A grammar that refers to an undefined rule or module, defines a name twice, calls a rule with the wrong number or kind of arguments, slices or calls something that does not support it, or uses `~`/`^` without defining that trivia, is rejected while generating the parser with a diagnostic; and a grammar with none of these faults is never rejected. Malformed attributes are rejected likewise.",
 ["programs"],"all single-fault mutations of well-formed grammars",
 "No test feeds the generator an ill-formed grammar.",
 ["generator/src/typed/module.rs",GN,"generator/src/typed/attr.rs","generator/src/config.rs"],
 [("ModuleError","generator/src/typed/module.rs"),("collect_used_rule",GN),("parse_derive","generator/src/typed/attr.rs")],["derive_typed_parser"])
p("C22","Hand-composed runtime types behave as the expressions they stand for",
 "A parser written without the generator, from the public sequence, choice, repetition, predicate, stack, text and rule templates (`sequence_type!`, `choice_type!`, `full_rule_struct!`), any of them nested in any other, accepts the same inputs with the same end, stack effect, failure report and recorded content as the expression it stands for. Nodes that cannot fail always succeed through every entry point, the helpers for nodes of one's own (`match_char_by`, `restore_on_none`) move the input and the stack only on success, and the views of a node (tuples, references, iterators, defaults, equality and hashing, the ways to list pairs) agree with each other.",
 ["programs","inputs","histories"],"all type compositions up to the supported arities x inputs x prior stacks",
 "Tests compose a handful of types with one input each; the generator emits only some of the possible compositions.",
 [TM,SQ,CH,RE,TR,"core/src/typed/wrapper.rs"],
 [("templates",TM),("sequence_type",SQ),("choice_type",CH),("full_rule_struct",TR)],["public methods, fields and trait implementations of the templates"],
 )
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2 or print(x['id'],x['statement'].count('. '))
