use crate::engine::*;
pub mod direct;
pub mod language;
pub mod laws;
pub mod lists;
pub mod literals;
pub mod meta;
pub mod more;
pub mod output;
pub mod parsing;
pub mod robust;

const DOMAIN: &str = "well-formed grammars: no left recursion, no repetition of a body that can match nothing, bounded nesting";
const RULE_DOC: &str = "a case is one (grammar, document, settings); grammars are generated as trees that are well formed by construction and printed in the meta language, documents are derived from the grammar and mutated; non-trivial: the reference evaluates at least 4 rules; distinct by hash of grammar text, document and settings";

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 600_000, thorough: 10_000_000, rule: RULE_DOC, case: parsing::c01, pinned: &[("former disagreements", parsing::pinned_language)], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C02", quick: 600_000, thorough: 10_000_000, rule: RULE_DOC, case: parsing::c02, pinned: &[], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C03", quick: 600_000, thorough: 10_000_000, rule: RULE_DOC, case: parsing::c03, pinned: &[], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C04", quick: 600_000, thorough: 10_000_000, rule: RULE_DOC, case: parsing::c04, pinned: &[], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C05", quick: 500_000, thorough: 10_000_000, rule: "a case is one (grammar, document), run not optimized, optimized and twice optimized; non-trivial: the optimizer changed the rules and a choice is evaluated", case: parsing::c05, pinned: &[("choices at the end of the text", parsing::pinned_optimizer)], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C06", quick: 1_000_000, thorough: 8_000_000, rule: "a case is one grammar text; non-trivial: at least four rules; distinct by text", case: language::c06, pinned: &[("large node ids", language::pinned_large_id)], findings: &[], assumptions: &[] },
    Prop { id: "C07", quick: 600_000, thorough: 6_000_000, rule: "a case is one rewriting of one grammar; non-trivial: it uses comments or string references; distinct by text", case: language::c07, pinned: &[], findings: &[], assumptions: &[] },
    Prop { id: "C08", quick: 600_000, thorough: 6_000_000, rule: "a case is one text offered as grammar to four rule sets; non-trivial: at least 12 bytes; distinct by text", case: language::c08, pinned: &[("fixpoint", language::fixpoint)], findings: &[], assumptions: &["at most a handful of unclosed block comments, which take exponential time to reject"] },
    Prop { id: "C09", quick: 750_000, thorough: 6_000_000, rule: "a case is one grammar in an older language; non-trivial: at least four rules; distinct by text", case: language::c09, pinned: &[("old language described in itself", language::old_self)], findings: &[], assumptions: &[] },
    Prop { id: "C23", quick: 750_000, thorough: 6_000_000, rule: "a case is one grammar with an undefined or repeated name, and one document for undefined nodes; non-trivial: the name is used, and for undefined nodes the deepest failure is at the reference", case: language::c23, pinned: &[("undefined strings", language::pinned_undefined_string)], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C10", quick: 1_600_000, thorough: 8_000_000, rule: "a case is one sequence of meta data written as JSON, and one string; non-trivial: at least three items; distinct by output", case: output::c10, pinned: &[("control characters", output::pinned_control)], findings: &[], assumptions: &["well-nested meta data with finite numbers"] },
    Prop { id: "C11", quick: 1_600_000, thorough: 8_000_000, rule: "a case is one (text, range, error); non-trivial: the text has several lines or is not ASCII; distinct by all three", case: output::c11, pinned: &[("columns", output::pinned_column)], findings: &[], assumptions: &["ranges inside the text, on character boundaries"] },
    Prop { id: "C13", quick: 1_250_000, thorough: 10_000_000, rule: "a case is one sequence of meta data given to convert(); non-trivial: valid data with permuted properties or unknown items, or at least four items of other data; distinct by data", case: meta::c13, pinned: &[("unbalanced", meta::pinned_unbalanced)], findings: &[], assumptions: &["unknown items stand in rules with properties or several rules; the rule of a node follows its id, and the separator precedes the separated rule, as their order decides debug ids"] },
    Prop { id: "C14", quick: 3_000_000, thorough: 15_000_000, rule: "a case is one history of operations on the cursor; non-trivial: it advances at least twice; distinct by data and operations", case: meta::c14, pinned: &[], findings: &[], assumptions: &["well-nested meta data"] },
    Prop { id: "C15", quick: 3_000_000, thorough: 15_000_000, rule: "a case is one history of searches and reads; non-trivial: it advances at least twice; distinct by data and operations", case: meta::c15, pinned: &[], findings: &[], assumptions: &[] },
    Prop { id: "C12", quick: 600_000, thorough: 4_000_000, rule: "a case is one text read as grammar, or one document read with a well-formed grammar; non-trivial: at least 8 or 2 bytes; distinct by texts and settings", case: robust::c12, pinned: &[("inputs that crashed", robust::pinned_crashes)], findings: &[], assumptions: &[DOMAIN, "texts that take millions of steps (unclosed nested comments) are left out"] },
    Prop { id: "C16", quick: 3_000_000, thorough: 12_000_000, rule: "a case is one spelling of a number with text around it; non-trivial: at least three characters; distinct by rule and text", case: literals::c16, pinned: &[("numbers", literals::pinned_numbers)], findings: &[], assumptions: &["what follows the literal does not continue it (no digit, `.`, `e` or allowed `_`)", "Rust's str::parse::<f64> rounds correctly; cross-checked on shortest and 17 digit spellings and on exact halfway cases"] },
    Prop { id: "C17", quick: 3_000_000, thorough: 12_000_000, rule: "a case is one literal, written by the library or not, valid or not; non-trivial: longer than four bytes; distinct by rule and text", case: literals::c17, pinned: &[("text", literals::pinned_text)], findings: &[("surrogate-pairs", literals::surrogate_pairs)], assumptions: &["escaped surrogate pairs are a known finding and only probed by an explicit case"] },
    Prop { id: "C18", quick: 1_500_000, thorough: 12_000_000, rule: "a case is one printed outline, one line moved in some; non-trivial: at least three lines; distinct by grammar, text and settings", case: lists::c18, pinned: &[("abandoned block", lists::pinned_blocks)], findings: &[], assumptions: &[] },
    Prop { id: "C19", quick: 3_000_000, thorough: 12_000_000, rule: "a case is one list of items in one layout; non-trivial: at least two items; distinct by grammar and text", case: lists::c19, pinned: &[("lines", lists::pinned_lines)], findings: &[], assumptions: &[] },
    Prop { id: "C20", quick: 300_000, thorough: 6_000_000, rule: "a case is one (grammar, rewritten grammar, document, settings); non-trivial: at least four rule evaluations; distinct by all of them", case: laws::c20, pinned: &[("abandoned block", lists::pinned_blocks)], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C21", quick: 3_000_000, thorough: 12_000_000, rule: "a case is one printed list, flat or nested; non-trivial: at least two bytes; distinct by grammar and text", case: lists::c21, pinned: &[("trailing separators", lists::pinned_trailing)], findings: &[], assumptions: &[] },
    Prop { id: "C22", quick: 300_000, thorough: 4_000_000, rule: "a case is one grammar with four documents, repeated, reordered and on four threads in some; non-trivial: at least four rules; distinct by texts", case: laws::c22, pinned: &[("first use by threads", laws::first_use), ("thousands of uses", laws::many_uses)], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C24", quick: 300_000, thorough: 6_000_000, rule: "a case is one (grammar, document, settings), as written and optimized; non-trivial: at least eight rule evaluations; distinct by all three", case: laws::c24, pinned: &[], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C25", quick: 360_000, thorough: 2_500_000, rule: "a case is one grammar text or one document through all entry points; non-trivial: at least 8 or 2 bytes; distinct by texts", case: robust::c25, pinned: &[("no nodes", robust::pinned_no_nodes)], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C26", quick: 1_500_000, thorough: 8_000_000, rule: "a case is one text written to two outputs that accept few bytes, are interrupted or fail; non-trivial: at least three items or bytes, or a text of several lines or not ASCII; distinct by what is written and how", case: more::c26, pinned: &[], findings: &[], assumptions: &[] },
    Prop { id: "C27", quick: 300_000, thorough: 6_000_000, rule: "a case is one (grammar, rewritten grammar, document, settings); non-trivial: at least four rule evaluations, one of a node reference; distinct by all of them", case: more::c27, pinned: &[], findings: &[], assumptions: &[DOMAIN, "numbers of nodes differ, so that debug ids can be told apart"] },
    Prop { id: "C28", quick: 500_000, thorough: 8_000_000, rule: "a case is one history of rules read directly from a text, with the state going on or back, and data read in between; non-trivial: at least two rules succeed with data or are given up; distinct by grammar, text and history", case: direct::c28, pinned: &[], findings: &[], assumptions: &[DOMAIN] },
    Prop { id: "C29", quick: 500_000, thorough: 8_000_000, rule: "a case is one choice with the grammar it refers to, and twelve places of texts; non-trivial: the choice has an entry in its table or a rule a first byte; distinct by grammar, rule and texts", case: direct::c29, pinned: &[], findings: &[], assumptions: &[DOMAIN] },
];
