pub mod display;
pub mod global;
pub mod resolvers;
pub mod select;
pub mod store;
pub mod tokens;

use crate::engine::Check;

const SEG: &str = "the unicode-segmentation, unicode-width, rust_decimal and wiktionary crates and std's Unicode tables are the reference";
const ONLY: &str = "only the executions of this run were observed; the case space is sampled except where a count says otherwise";

macro_rules! check {
    ($id:literal, $f:path, $fixed:expr, $quick:expr, $thorough:expr, $must:expr, $rule:expr) => {
        Check { id: $id, rule: $rule, assumptions: &[SEG, ONLY], fixed: $fixed, quick: $quick, thorough: $thorough, case: $f, must: $must }
    };
}

pub static CHECKS: &[Check] = &[
    check!("C01", tokens::c01, tokens::FIXED + 1, 300_000, 3_600_000, &["tokens", "scalar_contexts", "custom_inputs"],
        "fixed: every Unicode scalar value in 8 contexts, 18 extreme texts and a line of 67000 tokens; random: 0-20 inputs, realistic to hostile text, customs, six measures. Non-trivial: more than one input or more than two tokens; distinct by the inputs"),
    check!("C02", tokens::c02, tokens::FIXED, 400_000, 4_800_000, &["boundaries", "digit_words"],
        "fixed: every Unicode scalar value in 8 contexts and 18 extreme texts; random: inputs as in C01 plus strings of characters the segmentation rules look at. Non-trivial: more than one token; distinct by the inputs"),
    check!("C03", tokens::c03, tokens::FIXED, 400_000, 4_800_000, &["natn", "punc", "symb", "space", "word", "single_chars"],
        "fixed: every Unicode scalar value in 8 contexts and 18 extreme texts; random: inputs as in C01 plus strings around the word rule. Non-trivial: more than one token; distinct by the inputs"),
    check!("C04", tokens::c04, 1, 600_000, 7_200_000, &["ranges", "slices", "composed_ranges"],
        "fixed: a line of 67002 tokens with positions beyond 32 bits; random: inputs as in C01 with layers over random spans, six measures (one not additive), searched by text, by every type and by composed matchers. Non-trivial: more than one token; distinct by inputs and measure"),
    check!("C05", store::c05, 1, 400_000, 4_800_000, &["attributes_supplied", "late_attributes", "view_events"],
        "fixed: 6000 inputs; random: 1-30 inputs with 0-400 attributes of ten types, early and late. Non-trivial: at least one attribute; distinct by tokens and recorded spans"),
    check!("C06", store::c06, 2, 300_000, 3_600_000, &["runs", "assignments", "whole_line_assignments", "empty_lines", "values_seen_inside"],
        "fixed: no tokens, and a line of 66100 tokens; random: lines as in C05, then 1-24 layers with 0-400 assignments each (repeated spans, equal values, library types), bundled resolvers in between; tokens, positions and all values are read back after every run. Non-trivial: every case with tokens; distinct by tokens and recorded spans"),
    check!("C07", store::c07, 1, 350_000, 4_200_000, &["values_read_back", "view_events"],
        "fixed: a line of 66100 tokens; random: lines and layers as in C06; query, line search, selection search, two-way search, matches out of every partial selection and the rendering are compared. Non-trivial: more than one token; distinct by tokens and recorded spans"),
    check!("C08", store::c08, store::C08_FIXED, 1_000_000, 12_000_000, &["type_pairs", "types_read_back", "values_read_back"],
        "fixed: every ordered pair of 97 look-alike types, and all types on one span; random: a few neighbouring types on a random line. Non-trivial: at least two values; distinct by the values recorded"),
    check!("C09", select::c09, select::FIXED, 300_000, 3_600_000, &["operations_with_results", "attr", "attr_eq", "token_has_any", "token_text", "whitespace"],
        "fixed: 300 values on a span and lines of up to 66100 tokens (also in C10-C16); random: scenes of inputs and layers with nested, crossing, repeated and adjacent spans; basic matchers from every token in both directions and out of partial selections. Non-trivial: more than one token; distinct by scene and operations"),
    check!("C10", select::c10, select::FIXED, 200_000, 2_400_000, &["operations_with_results", "seq2", "seq3", "all2", "all3", "any2", "any3"],
        "random: scenes as in C09; random matcher trees of depth 1-6 from every token in both directions and out of partial selections. Non-trivial: more than one token; distinct by scene and operations"),
    check!("C11", select::c11, select::FIXED, 350_000, 4_200_000, &["find_by", "find_first_by", "find_by_forwards_and_backwards", "line_finds", "operations_with_results"],
        "random: scenes as in C09; searches of random and edge-touching selections. Non-trivial: more than one token; distinct by scene and operations"),
    check!("C12", select::c12, select::FIXED, 400_000, 4_800_000, &["match_forwards", "match_first_forwards", "match_backwards", "match_first_backwards", "operations_with_results"],
        "random: scenes as in C09; matches out of random and edge-touching selections. Non-trivial: more than one token; distinct by scene and operations"),
    check!("C13", select::c13, select::FIXED, 400_000, 4_800_000, &["trim", "trim_start", "trim_end", "operations_with_results"],
        "random: scenes as in C09; trims of random and edge-touching selections. Non-trivial: more than one token; distinct by scene and operations"),
    check!("C14", select::c14, select::FIXED, 350_000, 4_200_000, &["split_by", "operations_with_results"],
        "random: scenes as in C09; splits of random and edge-touching selections. Non-trivial: more than one token; distinct by scene and operations"),
    check!("C15", select::c15, select::FIXED, 400_000, 4_800_000, &["split_with", "after", "refusals", "operations_with_results"],
        "random: scenes as in C09; before/after arithmetic of pairs of selections, and of selections of different lines. Non-trivial: more than one token; distinct by scene and operations"),
    check!("C16", select::c16, select::FIXED, 210_000, 2_520_000, &["selections", "coverage_checked", "equal_pairs", "different_pairs", "object_pairs", "twin_pairs", "empty_lines"],
        "random: scenes as in C09; chains of 3-60 operations fed with each other's results, all selections compared pairwise and assigned; pairs of lines made alike (customs only, no size, any measure). Non-trivial: more than one token; distinct by scene and chain length"),
    check!("C17", display::c17, display::C17_FIXED, 300_000, 3_600_000, &["renderings", "bars", "closed_bars", "debug_texts"],
        "fixed: long and wide lines, and every Unicode scalar value as a token; random: lines and layers as in C06 with wide, zero-width and control characters, types included in random order, repeatedly or not recorded, hostile Debug texts (random, multi-line, ending in whitespace, up to 40 kB). Non-trivial: something recorded; distinct by tokens and values"),
    check!("C18", resolvers::c18, resolvers::C18_FIXED, 1_200_000, 14_400_000, &["lines_with_assignments", "sensitive", "insensitive_map", "insensitive_array"],
        "fixed: a line of more than 65536 tokens, lookups of thousands of entries, and every Unicode scalar value with its case forms; random: texts and lookups with case pairs of many scripts, repeated values, keys that match nothing, one or two runs. Non-trivial: at least one assignment; distinct by tokens and number of entries"),
    check!("C19", resolvers::c19, resolvers::C19_FIXED, 240_000, 2_880_000, &["amounts", "decimals", "integers", "several_groups", "values_that_do_not_fit", "wide_values"],
        "fixed: limits of the decimal type, long numbers, a line of 66000 tokens, and every Unicode scalar value as delimiter and as decimal separator; random: well and badly formed numbers with random delimiters and decimal separators, over one or several inputs, supplied characters on custom and text tokens, separators that are digits themselves, numbers too big. Non-trivial: at least one number token; distinct by tokens and decimal separator"),
    check!("C20", resolvers::c20, resolvers::C20_FIXED, 300_000, 3_600_000, &["documented_examples", "english", "french", "amounts"],
        "fixed: the eight documented examples, and every Unicode scalar value between numbers; random: texts as in C19 with the presets' characters. Non-trivial: at least one number token; distinct by tokens and preset"),
    check!("C21", resolvers::c21, resolvers::C21_FIXED, 1_500_000, 18_000_000, &["condition_starts", "thens", "ands"],
        "fixed: a line of 67000 tokens, and every Unicode scalar value with its case forms, a third of them keywords; random: sentences in random case with keyword lists of several languages and 4096 made up ones (words of any script, symbols, numbers, up to 200 entries), overlapping and empty lists, over one or several inputs and customs. Non-trivial: at least one keyword; distinct by tokens and lists"),
    check!("C22", resolvers::c22, resolvers::C22_FIXED, 1_200_000, 14_400_000, &["conditions", "leading_effects", "trailing_effects", "independents", "supplied_keywords"],
        "fixed: lines of 2000 and 66000 tokens, and every Unicode scalar value between words; random: sentences as in C21 with all kinds of whitespace and punctuation, keywords of several tokens supplied with the input. Non-trivial: at least one clause; distinct by tokens and number of keywords"),
    check!("C23", resolvers::c23, resolvers::C23_FIXED, 750_000, 9_000_000, &["known_words", "unknown_words", "tags", "other_tokens"],
        "fixed: every word of the dictionary, in random case, a line of 66000 tokens, and every Unicode scalar value with its case forms; random: mixtures in random case. Non-trivial: at least one word; distinct by tokens"),
    check!("C24", global::c24, 1, 16_000, 480_000, &["alike_texts_compared", "repetitions", "alternations", "nested_runs", "interrupted_runs", "concurrent_dumps_compared", "process_comparisons", "fresh_process_comparisons"],
        "fixed: digests of 60 programs computed by other processes in other environments; random: three quarters of the cases texts that are alike (words with long common beginnings or ends, anagrams, near numbers, other cases) met in several orders, on two threads and side by side in one line; the others 2-6 programs (inputs and 1-6 resolver runs; texts shared or nearly the same) repeated, run alternately, run inside each other (from measures, resolvers, matchers, comparisons and rendering), run after others that panicked in such a place, run in processes of their own (every eighth), and run and read concurrently by four threads. Non-trivial: every case; distinct by everything read from the lines"),
    check!("C25", global::c25, 8, 80_000, 1_500_000, &["operations", "bytes_read", "bytes_rendered", "drops_watched", "amount_runs", "keyword_runs", "clause_runs", "pos_runs", "lookup_runs", "layer_runs"],
        "fixed: very long, deep and many-layered inputs; random: hostile inputs, 0-8 bundled or random resolvers in any order, chains of 25 operations, everything read and rendered; values with watched destructors. Non-trivial: every case; distinct by everything read"),
    check!("C26", global::c26, 1, 200_000, 2_400_000, &["values_compared", "unrelated_layers", "unrelated_attributes"],
        "fixed: a line of 6000 tokens; random: the five bundled resolvers alone on a clean line against all of them in a random admissible order among unrelated attributes and layers (own and everyday types such as bool, usize and String; characters and tags where they are not read). Non-trivial: more than two values compared; distinct by inputs and order"),
];

pub fn find(id: &str) -> Option<&'static Check> {
    CHECKS.iter().find(|c| c.id == id)
}
