//! Checks of the front end: tokenizer, parser, transformer.
mod checks;
use vh_core::runner::{main_with, Prop};

fn main() {
    let p = |id, rule, limit_s, run| Prop { id, rule, limit_s, run };
    main_with(&[
        p("C01", checks::R_SOUP, 60, checks::c01),
        p("C02", checks::R_SOUP, 60, checks::c02),
        p("C03", checks::R_DOC, 60, checks::c03),
        p("C04", "literal texts, escaped character by character; non-trivial: contains a character with a meaning to escape", 60, checks::c04),
        p("C05", checks::R_SOUP, 60, checks::c05),
        p("C06", checks::R_SOUP, 60, checks::c06),
        p("C07", checks::R_DOC, 60, checks::c07),
        p("C08", checks::R_DOC, 60, checks::c08),
        p("C09", "arbitrary text and well-formed documents with injected faults; non-trivial: at least one diagnostic is due", 60, checks::c09),
        p("C10", "arbitrary and large generated texts; non-trivial: holds a bracket or an escape, or is longer than 2000 characters", 120, checks::c10),
        p("C31", checks::R31, 60, checks::c31),
        p("C11", "two documents joined by blank lines; non-trivial: both have a statement", 60, checks::c11),
    ])
}
