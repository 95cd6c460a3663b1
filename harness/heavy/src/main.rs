//! Checks of everything behind the front end: macros, code generation, plugins, the command line,
//! projects and the language server.
mod cli;
mod cmdline;
mod fetch;
mod lsp;
mod net;
mod pipeline;
mod universe;
mod wat;
use vh_core::runner::{main_with, Prop};

fn main() {
    let p = |id, rule, limit_s, run| Prop { id, rule, limit_s, run };
    // Whatever writes to the current directory writes to the scratch directory.
    if let Ok(w) = std::env::var("VH_WORK") {
        let _ = std::env::set_current_dir(&w);
        // The same plugin is compiled to machine code once.
        let f = format!("{w}/cache.toml");
        let _ = std::fs::write(&f, format!("[cache]\nenabled = true\ndirectory = \"{w}/cache\"\n"));
        std::env::set_var("EXTISM_CACHE_CONFIG", f);
    }
    main_with(&[
        p("C12", pipeline::R, 60, pipeline::c12),
        p("C13", pipeline::R, 60, pipeline::c13),
        p("C14", pipeline::R, 60, pipeline::c14),
        p("C15", pipeline::R, 60, pipeline::c15),
        p("C16", pipeline::R, 60, pipeline::c16),
        p("C17", pipeline::R, 60, pipeline::c17),
        p("C18", cmdline::R18, 120, cmdline::c18),
        p("C19", cmdline::R19, 120, cmdline::c19),
        p("C20", cmdline::R20, 120, cmdline::c20),
        p("C21", cmdline::R21, 120, cmdline::c21),
        p("C22", fetch::R22, 120, fetch::c22),
        p("C23", fetch::R23, 120, fetch::c23),
        p("C24", lsp::R24, 120, lsp::c24),
        p("C25", lsp::R25, 120, lsp::c25),
        p("C26", lsp::R26, 120, lsp::c26),
        p("C27", lsp::R27, 120, lsp::c27),
        p("C28", lsp::R28, 120, lsp::c28),
        p("C29", cmdline::R29, 120, cmdline::c29),
        p("C30", cmdline::R30, 120, cmdline::c30),
    ])
}
