//! Conformance driver: executes requests (one JSON object per line on stdin)
//! against the real rust-systre API and writes one JSON response per line.
//! Panics are caught and reported as data: {"r":"panic"}.
mod json;
mod graph;
mod algebra;
mod text;

use json::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Run `f`; a panic becomes an observation, not a crash of the driver.
pub fn guarded<F: FnOnce() -> J>(f: F) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => obj(vec![("r", s("ok")), ("v", v)]),
        Err(_) => obj(vec![("r", s("panic")), ("v", J::Null)]),
    }
}

pub fn unsupported() -> J {
    std::panic::panic_any("unsupported")
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        if line.trim().is_empty() { continue; }
        let rq = parse(&line);
        let out = match rq.get("op").str() {
            "hooks" => J::Bool(cfg!(verif_hooks)),
            "graph" => graph::run(&rq),
            "partition" => graph::partition(&rq),
            "linalg" => algebra::linalg(&rq),
            "matrix" => algebra::matrix(&rq),
            "modular" => algebra::modular(&rq),
            "geom" => algebra::geom(&rq),
            "group" => algebra::group(&rq),
            "lattice" => algebra::lattice(&rq),
            "finder" => algebra::finder(&rq),
            "operator" => text::operator(&rq),
            "table" => text::table(&rq),
            "names" => text::names(&rq),
            "line" => text::line(&rq),
            "blocks" => text::blocks(&rq),
            "lines" => text::lines(&rq),
            other => bad(&format!("unknown op {}", other)),
        };
        let mut o = stdout.lock();
        writeln!(o, "{}", out).unwrap();
        o.flush().unwrap();
    }
}
