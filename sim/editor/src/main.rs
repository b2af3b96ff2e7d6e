//! Simulated pages around the real editor (`caret`), parser and serialization crates.
mod clip;
mod model;
mod page;
mod rules;
mod session;
mod syntax;

use kernel::{Ctx, Plan, Rng, Stop, World};
use serde_json::{json, Value};

struct EditorWorld;

impl World for EditorWorld {
    fn properties(&self) -> &'static [&'static str] {
        &["C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"]
    }
    fn run_count(&self, prop: &str, thorough: bool) -> u64 {
        let quick = match prop {
            "C12" | "C14" => 120_000,
            "C16" | "C17" => 70_000,
            _ => 200_000,
        };
        if thorough {
            quick * 60
        } else {
            quick
        }
    }
    fn generate(&self, prop: &str, thorough: bool, rng: &mut Rng) -> Plan {
        page::generate(prop, thorough, rng)
    }
    fn run(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
        page::run(plan, ctx)
    }
    fn fixed_plans(&self, prop: &str) -> Vec<(String, Plan)> {
        page::fixed(prop)
    }
    fn rule(&self, _prop: &str) -> String {
        "A case is one simulated session: a seed draws a page (editors, parser rules, starting documents) and a schedule of key presses, pointer actions, clipboard use and faults, host actions, readings and restarts from sources that run side by side. distinct_nontrivial counts distinct schedules (hash over the decisions taken) among the runs in which at least one step changed an editor's history.".into()
    }
    fn components(&self, _prop: &str) -> Value {
        json!({"real": ["caret (MathEditor, carets, movement, deletion, undo/redo, autocomplete)", "parser (pratt parser, rule modules, autocomplete matching)", "serialization", "input_tree", "serde_json"],
               "simulated": ["parser combinator library (chumsky is not available offline: sim/mini-chumsky implements the part of its API that the parser crate uses)", "keyboard, pointer, host page and screen refreshes", "system clipboard with loss, truncation, damage, foreign content", "page restart"]})
    }
    fn assumptions(&self, _prop: &str) -> Vec<String> {
        vec![
            "pointer positions and host ranges address places of the current document".into(),
            "keys move by characters (word and line moves are not implemented and unused by the front end) and pasting names its data type".into(),
            "documents stay below 260 elements and 14 levels; rows with more than 4 unclosed or 40 opening brackets are not parsed in random plans (known finding C16/unclosed-brackets-take-exponential-time)".into(),
        ]
    }
}

static WORLD: EditorWorld = EditorWorld;

fn main() {
    kernel::main_entry(&WORLD);
}
