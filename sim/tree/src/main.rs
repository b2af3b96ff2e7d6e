//! Simulated worlds around the real `input_tree` crate.
mod common;
mod print;
mod replica;
mod rollback;
mod storage;
mod tracker;
mod walk;

use kernel::{Ctx, Plan, Rng, Stop, World};
use serde_json::{json, Value};

struct TreeWorld;

impl World for TreeWorld {
    fn properties(&self) -> &'static [&'static str] {
        &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C21"]
    }
    fn run_count(&self, prop: &str, thorough: bool) -> u64 {
        let quick = match prop {
            "C01" => 72_000,
            "C02" => 60_000,
            "C03" => 96_000,
            "C04" => 150_000,
            "C05" => 150_000,
            "C06" => 14_000,
            "C21" => 300_000,
            _ => 100_000,
        };
        if thorough {
            quick * if prop == "C06" { 80 } else { 40 }
        } else {
            quick
        }
    }
    fn generate(&self, prop: &str, thorough: bool, rng: &mut Rng) -> Plan {
        match prop {
            "C01" => rollback::generate(thorough, rng),
            "C02" | "C05" => replica::generate(prop, thorough, rng),
            "C03" | "C04" => tracker::generate(prop, thorough, rng),
            "C06" => storage::generate(thorough, rng),
            "C21" => walk::generate(thorough, rng),
            _ => print::generate(thorough, rng),
        }
    }
    fn run(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
        match ctx.prop.as_str() {
            "C01" => rollback::run(plan, ctx),
            "C02" | "C05" => replica::run(plan, ctx),
            "C03" | "C04" => tracker::run(plan, ctx),
            "C06" => storage::run(plan, ctx),
            "C21" => walk::run(plan, ctx),
            _ => print::run(plan, ctx),
        }
    }
    fn fixed_plans(&self, prop: &str) -> Vec<(String, Plan)> {
        match prop {
            "C01" => rollback::fixed(),
            "C02" | "C05" => replica::fixed(prop),
            "C03" | "C04" => tracker::fixed(prop),
            "C06" => storage::fixed(),
            "C07" => print::fixed(),
            "C21" => walk::fixed(),
            _ => vec![],
        }
    }
    fn rule(&self, prop: &str) -> String {
        let how = "A case is one simulated run: a seed draws a starting document and a schedule of operations, deliveries and faults, which is executed against the real input_tree code. distinct_nontrivial counts distinct schedules (hash over the decisions taken) among the runs in which ";
        let what = match prop {
            "C01" => "an undo or an interrupted batch changed the document back",
            "C02" => "a replica's document changed through delivered entries",
            "C03" => "a tracked position or selection moved",
            "C04" => "a tracked position moved or a selection was spanned between two different places",
            "C05" => "an edit that does not fit was sent to a document",
            "C21" => "a focus moved or was looked at",
            "C06" => "a non-empty document was saved and reloaded, or a damaged save was read",
            _ => "a non-empty document was printed or a sink failed while printing",
        };
        format!("{how}{what}.")
    }
    fn components(&self, prop: &str) -> Value {
        let real = "input_tree (documents, edits, positions, ranges, grids, printing, serde derives), built from /repo's working tree";
        let stub = match prop {
            "C02" | "C05" => json!(["network and log transport", "replica scheduler", "crash and restart"]),
            "C06" => json!(["disk (short, interrupted, failing, torn and lost writes; bit rot)", "front end writing the saved form"]),
            "C21" => json!(["scheduler of the walkers", "process restart (document and places saved and reloaded)"]),
            "C07" => json!(["text sinks and files that fail"]),
            "C03" | "C04" => json!(["scheduler that decides when positions follow which edits", "process restart (positions saved and reloaded)"]),
            _ => json!(["undo/redo driver", "process restart (document saved and reloaded)"]),
        };
        json!({"real": [real, "serde_json"], "simulated": stub})
    }
    fn assumptions(&self, prop: &str) -> Vec<String> {
        let mut v = vec![
            "documents nest at most 16 containers deep where they are saved (serde_json stops reading at 128 levels)".to_string(),
            "the reference model in sim/treekit describes what an edit means".to_string(),
        ];
        if prop == "C05" {
            v.push("refusing may be a panic: the caller is expected to catch it".into());
        }
        if prop == "C07" {
            v[0] = "documents nest at most about 300 containers deep".into();
        }
        v
    }
}

static WORLD: TreeWorld = TreeWorld;

fn main() {
    kernel::main_entry(&WORLD);
}
