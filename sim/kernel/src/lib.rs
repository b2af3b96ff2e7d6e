//! The deterministic simulation kernel: seeded choices, explicit plans
//! (schedule + faults + operations), the run context with its event log,
//! panic capture, minimisation, worker supervision, replay and evidence.
pub mod ctx;
pub mod guard;
pub mod plan;
pub mod rng;
pub mod shrink;
pub mod supervisor;

pub use ctx::{Ctx, Stop, Violation};
pub use guard::{guard, Panicked};
pub use plan::{Plan, Step};
pub use rng::Rng;
pub use supervisor::main_entry;

/// A simulated world: turns a seed into a plan and executes plans.
/// `run` must be a pure function of the plan and the code under test.
pub trait World: Sync {
    /// Properties this world decides.
    fn properties(&self) -> &'static [&'static str];
    /// Number of runs of the quick / thorough tier.
    fn run_count(&self, prop: &str, thorough: bool) -> u64;
    fn generate(&self, prop: &str, thorough: bool, rng: &mut Rng) -> Plan;
    /// Executes the plan against the real code. Err(Stop) ends the run early.
    fn run(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop>;
    /// Plans that are always executed first (known findings, fixed defects, corner seeds).
    fn fixed_plans(&self, prop: &str) -> Vec<(String, Plan)>;
    /// Text for the evidence file.
    fn rule(&self, prop: &str) -> String;
    fn components(&self, prop: &str) -> serde_json::Value;
    fn assumptions(&self, prop: &str) -> Vec<String>;
}
