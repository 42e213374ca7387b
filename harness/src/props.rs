use crate::check::*;
use crate::props_diff as d;
use crate::{api, battery, bound, init, layout, propsim, random};

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// seconds without progress on one case after which the case counts as hanging
    pub hang_s: u64,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Cov, u64, u64, bool) -> Res,
}
const DIFF: &[&str] = &["The reference model (harness/src/model.rs, an interpreter of the block AST written independently of the bytecode) states what blocks mean; agreement was cross-checked on the unchanged tree and every disagreement was resolved by reading the block's definition.", "Operations complete, the clock moves and inputs arrive only between turns, as the scripted host arranges."];
macro_rules! diff { ($id:literal, $f:path, $q:expr, $rule:literal) => { Prop { id: $id, rule: concat!("Random projects from a seeded grammar-based generator run on the real VM under a scripted host and on a reference interpreter of the block AST; event logs and final states must agree. ", $rule), quick: $q, thorough: $q * 30, hang_s: 60, assumptions: DIFF, run: $f } } }

static PROPS: &[Prop] = &[
    diff!("C01", d::c01, 90000, "A quarter of the cases are real projects (116 saved by the editor, /verif/corpus) with up to 15 changes to their blocks, values and variables. Non-trivial: at least three observable events; distinct by event log."),
    Prop { id: "C02", rule: "Random projects are compiled twice, their listing is checked byte by byte against the code, and each is run with and without other code around and inside its scripts (unused scripts, custom blocks, methods and branches never taken, with constants of every width) up to several MiB; logs, error positions, traces and final states must be identical. Every sixteenth case says literals of every width and compares them with their meaning; every eighth has block locations of every accepted and refused form. Non-trivial: at least three events; distinct by log and size.", quick: 6000, thorough: 300000, hang_s: 90, assumptions: &["Blocks either all have ids or none has (as in project files)."], run: layout::c02 },
    diff!("C03", d::c03, 40000, "Every case runs from code, initial state and locations that went through serialisation. Non-trivial: at least three events."),
    diff!("C04", d::c04, 80000, "Every block has an id; error positions, traces and variable listings are compared. Non-trivial: a script ended in an error."),
    diff!("C05", d::c05, 80000, "Non-trivial: an error was raised."),
    diff!("C06", d::c06, 80000, "Call limits of 2 to 1024. Non-trivial: custom blocks or rings were called."),
    diff!("C07", d::c07, 80000, "Names are shadowed heavily. One case in 41 compares tables of variables, shared handles and copies used by hosts with a reference after every operation. Non-trivial: a ring captured variables."),
    diff!("C08", d::c08, 80000, "List-heavy programs with aliasing. Non-trivial: at least three events."),
    diff!("C13", d::c13, 70000, "Turn order and yields are part of the log. An eighth of the cases are real projects with up to 8 changes. Non-trivial: a script yielded or warp suppressed a yield."),
    diff!("C14", d::c14, 70000, "Up to ten inputs at random turns. Non-trivial: an event started, queued or dropped an activation."),
    diff!("C15", d::c15, 60000, "Non-trivial: a waiting broadcast reached a receiver."),
    diff!("C16", d::c16, 80000, "Non-trivial: a stop block ran."),
    diff!("C17", d::c17, 70000, "Non-trivial: a clone was made."),
    diff!("C18", d::c18, 80000, "Operations complete out of order, fail softly, when issued or while polled; each completion is delivered through an exactly-once monitor. Non-trivial: an operation was issued."),
    diff!("C19", d::c19, 80000, "Non-trivial: a network message was sent, delivered or answered."),
    diff!("C20", d::c20, 70000, "Clock steps of 0 to 700 ms per turn. Non-trivial: a wait began."),
    diff!("C22", d::c22, 60000, "Costume- and sound-heavy programs; images are identified by name and content. Every fiftieth case also converts every note number and 200 note names. Non-trivial: a costume was switched or refused, or a sound or notes were played."),
    diff!("C29", d::c29, 70000, "The host consults zero to five layered configurations, composed in any grouping and with missing handlers, before every operation; what every layer was offered (number, contents, key) and how the offer ended is compared with the rule, and idle actions of six thresholds watch every step. Non-trivial: an operation was issued."),
    diff!("C24", d::c24, 30000, "Each case runs again under another garbage-collection schedule. Non-trivial: at least three events."),
    diff!("C25", d::c25, 90000, "Ill-typed and faulty programs; a quarter of the cases are real projects with 3 to 30 changes, an eighth hold a construct that must be refused when compiled, and some nest lists deeply (each in a process of its own). Non-trivial: at least three events."),
    diff!("C26", d::c26, 80000, "Watchers are kept by the host and read after the run and a full collection. Non-trivial: a watcher was created."),
    Prop { id: "C09", rule: BATTERY, quick: 40000, thorough: 1000000, hang_s: 60, assumptions: BATT, run: battery::c09 },
    Prop { id: "C10", rule: BATTERY, quick: 40000, thorough: 1000000, hang_s: 60, assumptions: BATT, run: battery::c10 },
    Prop { id: "C11", rule: BATTERY, quick: 40000, thorough: 1000000, hang_s: 60, assumptions: BATT, run: battery::c11 },
    Prop { id: "C12", rule: BATTERY, quick: 40000, thorough: 1000000, hang_s: 60, assumptions: BATT, run: api::c12 },
    Prop { id: "C21", rule: "Random sequences of updates of every property, through every block that updates or reads one (sprites, stage and clones, with ill-typed operands) and directly through the public functions; each observed transition is compared with a reference transition on the observed state before it, ranges and laws are checked on every state, each operation must complete its key exactly once, and every red/green/blue triple is converted to hue/saturation/brightness and back. Distinct: transitions (operation, state after).", quick: propsim::CASES, thorough: propsim::CASES * 30, hang_s: 60, assumptions: &["The reference transitions (harness/src/propsim.rs) follow the documented ranges; trigonometry agrees to 1e-9."], run: propsim::c21 },
    Prop { id: "C23", rule: "Random projects whose globals, sprites, fields, costumes and sounds hold nested, shared, cyclic and cross-referenced values; right after instantiation (40% of them from reloaded bytecode) the whole state, with one numbering of shared lists and media across the project, is compared with a reading of the declarations. Two instances are compared again after one of them ran a script that changes all it can reach, and a third is made. Distinct: declared value graphs and sprite properties.", quick: 250000, thorough: 6000000, hang_s: 60, assumptions: &["Colour is compared as red, green, blue and alpha bytes after conversion back from the stored hue, saturation, brightness and transparency."], run: init::c23 },
    diff!("C37", crate::direct::c37, 60000, "Projects are put together from the global context and the script listing: scripts, methods and blocks added for events of their own, in other orders, also mixed between sprites, some while the project runs, hats left out of the compiled project. A third of the cases run one script or block both as a project and as a process stepped by the host: same effects, result, error, trace and state, running until it ends and never afterwards. Non-trivial: at least three events."),
    Prop { id: "C27", rule: "Random operation sequences on the map (sorted and not) and slot containers; after every operation the whole container, its lookups, every live and every removed key are compared with a reference. Distinct: container contents seen.", quick: 20000, thorough: 600000, hang_s: 60, assumptions: &["Reference containers from the standard library."], run: api::c27 },
    Prop { id: "C36", rule: "Random programs made of parts which keep a bounded amount of data (self-containing lists and rings, clones, launched rings, caught and uncaught errors, watchers, messages and replies, service calls, event queues) run 384 to 1536 turns of inputs under a host that records nothing; an allocator counts every byte. After full collections at doubling marks the bytes alive may not keep growing, and once the instance is dropped every byte must be free. Distinct: effects of the run.", quick: 2500, thorough: 60000, hang_s: 120, assumptions: &["The generated programs keep a bounded amount of data by construction: variables are overwritten and never extended, clones delete themselves."], run: bound::c36 },
    Prop { id: "C31", rule: "Each case evaluates four random blocks (pick random over scalars and lists in any order of bounds, any item, any letter, insert and replace at any position) 34 or more times per possible outcome on the real VM, with a fair source of random words or one that returns mostly extreme words. Every draw must be permitted and, with the fair source, every outcome must occur (chance of a miss below 1e-13 per outcome) and fine-grained draws must differ. Distinct: block, operands and outcome.", quick: 20000, thorough: 500000, hang_s: 60, assumptions: &["Draws that a fair source would repeat or miss with probability below 1e-11 count as violations."], run: random::c31 },
];
const BATTERY: &str = "Each case evaluates 15 to 60 blocks on edge-case values (signed zeros, huge and tiny numbers, numeric texts, unicode, shared and cyclic lists, values of wrong types) on the real VM, each in its own try block; every result or error is compared with an independent reference, and laws are checked on the VM's own results. Distinct: the block with its operands and the values they stand for; every such evaluation is non-trivial.";
const BATT: &[&str] = &["Reference operations (harness/src/mval.rs) are exact for arithmetic and agree to 1e-9 for transcendental functions."];
pub fn all() -> &'static [Prop] { PROPS }
pub fn find(id: &str) -> Option<&'static Prop> { PROPS.iter().find(|p| p.id == id) }
