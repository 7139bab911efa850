//! The registry of properties.
use crate::engine::PropDef;

pub mod clone;
pub mod common;
pub mod conc;
pub mod fk;
pub mod ik;
pub mod registers;
pub mod single;
pub mod structure;
pub mod urdf;

const A_STD: &str = "k reaches locks, atomics, clocks, files and child processes only through std paths (no direct system calls)";
const A_SAMPLE: &str = "seeded sampling of schedules, not an enumeration: a clean batch is evidence, not proof";
const A_SC: &str = "simulated execution is sequentially consistent and switches threads at synchronisation points only (k contains no unsafe code, so there are no data races in between)";
const A: &[&str] = &[A_STD, A_SAMPLE, A_SC];

pub fn all() -> &'static [PropDef] {
    &[
        PropDef { id: "C01", run: fk::c01, quick: 200000, thorough: 1500000, rule: "one run = one random robot (1-8 joints, branches, mimic couplings, sub-chains and subtrees), 1-4 threads of forward-kinematics passes, setters, origin changes and reads of the remembered poses, one seeded schedule (one run in fifteen is several times larger in joints, calls or threads); non-trivial: a pass and, with several threads, at least one preemption", assumptions: A },
        PropDef { id: "C02", run: fk::c02, quick: 150000, thorough: 1000000, rule: "one run = one random robot with links, 1-4 threads computing jacobians, centers of mass, velocities, end and link poses against setters, one seeded schedule (one run in fifteen is several times larger in joints, calls or threads) and a quiet tail; non-trivial: with several threads, at least one preemption", assumptions: A },
        PropDef { id: "C03", run: registers::c03, quick: 200000, thorough: 1500000, rule: "one run = one random robot, 2-4 threads with 1-5 random setter/getter calls each, one seeded schedule (one run in fifteen is several times larger in joints, calls or threads); non-trivial: at least one preemption and at least two overlapping operations on one joint", assumptions: A },
        PropDef { id: "C04", run: registers::c04, quick: 150000, thorough: 1500000, rule: "one run = one random robot with limits, 2-4 threads of checked/clamped setters, IK calls and readers, one seeded schedule (one run in fifteen is several times larger in joints, calls or threads); non-trivial: at least one preemption and one observation of a limited joint", assumptions: A },
        PropDef { id: "C05", run: registers::c05, quick: 180000, thorough: 1500000, rule: "one run = one random robot with mimic couplings, 2-4 threads of setters and readers on a leader and its followers (in one run of eight: of one joint which gets other leaders meanwhile), one seeded schedule (one run in fifteen is several times larger in joints, calls or threads); non-trivial: at least one preemption and two overlapping operations on one coupled pair", assumptions: A },
        PropDef { id: "C06", run: ik::c06, quick: 100000, thorough: 400000, rule: "one run = one random arm (3-9 joints) with side branches, 1-3 solves in one thread against observers and movers of other joints, one seeded schedule; non-trivial: at least one successful solve and one preemption", assumptions: A },
        PropDef { id: "C07", run: ik::c07, quick: 150000, thorough: 600000, rule: "one run = one random arm, 1-3 mostly failing solves (unreachable, singular, NaN, too few joints, unknown names, zero tries, start outside limits, mimic joints) against bystanders, one seeded schedule; non-trivial: at least one failed solve and one preemption", assumptions: A },
        PropDef { id: "C08", run: ik::c08, quick: 100000, thorough: 300000, rule: "one run = one well-conditioned arm (smallest singular value > 0.15), a target at most 0.012 per joint away, stalled and preempted by bystanders, one seeded schedule; non-trivial: at least one preemption", assumptions: A },
        PropDef { id: "C09", run: conc::c09, quick: 150000, thorough: 1500000, rule: "one run = one random robot, 2-5 threads of 1-6 calls each drawn from the whole public API (setters, kinematics, solving, couplings, links, printing, iteration, construction, cloning, attaching, held accesses), one seeded schedule (one run in fifteen is several times larger in joints, calls or threads); non-trivial: at least one preemption", assumptions: A },
        PropDef { id: "C10", run: conc::c10, quick: 130000, thorough: 1500000, rule: "one run = one random robot, 2-4 threads of calls, of which one or two panic while they hold a joint, one seeded schedule (one run in fifteen is several times larger in joints, calls or threads); non-trivial: the panic happened and at least one preemption", assumptions: A },
        PropDef { id: "C11", run: clone::c11, quick: 50000, thorough: 1500000, rule: "one run = one random robot with links and mimic couplings, 1-4 threads that clone chains (and clones), operate on their copies and change the original, one seeded schedule (one run in fifteen is several times larger in joints, calls or threads), then changes one at a time on every copy and the original; non-trivial: a chain was cloned and, with several threads, at least one preemption", assumptions: A },
        PropDef { id: "C12", run: urdf::c12, quick: 14000, thorough: 300000, rule: "one run = one or two random URDF texts, 1-4 threads that load them (from a simulated file or through xacro, three conversions, single and double precision) while log level, hash keys and schedule vary; non-trivial: a load and, with several threads, at least one preemption", assumptions: A },
        PropDef { id: "C13", run: urdf::c13, quick: 36000, thorough: 500000, rule: "one run = one or two random URDF texts, 1-3 threads of loads under faults of files, reads, contents and xacro tools, one seeded schedule; non-trivial: a load returned and, with several threads, at least one preemption", assumptions: A },
        PropDef { id: "C14", run: structure::c14, quick: 50000, thorough: 1500000, rule: "one run = one random robot (with couplings, also circular ones, and links), 1-4 threads that copy, derive, use and drop handles, clone and load robots, attach and detach joints or panic while holding one, one seeded schedule (one run in fifteen is several times larger in joints, calls or threads), then the remaining handles dropped one at a time; non-trivial: with several threads, at least one preemption", assumptions: A },
        PropDef { id: "C15", run: structure::c15, quick: 150000, thorough: 1500000, rule: "one run = one random forest, 1-4 threads that attach and detach their joints and query the tree, one seeded schedule (one run in fifteen is several times larger in joints, calls or threads), then every relation, constructor and query on the quiet tree; non-trivial: a joint was moved and, with several threads, at least one preemption", assumptions: A },
        PropDef { id: "C16", run: ik::c16, quick: 80000, thorough: 500000, rule: "one run = one redundant arm, 1-2 threads solving with a nullspace callback that re-enters the API or panics at a seeded call, next to bystanders, one seeded schedule; non-trivial: the callback ran and at least one preemption", assumptions: A },
        PropDef { id: "C17", run: ik::c17, quick: 50000, thorough: 300000, rule: "one run = a fixed torso with two random arms, each solved by its own thread next to 0-2 observer threads, one seeded schedule; non-trivial: at least one preemption", assumptions: A },
    ]
}

/// `known: property=<id> class=<substring> <what fails>` lines of the known-findings file
pub fn known(path: &str, id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == id)
        .filter_map(|(_, r)| r.strip_prefix("class="))
        .filter_map(|r| r.split_once(' '))
        .map(|(c, w)| (c.to_string(), w.to_string()))
        .collect()
}
