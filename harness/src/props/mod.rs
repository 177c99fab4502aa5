//! Property registry.

use crate::engine::{Part, Prop};

#[macro_use]
pub mod run;
pub mod e2e;
pub mod fault;
pub mod levels;
pub mod long;
pub mod meta;
pub mod ops;
pub mod tools;
pub mod vel;

fn p(name: &'static str, quick: u64, thorough: u64, f: crate::engine::CaseFn) -> Part {
    Part { name, quick, thorough, f }
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a better finite value than all before it was evaluated after the first iteration began",
            assumptions: &[],
            parts: vec![p("genetic", 60_000, 1_500_000, run::c01_ga), p("swarm", 60_000, 1_500_000, run::c01_pso), p("long", 800, 16_000, long::best)],
        },
        Prop {
            id: "C02",
            rule: "more than 20 reported pairs were compared with the evaluations of their run",
            assumptions: &[],
            parts: vec![
                p("genetic", 30_000, 800_000, run::c02_ga),
                p("swarm", 30_000, 800_000, run::c02_pso),
                p("statistics", 20_000, 500_000, run::c02_stats),
            ],
        },
        Prop {
            id: "C03",
            rule: "at least one child or position was outside the intervals before the correction",
            assumptions: &[],
            parts: vec![p("genetic", 40_000, 1_000_000, run::c03_ga), p("swarm", 40_000, 1_000_000, run::c03_pso)],
        },
        Prop {
            id: "C04",
            rule: "at least two generations and two children were followed",
            assumptions: &[],
            parts: vec![p("flow", 40_000, 1_000_000, run::c04), p("large", 300, 6_000, run::c04_big)],
        },
        Prop {
            id: "C05",
            rule: "at least two iterations and three moves were followed",
            assumptions: &[],
            parts: vec![p("flow", 40_000, 1_000_000, run::c05), p("large", 300, 6_000, run::c05_big)],
        },
        Prop {
            id: "C06",
            rule: "more than one population or swarm was compared with the evaluations",
            assumptions: &[],
            parts: vec![p("genetic", 40_000, 1_000_000, run::c06_ga), p("swarm", 30_000, 800_000, run::c06_pso), p("copies", 6_000, 200_000, meta::c06_copies)],
        },
        Prop {
            id: "C07",
            rule: "more than one iteration was announced",
            assumptions: &[],
            parts: vec![p("genetic", 40_000, 1_000_000, run::c07_ga), p("swarm", 40_000, 1_000_000, run::c07_pso), p("long", 800, 16_000, long::numbers)],
        },
        Prop {
            id: "C08",
            rule: "the criterion both stopped and went on, or a real run was stopped more than once",
            assumptions: &["a best goal beyond 1e300 is not compared for the no-change criterion"],
            parts: vec![p("history", 4_000_000, 160_000_000, tools::c08_history), p("runs", 80_000, 3_200_000, tools::c08_run), p("long", 20_000, 800_000, tools::c08_long)],
        },
        Prop {
            id: "C09",
            rule: "the run was split into at least two parts with iterations",
            assumptions: &[],
            parts: vec![p("genetic", 25_000, 600_000, meta::c09_ga), p("swarm", 25_000, 600_000, meta::c09_pso), p("long", 800, 16_000, long::parts)],
        },
        Prop {
            id: "C10",
            rule: "at least one earlier run, and the repeated run evaluated more than two points",
            assumptions: &[],
            parts: vec![p("genetic", 40_000, 900_000, meta::c10_ga), p("swarm", 40_000, 900_000, meta::c10_pso), p("long", 800, 16_000, long::again)],
        },
        Prop {
            id: "C11",
            rule: "at least two optimizers with more than ten observable events each (interleaved, nested, parallel), or an observed run of more than ten evaluations",
            assumptions: &[],
            parts: vec![
                p("observed", 20_000, 500_000, meta::c11_observed),
                p("interleaved", 15_000, 300_000, meta::c11_interleaved),
                p("nested", 15_000, 300_000, meta::c11_nested),
                p("threads", 4_000, 100_000, meta::c11_threads),
            ],
        },
        Prop {
            id: "C12",
            rule: "more than ten evaluations were compared",
            assumptions: &[],
            parts: vec![
                p("genetic", 25_000, 600_000, meta::c12_ga),
                p("swarm", 25_000, 600_000, meta::c12_pso),
                p("scale", 25_000, 600_000, meta::c12_scale),
            ],
        },
        Prop {
            id: "C13",
            rule: "children were both kept and removed",
            assumptions: &["interval bounds are not NaN"],
            parts: vec![p("filters", 300_000, 12_000_000, ops::c13), p("huge", 120, 2_000, ops::c13_huge)],
        },
        Prop {
            id: "C14",
            rule: "some but not all living individuals had to be killed",
            assumptions: &[],
            parts: vec![p("limits", 1_600_000, 64_000_000, ops::c14), p("huge", 48, 1_000, ops::c14_huge)],
        },
        Prop {
            id: "C15",
            rule: "a population of more than one individual was paired (shape), or a distribution of at least 40000 parents with more than one class of goals was compared",
            assumptions: &["the word stream of the patched rand crate is uniform and independent"],
            parts: vec![
                p("shape", 800_000, 32_000_000, ops::c15_shape),
                p("random", 2_500, 100_000, ops::c15_random),
                p("tournament", 5_000, 200_000, ops::c15_tournament),
                p("wide", 5_000, 200_000, ops::c15_wide),
            ],
        },
        Prop {
            id: "C16",
            rule: "the two parents differ (all cuts are tried in every case)",
            assumptions: &[],
            parts: vec![p("cuts", 18_000_000, 240_000_000, ops::c16)],
        },
        Prop {
            id: "C17",
            rule: "the parents differ",
            assumptions: &["the sum (product) of the parents does not overflow", "a mantissa/exponent crossing may flush a power of two below the normal numbers"],
            parts: vec![
                p("means", 1_500_000, 60_000_000, ops::c17_mean),
                p("bitwise", 800_000, 32_000_000, ops::c17_bit),
                p("exponent", 300_000, 12_000_000, ops::c17_exp),
                p("vectors", 800_000, 32_000_000, ops::c17_vec),
            ],
        },
        Prop {
            id: "C18",
            rule: "at least one flip, genes both changed and kept, or a distribution of at least 30000 mutations",
            assumptions: &["the word stream of the patched rand crate is uniform and independent"],
            parts: vec![
                p("flips", 1_200_000, 48_000_000, ops::c18_flips),
                p("flip-distribution", 2_000, 80_000, ops::c18_flip_dist),
                p("vectors", 1_200_000, 48_000_000, ops::c18_vec),
                p("vector-distribution", 1_500, 60_000, ops::c18_vec_dist),
            ],
        },
        Prop {
            id: "C19",
            rule: "points were created, rejected, or a distribution of at least 20000 points was compared",
            assumptions: &["the width of an interval is finite", "integer bounds are exact in f64", "the word stream of the patched rand crate is uniform and independent"],
            parts: vec![
                p("box", 1_200_000, 48_000_000, ops::c19_box),
                p("reject", 60_000, 2_400_000, ops::c19_reject),
                p("uniform", 4_000, 160_000, ops::c19_uniform),
            ],
        },
        Prop {
            id: "C20",
            rule: "more than 20 coordinates with distinguishable outcomes were checked, a distribution of more than 300 factors was compared, or an invalid parameter was tried",
            assumptions: &["the velocity and its terms are far from overflow", "at most 128 combinations of equally good remembered points", "the word stream of the patched rand crate is uniform and independent"],
            parts: vec![
                p("constant", 30_000, 1_800_000, vel::c20_constant),
                p("subsets", 30_000, 1_800_000, vel::c20_subset),
                p("independent", 1_500, 90_000, vel::c20_independent),
                p("range", 30_000, 1_800_000, vel::c20_hull),
                p("uniform", 3_000, 180_000, vel::c20_uniform),
                p("reject", 100_000, 6_000_000, vel::c20_reject),
            ],
        },
        Prop {
            id: "C21",
            rule: "an iteration strictly between start and horizon, or more than five velocities after the first iteration",
            assumptions: &["the lower bound does not exceed the upper one"],
            parts: vec![p("schedule", 600_000, 36_000_000, vel::c21_schedule), p("swarm", 80_000, 4_800_000, vel::c21_swarm)],
        },
        Prop {
            id: "C22",
            rule: "a component or the norm exceeded its limit",
            assumptions: &["limits are not negative", "velocities are finite (per dimension also infinite)"],
            parts: vec![p("dimensions", 3_000_000, 120_000_000, ops::c22_dims), p("norm", 4_000_000, 160_000_000, ops::c22_abs)],
        },
        Prop {
            id: "C23",
            rule: "a coordinate was outside its interval, calls did both or had a certain outcome, a rejected probability, or a distribution of 30000 calls",
            assumptions: &["the width of an interval is finite", "the word stream of the patched rand crate is uniform and independent"],
            parts: vec![
                p("boundary", 9_000_000, 120_000_000, ops::c23_boundary),
                p("teleport", 3_000_000, 30_000_000, ops::c23_teleport),
                p("distribution", 2_400, 96_000, ops::c23_dist),
                p("reject", 20_000, 800_000, ops::c23_reject),
            ],
        },
        Prop {
            id: "C24",
            rule: "at least two solutions, two runs with a solution at one iteration, or a value outside a tolerance",
            assumptions: &["sums of the values and of the squared deviations do not overflow"],
            parts: vec![
                p("tables", 900_000, 36_000_000, tools::c24_table),
                p("convergence", 900_000, 36_000_000, tools::c24_convergence),
                p("predicates", 2_000_000, 80_000_000, tools::c24_predicates),
            ],
        },
        Prop {
            id: "C25",
            rule: "several runs with more than one iteration, or at least two non-empty parts",
            assumptions: &["a statistics logger is set before a run or joins it while paused"],
            parts: vec![
                p("record", 90_000, 3_600_000, tools::c25_record),
                p("merge", 180_000, 7_200_000, tools::c25_merge),
                p("counts", 3_000_000, 40_000_000, tools::c25_counts),
                p("long", 800, 16_000, long::record),
            ],
        },
        Prop {
            id: "C26",
            rule: "more than ten evaluations were counted, or several runs",
            assumptions: &[],
            parts: vec![
                p("genetic", 40_000, 1_000_000, run::c26_ga),
                p("swarm", 40_000, 1_000_000, run::c26_pso),
                p("wrapper", 20_000, 400_000, run::c26_wrapper),
                p("runs", 5_000, 100_000, run::c26_runs),
                p("long", 800, 16_000, long::counts),
            ],
        },
        Prop {
            id: "C27",
            rule: "more than one line of coordinates was compared, or a time of at least a millisecond or a pause longer than the logged time",
            assumptions: &["the clock is monotonic"],
            parts: vec![
                p("states", 40_000, 1_600_000, tools::c27_direct),
                p("runs", 20_000, 800_000, tools::c27_run),
                p("time", 600, 24_000, tools::c27_time),
                p("clock", 200_000, 8_000_000, tools::c27_clock),
            ],
        },
        Prop {
            id: "C28",
            rule: "the value (or its change) is well above the rounding allowance",
            assumptions: &["coordinates of magnitude below 2000"],
            parts: vec![p("formula", 9_600_000, 96_000_000, tools::c28_formula), p("minimum", 3_600_000, 36_000_000, tools::c28_minimum)],
        },
        Prop {
            id: "C29",
            rule: "more than one iteration was performed",
            assumptions: &[],
            parts: vec![p("genetic", 60_000, 2_400_000, e2e::c29_ga), p("swarm", 40_000, 1_600_000, e2e::c29_pso)],
        },
        Prop {
            id: "C30",
            rule: "60 runs and 60 random searches were compared, or a run was repeated with more iterations",
            assumptions: &["the word stream of the patched rand crate is uniform and independent"],
            parts: vec![
                p("genetic", 320, 8_000, e2e::c30_ga),
                p("swarm", 400, 10_000, e2e::c30_pso),
                p("longer", 20_000, 600_000, e2e::c30_longer),
            ],
        },
        Prop {
            id: "C31",
            rule: "an iteration ran after a component was replaced, or the replaced run made more than ten evaluations",
            assumptions: &[],
            parts: vec![
                p("genetic", 30_000, 800_000, run::c31_ga),
                p("swarm", 30_000, 800_000, run::c31_pso),
                p("same", 20_000, 400_000, run::c31_same),
            ],
        },
        Prop {
            id: "C32",
            rule: "the data did not fit and was refused",
            assumptions: &[],
            parts: vec![p("refused", 400_000, 8_000_000, fault::c32)],
        },
        Prop {
            id: "C33",
            rule: "a component failed and the next run evaluated more than two points, an observer failed in the middle of a run, or a writer failed",
            assumptions: &[],
            parts: vec![
                p("genetic", 40_000, 1_000_000, fault::c33_ga),
                p("swarm", 40_000, 1_000_000, fault::c33_pso),
                p("resumed", 40_000, 1_000_000, fault::c33_resume),
                p("writer", 40_000, 1_000_000, fault::c33_writer),
            ],
        },
    ]
}
