//! Histories far beyond the usual lengths, observed with little memory: C01, C07, C09, C10, C25, C26.
//! Tens of thousands of iterations in a few calls, or tens of thousands of calls.

use crate::common::*;
use crate::engine::{no_panic, Ctx, Src, R};
use crate::ga::GaPt;
use crate::gen;
use optlib::genetic::{self, Population, PreBirth};
use optlib::particleswarm;
use optlib::tools::logging::Logger;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::{MaxIterations, StopChecker};
use optlib::{AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::rc::Rc;

type P = Vec<f64>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Best,
    Numbers,
    Record,
    Counts,
    Path,
}

/// What happened so far, in a few words.
struct Seen {
    what: What,
    err: Option<String>,
    calls: u64,
    // the current run
    evals: u64,
    min: f64,
    iter: usize,
    state: Phase,
    value: Option<f64>,
    // of all runs
    candidates: u64,
    convergence: Vec<Vec<Option<f64>>>,
    budget: u64,
    /// of all points and values since the random numbers were set
    path: u64,
    points: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Idle,
    Started,
    Running,
    Stopped,
}

impl Seen {
    fn fail(&mut self, w: What, msg: String) {
        if self.what == w && self.err.is_none() {
            self.err = Some(format!("call {}: {}", self.calls, msg));
        }
    }
    fn phase(&mut self, from: Phase, to: Phase, what: &str, iter: usize) {
        if self.state != from {
            let m = format!("{} in phase {:?} of a call, iteration {}", what, self.state, iter);
            self.fail(What::Numbers, m);
        }
        self.state = to;
    }
    fn number(&mut self, iter: usize, what: &str) {
        if iter != self.iter {
            let m = format!("{} sees iteration {} after {} completed iterations", what, iter, self.iter);
            self.fail(What::Numbers, m);
        }
    }
}

type Ref = Rc<RefCell<Seen>>;

/// How the values develop over a run.
#[derive(Clone, Copy, Debug)]
enum Shape {
    Falling,
    Rising,
    Constant,
    Noise(u64),
    Point,
}

struct LiteGoal {
    seen: Ref,
    shape: Shape,
}

impl Goal<P> for LiteGoal {
    fn get(&mut self, x: &P) -> f64 {
        let mut s = self.seen.borrow_mut();
        s.evals += 1;
        let v = match self.shape {
            Shape::Falling => -(s.evals as f64),
            Shape::Rising => s.evals as f64,
            Shape::Constant => 1.0,
            Shape::Noise(seed) => (crate::engine::hash_words(&[seed, s.evals]) % 100_000) as f64,
            Shape::Point => x.iter().map(|v| v * v).sum(),
        };
        let mut w: Vec<u64> = vec![s.path, v.to_bits()];
        w.extend(x.iter().map(|v| v.to_bits()));
        s.path = crate::engine::hash_words(&w);
        s.points += 1;
        if v < s.min {
            s.min = v;
        }
        v
    }
}

struct LiteLog(Ref);

impl Logger<P> for LiteLog {
    fn start(&mut self, st: &dyn AlgorithmState<P>) {
        let mut s = self.0.borrow_mut();
        s.iter = 0;
        s.phase(Phase::Idle, Phase::Started, "start", st.get_iteration());
        s.number(st.get_iteration(), "start");
        s.convergence.push(vec![]);
    }
    fn resume(&mut self, st: &dyn AlgorithmState<P>) {
        let mut s = self.0.borrow_mut();
        let from = if s.state == Phase::Started { Phase::Started } else { Phase::Idle };
        s.phase(from, Phase::Running, "resume", st.get_iteration());
        s.number(st.get_iteration(), "resume");
    }
    fn next_iteration(&mut self, st: &dyn AlgorithmState<P>) {
        let mut s = self.0.borrow_mut();
        s.iter += 1;
        s.phase(Phase::Running, Phase::Running, "an iteration", st.get_iteration());
        s.number(st.get_iteration(), "a logger");
        let v = st.get_best_solution().map(|b| b.1);
        if v != Some(s.min) {
            let m = format!("best {:?} after iteration {}, but {} was evaluated", v, s.iter, s.min);
            s.fail(What::Best, m);
        }
        s.value = v;
        if s.what == What::Record {
            s.convergence.last_mut().unwrap().push(v);
        }
    }
    fn finish(&mut self, st: &dyn AlgorithmState<P>) {
        let mut s = self.0.borrow_mut();
        s.phase(Phase::Stopped, Phase::Idle, "finish", st.get_iteration());
        s.number(st.get_iteration(), "finish");
        let v = st.get_best_solution().map(|b| b.1);
        s.value = v;
    }
}

/// Stops when the budget is used up, or asks the criterion of the library.
struct LiteStop {
    seen: Ref,
    lib: Option<MaxIterations>,
}

impl StopChecker<P> for LiteStop {
    fn can_stop(&mut self, st: &dyn AlgorithmState<P>) -> bool {
        let ans = match &mut self.lib {
            Some(m) => m.can_stop(st),
            None => self.seen.borrow().budget == 0,
        };
        let mut s = self.seen.borrow_mut();
        s.number(st.get_iteration(), "the stop criterion");
        s.phase(Phase::Running, if ans { Phase::Stopped } else { Phase::Running }, "a stop check", st.get_iteration());
        if s.budget > 0 && !ans {
            s.budget -= 1;
        }
        ans
    }
}

/// Counts the candidates.
struct LitePre(Ref);

impl PreBirth<P> for LitePre {
    fn pre_birth(&mut self, _: &Population<P>, c: &mut Vec<P>) {
        self.0.borrow_mut().candidates += c.len() as u64;
    }
}

enum Opt<'a> {
    Ga(genetic::GeneticOptimizer<'a, P>),
    Pso(particleswarm::ParticleSwarmOptimizer<'a, f64>),
}

/// One call.
#[derive(Clone, Debug)]
struct Step {
    /// a new run
    fresh: bool,
    iters: u64,
    /// random numbers from here on
    stream: Option<StreamS>,
}

fn step(fresh: bool, iters: u64) -> Step {
    Step { fresh, iters, stream: None }
}

#[derive(Clone, Debug)]
struct Params {
    swarm: bool,
    n: usize,
    families: usize,
    random_pairs: bool,
    lib_stop: bool,
    iv: Vec<(f64, f64)>,
    shape: Shape,
}

fn params(s: &mut Src) -> Params {
    let swarm = s.flag();
    let n = s.r(1, 3);
    let families = s.r(1, 2);
    let random_pairs = !swarm && s.n(3) == 0;
    let lib_stop = s.flag();
    let iv: Vec<(f64, f64)> = (0..s.r(1, 2)).map(|_| gen::plain_interval(s)).collect();
    let shape = match s.n(5) {
        0 => Shape::Falling,
        1 => Shape::Rising,
        2 => Shape::Constant,
        3 => Shape::Noise(s.word()),
        _ => Shape::Point,
    };
    Params { swarm, n, families, random_pairs, lib_stop, iv, shape }
}

/// Tens of thousands of calls, or of iterations in a few calls.
fn plan(s: &mut Src) -> (Vec<Step>, bool) {
    if s.flag() {
        let far = s.n(3) == 0;
        let mut v = vec![];
        for i in 0..s.r(1, 4) {
            let k = if far && i == 0 { s.r(65_000, 140_000) } else { s.r(250, 6_000) };
            v.push(step(i == 0 || s.chance(30), k as u64));
        }
        (v, far)
    } else {
        many_calls(s)
    }
}

fn many_calls(s: &mut Src) -> (Vec<Step>, bool) {
    let far = s.n(3) == 0;
    let n = if far { s.r(65_000, 70_000) } else { s.r(250, 5_000) };
    let fresh = *s.pick(&[0, 5, 50, 100]);
    let seed = s.word();
    let most = s.r(1, 3) as u64;
    let v = (0..n as u64)
        .map(|i| {
            let h = crate::engine::hash_words(&[seed, i]);
            step(i == 0 || h % 100 < fresh, (h >> 20) % (most + 1))
        })
        .collect();
    (v, far)
}

fn describe(p: &Params, plan: &[Step]) -> String {
    format!("{:?}, {} calls: {:?}", p, plan.len(), plan[..plan.len().min(6)].iter().map(|x| (x.fresh, x.iters)).collect::<Vec<_>>())
}

struct Out {
    seen: Ref,
    counts: CallCountData,
    stats: Statistics<P>,
    results: Vec<Option<f64>>,
    last: Option<(P, f64)>,
}

fn exec(p: &Params, plan: &[Step], what: What) -> Result<Out, String> {
    let seen: Ref = Rc::new(RefCell::new(Seen {
        what,
        err: None,
        calls: 0,
        evals: 0,
        min: f64::INFINITY,
        iter: 0,
        state: Phase::Idle,
        value: None,
        candidates: 0,
        convergence: vec![],
        budget: 0,
        path: 0,
        points: 0,
    }));
    let mut counts = CallCountData::new();
    let mut stats: Statistics<P> = Statistics::new();
    let mut results: Vec<Option<f64>> = vec![];
    let mut last = None;
    let n = p.n;
    {
        let mut goal = LiteGoal { seen: seen.clone(), shape: p.shape };
        let g = GoalCalcStatistics::new(&mut goal, &mut counts);
        let stop = || Box::new(LiteStop { seen: seen.clone(), lib: None });
        let mut loggers: Vec<Box<dyn Logger<P>>> = vec![Box::new(LiteLog(seen.clone()))];
        if what == What::Record {
            loggers.push(Box::new(StatisticsLogger::new(&mut stats)));
        }
        let mut o = if p.swarm {
            let mut o = particleswarm::ParticleSwarmOptimizer::new(
                Box::new(g),
                stop(),
                Box::new(particleswarm::initializing::RandomCoordinatesInitializer::new(p.iv.clone(), n)),
                Box::new(particleswarm::initializing::ZeroVelocityInitializer::new(p.iv.len(), n)),
                Box::new(particleswarm::velocitycalc::CanonicalVelocityCalculator::new(2.1, 2.1, 0.9)),
            );
            o.set_loggers(loggers);
            Opt::Pso(o)
        } else {
            let pairing: Box<dyn genetic::Pairing<P>> = if p.random_pairs {
                Box::new(genetic::pairing::RandomPairing::new())
            } else {
                Box::new(genetic::pairing::Tournament::new(p.families))
            };
            let mut o = genetic::GeneticOptimizer::new(
                Box::new(g),
                stop(),
                Box::new(genetic::creation::vec_float::RandomCreator::new(n, p.iv.clone())),
                pairing,
                <P as GaPt>::lib_cross(crate::ga::CrossKind::Mean),
                <P as GaPt>::lib_mut(20.0, 1),
                vec![Box::new(genetic::selection::LimitPopulation::new(n))],
                vec![Box::new(LitePre(seen.clone()))],
            );
            o.set_loggers(loggers);
            Opt::Ga(o)
        };
        for st in plan {
            if let Some(x) = &st.stream {
                x.install();
                let mut x = seen.borrow_mut();
                x.path = 0;
                x.points = 0;
            }
            let abs;
            {
                let mut x = seen.borrow_mut();
                x.calls += 1;
                x.budget = st.iters;
                if st.fresh {
                    x.evals = 0;
                    x.min = f64::INFINITY;
                    abs = st.iters as usize;
                    x.candidates += n as u64;
                } else {
                    abs = x.iter + st.iters as usize;
                }
                if p.swarm {
                    x.candidates += n as u64 * st.iters;
                }
            }
            let seen2 = seen.clone();
            let before = if st.fresh { 0 } else { seen.borrow().iter };
            let full = no_panic(|| {
                let lib = if p.lib_stop { Some(MaxIterations::new(abs)) } else { None };
                let stop = Box::new(LiteStop { seen: seen2, lib });
                match (&mut o, st.fresh) {
                    (Opt::Ga(o), fresh) => {
                        o.set_stop_checker(stop);
                        if fresh {
                            o.find_min()
                        } else {
                            o.next_iterations()
                        }
                    }
                    (Opt::Pso(o), fresh) => {
                        o.set_stop_checker(stop);
                        if fresh {
                            o.find_min()
                        } else {
                            o.next_iterations()
                        }
                    }
                }
            })?;
            let mut x = seen.borrow_mut();
            if x.iter != before + st.iters as usize {
                let m = format!("ended at iteration {} instead of {}", x.iter, before + st.iters as usize);
                x.fail(What::Numbers, m);
            }
            if x.state != Phase::Idle {
                let m = format!("the call ended in phase {:?}", x.state);
                x.fail(What::Numbers, m);
            }
            let r = full.as_ref().map(|b| b.1);
            last = full;
            if r != x.value {
                let m = format!("returned {:?}, announced at finish {:?}", r, x.value);
                x.fail(What::Numbers, m);
            }
            if x.iter > 0 && r != Some(x.min) {
                let m = format!("returned {:?}, but {} was evaluated", r, x.min);
                x.fail(What::Best, m);
            }
            if st.fresh {
                results.push(r);
            } else {
                *results.last_mut().unwrap() = r;
            }
            if let Some(e) = &x.err {
                return Err(e.clone());
            }
        }
    }
    Ok(Out { seen, counts, stats, results, last })
}

fn long(s: &mut Src, c: &mut Ctx, what: What) -> R {
    let p = params(s);
    let (mut plan, far) = plan(s);
    plan[0].stream = Some(gen_stream(s));
    c.desc(|| describe(&p, &plan));
    c.label(if far { "beyond 65536" } else { "beyond 256" });
    let o = exec(&p, &plan, what)?;
    let x = o.seen.borrow();
    match what {
        What::Counts => {
            let got = o.counts.get_call_count();
            ensure!(got.len() == 1, "{} runs were counted in one", got.len());
            ensure!(got[0] as u64 == x.candidates, "{} evaluations were counted of {} candidates", got[0], x.candidates);
        }
        What::Record => {
            let got = o.stats.get_results();
            ensure!(got.len() == o.results.len(), "{} results of {} runs", got.len(), o.results.len());
            let runs = o.stats.get_run_count();
            ensure!(runs == o.results.len(), "{} runs instead of {}", runs, o.results.len());
            for (i, (a, b)) in got.iter().zip(&o.results).enumerate() {
                ensure!(&a.as_ref().map(|v| v.1) == b, "result of run {} is {:?} instead of {:?}", i, a, b);
            }
            let conv = o.stats.get_convergence();
            ensure!(conv.len() == x.convergence.len(), "{} convergences of {} runs", conv.len(), x.convergence.len());
            for (i, (a, b)) in conv.iter().zip(&x.convergence).enumerate() {
                ensure!(a.len() == b.len(), "run {} has {} iterations recorded of {}", i, a.len(), b.len());
                for (k, (p, q)) in a.iter().zip(b).enumerate() {
                    ensure!(&p.as_ref().map(|v| v.1) == q, "run {} iteration {}: {:?} instead of {:?}", i, k, p, q);
                }
            }
        }
        _ => {}
    }
    c.count("iterations", plan.iter().map(|x| x.iters).sum());
    c.count("calls", plan.len() as u64);
    c.nontrivial();
    Ok(())
}

fn same_path(a: &Out, b: &Out, what: &str) -> R {
    let (x, y) = (a.seen.borrow(), b.seen.borrow());
    ensure!(x.points == y.points, "{}: {} evaluations and {}", what, x.points, y.points);
    ensure!(x.path == y.path, "{}: {} evaluations differ in points or values", what, x.points);
    ensure!(x.iter == y.iter, "{}: iterations {} and {}", what, x.iter, y.iter);
    ensure!(same_opt(&a.last, &b.last), "{}: results {:?} and {:?}", what, a.last, b.last);
    Ok(())
}

/// C09: one long call, or the same in parts.
pub fn parts(s: &mut Src, c: &mut Ctx) -> R {
    let p = params(s);
    let (mut b, far) = plan(s);
    for (i, x) in b.iter_mut().enumerate() {
        x.fresh = i == 0;
    }
    b[0].stream = Some(gen_stream(s));
    let total: u64 = b.iter().map(|x| x.iters).sum();
    let a = vec![Step { fresh: true, iters: total, stream: b[0].stream.clone() }];
    c.desc(|| describe(&p, &b));
    c.label(if far { "beyond 65536" } else { "beyond 256" });
    c.count("iterations", 2 * total);
    c.count("calls", b.len() as u64);
    let (x, y) = (exec(&p, &a, What::Path)?, exec(&p, &b, What::Path)?);
    if b.iter().filter(|x| x.iters > 0).count() > 1 {
        c.nontrivial();
    }
    same_path(&x, &y, "unbroken and resumed run")
}

/// C10: a run after a long history, and the first of a new optimizer.
pub fn again(s: &mut Src, c: &mut Ctx) -> R {
    let p = params(s);
    let (mut a, far) = if s.n(3) == 0 { plan(s) } else { many_calls(s) };
    a[0].stream = Some(gen_stream(s));
    let last = Step { fresh: true, iters: s.r(1, 300) as u64, stream: Some(gen_stream(s)) };
    a.push(last.clone());
    c.desc(|| describe(&p, &a));
    c.label(if far { "beyond 65536" } else { "beyond 256" });
    c.count("calls", a.len() as u64);
    // values that depend on what happened before would differ rightly: they start anew with each run
    let (x, y) = (exec(&p, &a, What::Path)?, exec(&p, &[last], What::Path)?);
    c.nontrivial();
    same_path(&x, &y, "a run after a long history and that of a new optimizer")
}

pub fn best(s: &mut Src, c: &mut Ctx) -> R {
    long(s, c, What::Best)
}
pub fn numbers(s: &mut Src, c: &mut Ctx) -> R {
    long(s, c, What::Numbers)
}
pub fn record(s: &mut Src, c: &mut Ctx) -> R {
    long(s, c, What::Record)
}
pub fn counts(s: &mut Src, c: &mut Ctx) -> R {
    long(s, c, What::Counts)
}
