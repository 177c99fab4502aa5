//! Whole optimizers built from library components: C29 (hostile goals), C30 (quality).

use crate::common::*;
use crate::engine::{no_panic, Ctx, Prng, Src, R};
use crate::ga::{self, Builder, CreatorS, CrossKind, CrossS, GaOpts, GaPt, GaSpec, MutS, Op, PairS, PreS, SelS, StopS};
use crate::gen::{self, Fl};
use crate::props::levels::{GA_LEVELS, PSO_LEVELS};
use crate::pso::{self, CoordS, InertS, MoveS, PBuilder, POp, PostVS, PsoOpts, PsoSpec, VelInitS, VelS};
use optlib::tools::logging::{Logger, ResultOnlyLogger, TimeLogger, VerboseLogger};
use optlib::tools::statistics::{Statistics, StatisticsLogger};

// ================================================================ C29

/// An iteration limit made of library criteria, and its value.
fn gen_limit(s: &mut Src, max: usize) -> (StopS, usize) {
    let a = s.size(0, max);
    match s.weighted(&[6, 1, 1, 1]) {
        0 => (StopS::Max(a), a),
        1 => {
            let b = s.size(0, max);
            (StopS::Tree(StopTree::Any(vec![StopTree::Max(b), StopTree::Max(a)])), a.min(b))
        }
        2 => {
            let b = s.size(0, max);
            (StopS::Tree(StopTree::All(vec![StopTree::Max(b), StopTree::Max(a)])), a.max(b))
        }
        _ => (
            StopS::Tree(StopTree::Any(vec![StopTree::NoChange(1_000_000, 0.0), StopTree::Max(a)])),
            a,
        ),
    }
}

/// Iteration limits in force during each call.
struct Limits(Vec<usize>);

/// Checks one trace: announced iterations, generations performed, limit of every call.
fn limits_ok<P: Pt>(evs: &[Ev<P>], lim: &Limits, steps: impl Fn(&[Ev<P>]) -> Vec<u64>) -> Result<u64, String> {
    let cs = calls(evs);
    ensure!(cs.len() == lim.0.len(), "{} calls were made but {} appear in the trace", lim.0.len(), cs.len());
    let mut iter = 0;
    let mut total = 0;
    for (i, call) in cs.iter().enumerate() {
        let find = matches!(call[0], Ev::Call("find_min"));
        let from = if find { 0 } else { iter };
        let want = from.max(lim.0[i]);
        let mut last = None;
        let mut went_on = 0;
        for e in call.iter() {
            if let Ev::Stop { st, ans, .. } = e {
                last = Some(st.iter);
                if !*ans {
                    went_on += 1;
                }
            }
        }
        ensure!(
            last == Some(want),
            "call {} started at iteration {} with limit {} but ended at {:?}",
            i,
            from,
            lim.0[i],
            last
        );
        ensure!(
            went_on == want - from,
            "call {} ran {} iterations instead of {}",
            i,
            went_on,
            want - from
        );
        let per = steps(call);
        ensure!(
            per.len() == want - from,
            "call {} did the work of {} iterations instead of {}",
            i,
            per.len(),
            want - from
        );
        ensure!(matches!(call.last(), Some(Ev::Ret(_)) | Some(Ev::Set(..))), "call {} did not return", i);
        iter = want;
        total += (want - from) as u64;
    }
    Ok(total)
}

/// A library logger of each kind, writing to nowhere.
macro_rules! with_loggers {
    ($s:expr, $t:ty, |$ls:ident| $body:expr) => {{
        let mut v = std::io::sink();
        let mut r = std::io::sink();
        let mut t = std::io::sink();
        let mut stat: Statistics<Vec<$t>> = Statistics::new();
        let prec = $s.n(18) as usize;
        let $ls: Vec<Box<dyn Logger<Vec<$t>> + '_>> = vec![
            Box::new(VerboseLogger::new(&mut v, prec)),
            Box::new(ResultOnlyLogger::new(&mut r, prec)),
            Box::new(TimeLogger::new(&mut t)),
            Box::new(StatisticsLogger::new(&mut stat)),
        ];
        $body
    }};
}

fn c29_ga_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: GaPt<G = T>,
{
    let o = GaOpts { custom: false, custom_sel: false, wild: false, max_pop: 50, max_iters: 14, ..Default::default() };
    let mut sp: GaSpec<Vec<T>> = ga::gen_spec(s, &o);
    // one cause of extinction per case, if any
    if s.chance(40) {
        sp.sel = vec![SelS::NaN, SelS::Limit(s.size(1, 40))];
    }
    if s.chance(25) {
        sp.goal = GoalS::Late {
            n: s.n(120),
            first: *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
            seed: s.word(),
            vals: gen::goal_pool(s, true),
        };
    }
    // keep growing populations small
    let bounded = sp.sel.iter().any(|x| matches!(x, SelS::Limit(_)));
    let most = if bounded { 25 } else { 6 };
    if let (false, CreatorS::Lib(n)) = (bounded, &mut sp.creator) {
        *n = (*n).min(30);
    }
    let (stop, first) = gen_limit(s, most);
    sp.stop = stop;
    let mut lim = vec![first];
    let mut cur = first;
    let mut sum = first;
    let mut script = vec![Op::Find { iters: 0 }];
    for _ in 0..s.r(0, 4) {
        if s.flag() {
            let (st, l) = gen_limit(s, most);
            cur = l;
            script.push(Op::SetStop(st));
        }
        if s.chance(30) {
            match ga::gen_setter(s, &o, true) {
                Op::SetStop(_) | Op::SetLoggers(_) => {}
                // selections stay, so that the population stays small
                Op::SetSel(_) => {}
                op => script.push(op),
            }
        }
        if s.flag() {
            script.push(Op::Next { iters: 0 });
        } else {
            script.push(Op::Find { iters: 0 });
        }
        sum += cur;
        lim.push(cur);
    }
    sp.script = script;
    sp.loggers = 0;
    let loggers = s.flag();
    c.desc(|| format!("{:?} library loggers {}", sp, loggers));
    let rec = new_rec::<Vec<T>>();
    let spec = &sp;
    let r2 = rec.clone();
    let res = no_panic(|| {
        with_loggers!(s, T, |ls| {
            spec.stream.install();
            let mut b = Builder::new(r2, &spec.intervals);
            let goal = Box::new(b.goal(spec));
            let mut opt = b.build_with(spec, goal);
            if loggers {
                opt.set_loggers(ls);
            }
            for op in &spec.script {
                b.exec(&mut opt, op);
            }
        })
    });
    if let Err(m) = res {
        return Err(format!("run failed: {}", m));
    }
    let evs = std::mem::take(&mut rec.borrow_mut().evs);
    let done = limits_ok(&evs, &Limits(lim), |call| {
        call.iter().filter(|e| matches!(e, Ev::Pair { .. })).map(|_| 1).collect()
    })?;
    // a missing solution
    let mut extinct = false;
    let mut none = 0;
    let mut survivors = false;
    let mut any_sel = false;
    let mut alive = 0usize;
    let mut kept: Option<usize> = None;
    let mut iterating = false;
    for e in &evs {
        match e {
            Ev::Call("find_min") => {
                survivors = false;
                iterating = false;
            }
            Ev::Set("selection", v) => any_sel = !v.is_empty(),
            Ev::Pair { pop, .. } => {
                alive = pop.members.len();
                kept = None;
                iterating = true;
            }
            Ev::Goal(..) if iterating => alive += 1,
            Ev::Sel { after, .. } => kept = Some(after.members.iter().filter(|m| m.2).count()),
            Ev::Stop { .. } if iterating => {
                let n = if any_sel { kept.unwrap_or(alive) } else { alive };
                survivors |= n > 0;
                extinct |= n == 0;
                iterating = false;
            }
            Ev::Ret(None) => {
                none += 1;
                ensure!(!survivors, "no solution returned although individuals survived an iteration of the run");
            }
            _ => {}
        }
    }
    if extinct {
        c.label("population died out");
    }
    if none > 0 {
        c.label("no solution");
    }
    if evs.iter().any(|e| matches!(e, Ev::Goal(_, v) if !v.is_finite())) {
        c.label("goal not finite");
    }
    if extinct && evs.iter().filter(|e| matches!(e, Ev::Call(_))).count() > 1 {
        c.label("another call after dying out");
    }
    if done > 1 {
        c.nontrivial();
    }
    c.count("iterations", done);
    let _ = sum;
    Ok(())
}

pub fn c29_ga(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c29_ga_t::<f32>(s, c)
    } else {
        c29_ga_t::<f64>(s, c)
    }
}

fn c29_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { custom: false, wild: false, empty: false, max_pop: 40, ..Default::default() };
    let mut sp: PsoSpec<T> = pso::gen_spec(s, &o);
    if s.chance(25) {
        sp.goal = GoalS::Late {
            n: s.n(120),
            first: *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
            seed: s.word(),
            vals: gen::goal_pool(s, true),
        };
    }
    let (stop, first) = gen_limit(s, 30);
    sp.stop = stop;
    let mut lim = vec![first];
    let mut cur = first;
    let mut script = vec![POp::Find { iters: 0 }];
    for _ in 0..s.r(0, 4) {
        if s.flag() {
            let (st, l) = gen_limit(s, 30);
            cur = l;
            script.push(POp::SetStop(st));
        }
        if s.chance(20) {
            script.push(POp::SetMoves(pso::gen_moves(s, &o)));
        }
        if s.chance(20) {
            script.push(POp::SetPostV(pso::gen_postv(s, &o, sp.intervals.len())));
        }
        if s.flag() {
            script.push(POp::Next { iters: 0 });
        } else {
            script.push(POp::Find { iters: 0 });
        }
        lim.push(cur);
    }
    sp.script = script;
    sp.loggers = 0;
    let loggers = s.flag();
    c.desc(|| format!("{:?} library loggers {}", sp, loggers));
    let rec = new_rec::<Vec<T>>();
    let spec = &sp;
    let r2 = rec.clone();
    let res = no_panic(|| {
        with_loggers!(s, T, |ls| {
            spec.stream.install();
            let mut b = PBuilder::new(r2, &spec.intervals);
            let goal = Box::new(b.goal(spec));
            let mut opt = b.build_with(spec, goal);
            if loggers {
                opt.set_loggers(ls);
            }
            for op in &spec.script {
                b.exec(&mut opt, op);
            }
        })
    });
    if let Err(m) = res {
        return Err(format!("run failed: {}", m));
    }
    let evs = std::mem::take(&mut rec.borrow_mut().evs);
    let size = match sp.coords {
        CoordS::Lib(n) => n as u64,
        _ => 0,
    };
    let done = limits_ok(&evs, &Limits(lim), |call| {
        let mut v = vec![];
        let mut n = 0;
        for e in call {
            match e {
                Ev::Vel { .. } => n += 1,
                Ev::Stop { .. } => {
                    if n > 0 {
                        v.push(n);
                    }
                    n = 0;
                }
                _ => {}
            }
        }
        v
    })?;
    let moved = evs.iter().filter(|e| matches!(e, Ev::Vel { .. })).count() as u64;
    ensure!(moved == done * size, "{} particle moves in {} iterations of {} particles", moved, done, size);
    for r in rets(&evs) {
        ensure!(r.is_some(), "no solution returned from a swarm of {}", size);
    }
    if evs.iter().any(|e| matches!(e, Ev::Goal(_, v) if !v.is_finite())) {
        c.label("goal not finite");
    }
    if rets(&evs).iter().any(|r| r.as_ref().map_or(false, |x| !x.1.is_finite())) {
        c.label("solution not finite");
    }
    if done > 1 {
        c.nontrivial();
    }
    c.count("iterations", done);
    Ok(())
}

pub fn c29_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c29_pso_t::<f32>(s, c)
    } else {
        c29_pso_t::<f64>(s, c)
    }
}

// ================================================================ C30

/// A test function moved so that its minimum lies at `at`; the minimum is 0.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fun {
    Paraboloid,
    Ellipsoid,
    Rastrigin,
    Schwefel,
    Rosenbrock,
}

#[derive(Clone, Debug)]
struct Task {
    fun: Fun,
    /// displacement of the minimum
    shift: Vec<f64>,
    /// half of the width of the search space
    half: f64,
    center: f64,
    /// the optimizer sees scale * value + offset
    offset: f64,
    scale: f64,
}

impl Task {
    fn dim(&self) -> usize {
        self.shift.len()
    }
    fn value(&self, x: &[f64]) -> f64 {
        let y: Vec<f64> = x.iter().zip(&self.shift).map(|(a, b)| a - b).collect();
        match self.fun {
            Fun::Paraboloid => y.iter().map(|v| v * v).sum(),
            Fun::Ellipsoid => y.iter().enumerate().map(|(i, v)| (1.0 + 3.0 * i as f64) * v * v).sum(),
            Fun::Rastrigin => y.iter().map(|v| v * v + 10.0 - 10.0 * (2.0 * std::f64::consts::PI * v).cos()).sum(),
            // the moved function continues upwards outside of its domain
            Fun::Schwefel => y
                .iter()
                .map(|v| {
                    let w = v.max(-500.0).min(500.0);
                    418.982_887_3 - w * w.abs().sqrt().sin() + (v - w).abs()
                })
                .sum(),
            Fun::Rosenbrock => (0..y.len() - 1)
                .map(|i| 100.0 * (y[i + 1] - y[i] * y[i]).powi(2) + (1.0 - y[i]).powi(2))
                .sum(),
        }
    }
    fn seen(&self, x: &[f64]) -> f64 {
        self.value(x) * self.scale + self.offset
    }
    fn interval<T: Fl>(&self) -> Vec<(T, T)> {
        vec![(T::of(self.center - self.half), T::of(self.center + self.half)); self.dim()]
    }
    /// Lowest value of uniformly random points.
    fn random_search(&self, seed: u64, evals: u64) -> f64 {
        let mut p = Prng(seed);
        let mut best = f64::INFINITY;
        let mut x = vec![0.0; self.dim()];
        for _ in 0..evals {
            for v in x.iter_mut() {
                *v = self.center + self.half * (2.0 * p.unit() - 1.0);
            }
            best = best.min(self.value(&x));
        }
        best
    }
}

struct TaskGoal {
    task: Task,
    evals: std::rc::Rc<std::cell::Cell<u64>>,
}

impl<T: Fl> optlib::Goal<Vec<T>> for TaskGoal {
    fn get(&mut self, x: &Vec<T>) -> f64 {
        self.evals.set(self.evals.get() + 1);
        let v: Vec<f64> = x.iter().map(|a| a.f()).collect();
        self.task.seen(&v)
    }
}

fn task(fun: Fun, dim: usize, positive: bool, p: &mut Prng, offset: f64, scale: f64) -> Task {
    let (half, amount) = match fun {
        Fun::Paraboloid | Fun::Ellipsoid => (100.0, 60.0),
        Fun::Rastrigin => (5.12, 3.0),
        Fun::Schwefel => (500.0, 60.0),
        Fun::Rosenbrock => (2.0, 0.5),
    };
    let center = if positive { half * 1.5 } else { 0.0 };
    let shift = (0..dim).map(|_| center + (2.0 * p.unit() - 1.0) * amount).collect();
    Task { fun, shift, half, center, offset, scale }
}

#[derive(Clone, Debug)]
struct GaCfg {
    cross: CrossKind,
    tour: Option<usize>,
    pop: usize,
    prob: f64,
    flips: usize,
    iters: usize,
}

/// Result, evaluations.
fn ga_best<T: Fl>(t: &Task, k: &GaCfg, seed: u64) -> Result<(f64, u64), String>
where
    Vec<T>: GaPt<G = T>,
{
    let sp: GaSpec<Vec<T>> = GaSpec {
        intervals: t.interval(),
        creator: CreatorS::Lib(k.pop),
        pairing: match k.tour {
            None => PairS::Random,
            Some(r) => PairS::Tour { fam: k.pop / 2, partners: 2, rounds: r },
        },
        cross: CrossS::Lib(k.cross),
        muta: MutS::Lib { prob: k.prob, flips: k.flips },
        pre: vec![PreS::Interval],
        sel: vec![SelS::NaN, SelS::Limit(k.pop)],
        goal: GoalS::Sphere,
        stop: StopS::Max(k.iters),
        loggers: 0,
        script: vec![],
        stream: StreamS { mode: rand::rngs::thread::Mode::Seeded, seed },
        plan_evals: u64::MAX,
    };
    let evals = std::rc::Rc::new(std::cell::Cell::new(0));
    let goal = Box::new(TaskGoal { task: t.clone(), evals: evals.clone() });
    let rec = new_rec::<Vec<T>>();
    rec.borrow_mut().light = true;
    let r = no_panic(|| {
        sp.stream.install();
        let mut b = Builder::new(rec, &sp.intervals);
        let mut o = b.build_with(&sp, goal);
        optlib::Optimizer::find_min(&mut o)
    })?;
    match r {
        None => Err("no solution".into()),
        Some((x, v)) => {
            let at: Vec<f64> = x.iter().map(|a| a.f()).collect();
            let w = t.seen(&at);
            ensure!(w == v, "the reported value {} is not the value {} of the reported point", v, w);
            Ok((t.value(&at), evals.get()))
        }
    }
}

fn pso_best<T: Fl>(t: &Task, rule: &VelS<T>, abs: bool, n: usize, iters: usize, seed: u64) -> Result<(f64, u64), String>
where
    Vec<T>: Pt,
{
    let sp: PsoSpec<T> = PsoSpec {
        intervals: t.interval(),
        coords: CoordS::Lib(n),
        vels: VelInitS::Zero,
        vel: rule.clone(),
        postv: if abs { vec![PostVS::Abs(T::of(t.half * 1.4))] } else { vec![] },
        moves: vec![MoveS::Boundary],
        goal: GoalS::Sphere,
        stop: StopS::Max(iters),
        loggers: 0,
        script: vec![],
        stream: StreamS { mode: rand::rngs::thread::Mode::Seeded, seed },
        plan_evals: u64::MAX,
    };
    let evals = std::rc::Rc::new(std::cell::Cell::new(0));
    let goal = Box::new(TaskGoal { task: t.clone(), evals: evals.clone() });
    let rec = new_rec::<Vec<T>>();
    rec.borrow_mut().light = true;
    let r = no_panic(|| {
        sp.stream.install();
        let mut b = PBuilder::new(rec, &sp.intervals);
        let mut o = b.build_with(&sp, goal);
        optlib::Optimizer::find_min(&mut o)
    })?;
    match r {
        None => Err("no solution".into()),
        Some((x, v)) => {
            let at: Vec<f64> = x.iter().map(|a| a.f()).collect();
            let w = t.seen(&at);
            ensure!(w == v, "the reported value {} is not the value {} of the reported point", v, w);
            Ok((t.value(&at), evals.get()))
        }
    }
}

#[derive(Clone, Debug)]
enum Alg {
    Ga { cross: CrossKind, tour: Option<usize> },
    Pso(&'static str),
}

/// Velocity rules with ordinary parameters (of the examples and the literature).
fn rule<T: Fl>(name: &str, iters: usize) -> VelS<T> {
    let t = T::of;
    match name {
        "classic" => VelS::Classic(t(2.0), t(2.0)),
        "canonical-example" => VelS::Canon(t(2.0), t(6.0), t(0.2)),
        "canonical-schwefel" => VelS::Canon(t(3.2), t(1.0), t(0.9)),
        "canonical-usual" => VelS::Canon(t(2.05), t(2.05), t(0.95)),
        "inertia-constant" => VelS::Inertia(t(1.5), t(1.5), InertS::Const(t(0.7))),
        "inertia-linear" => VelS::Inertia(t(1.5), t(1.5), InertS::Linear(t(0.4), t(0.9), iters)),
        "negative-example" => VelS::Neg([t(3.2), t(0.0), t(1.0), t(0.0), t(0.0), t(0.0), t(2.0 * 0.9 / (4.2 - 2.0))]),
        "negative-mixed" => VelS::Neg([t(2.0), t(0.5), t(1.5), t(0.05), t(0.05), t(0.05), t(0.7)]),
        _ => VelS::Neg([t(1.5), t(1.5), t(0.0), t(0.0), t(0.1), t(0.0), t(0.7)]),
    }
}

const RULES: &[&str] = &[
    "classic",
    "canonical-example",
    "canonical-schwefel",
    "canonical-usual",
    "inertia-constant",
    "inertia-linear",
    "negative-example",
    "negative-mixed",
    "negative-current",
];

#[derive(Clone, Debug)]
struct Row {
    fun: Fun,
    dim: usize,
    alg: Alg,
    wide: bool,
    n: usize,
    iters: usize,
}

fn rows() -> (Vec<Row>, Vec<Row>) {
    let mut ga = vec![];
    for wide in [false, true] {
        for (fun, dim) in [(Fun::Paraboloid, 3), (Fun::Ellipsoid, 5), (Fun::Rastrigin, 2), (Fun::Schwefel, 2)] {
            for cross in [CrossKind::Mean, CrossKind::Geo, CrossKind::Bit, CrossKind::Exp] {
                for tour in [None, Some(1), Some(2), Some(5)] {
                    ga.push(Row { fun, dim, alg: Alg::Ga { cross, tour }, wide, n: 100, iters: 80 });
                }
            }
        }
        for (fun, dim) in [(Fun::Paraboloid, 10), (Fun::Schwefel, 4), (Fun::Rosenbrock, 2)] {
            for cross in [CrossKind::Mean, CrossKind::Bit, CrossKind::Exp] {
                ga.push(Row { fun, dim, alg: Alg::Ga { cross, tour: Some(5) }, wide, n: 300, iters: 150 });
            }
        }
    }
    let mut pso = vec![];
    for wide in [false, true] {
        for (fun, dim) in [
            (Fun::Paraboloid, 1),
            (Fun::Paraboloid, 3),
            (Fun::Ellipsoid, 5),
            (Fun::Rastrigin, 2),
            (Fun::Schwefel, 2),
            (Fun::Rosenbrock, 2),
        ] {
            for name in RULES {
                pso.push(Row { fun, dim, alg: Alg::Pso(name), wide, n: 50, iters: 80 });
            }
        }
        for (fun, dim) in [(Fun::Paraboloid, 12), (Fun::Schwefel, 4), (Fun::Rosenbrock, 3)] {
            for name in RULES {
                pso.push(Row { fun, dim, alg: Alg::Pso(name), wide, n: 120, iters: 200 });
            }
        }
    }
    (ga, pso)
}

/// Final value, evaluations, and the result of random search with as many evaluations.
fn one(r: &Row, p: &mut Prng, offset: f64, scale: f64) -> Result<(f64, f64), String> {
    let positive = match r.alg {
        Alg::Ga { cross, .. } => cross == CrossKind::Geo,
        _ => p.below(3) == 0,
    };
    let t = task(r.fun, r.dim, positive, p, offset, scale);
    let seed = p.next();
    let (v, e) = match &r.alg {
        Alg::Ga { cross, tour } => {
            let k = GaCfg { cross: *cross, tour: *tour, pop: r.n, prob: 15.0, flips: 3, iters: r.iters };
            if r.wide {
                ga_best::<f64>(&t, &k, seed)?
            } else {
                ga_best::<f32>(&t, &k, seed)?
            }
        }
        Alg::Pso(name) => {
            if r.wide {
                pso_best::<f64>(&t, &rule(name, r.iters), true, r.n, r.iters, seed)?
            } else {
                pso_best::<f32>(&t, &rule(name, r.iters), true, r.n, r.iters, seed)?
            }
        }
    };
    Ok((v, t.random_search(p.next(), e)))
}

fn quantile(v: &mut Vec<f64>, q: f64) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v[((v.len() - 1) as f64 * q) as usize]
}

/// Prints the present quality of all rows: the levels that the check uses (not a check).
pub fn survey() {
    let (ga, pso) = rows();
    for (name, rows) in [("GA_LEVELS", ga), ("PSO_LEVELS", pso)] {
        println!("const {}: &[f64] = &[", name);
        let k = 8;
        let mut out: Vec<String> = vec![String::new(); rows.len()];
        std::thread::scope(|sc| {
            for (th, chunk) in out.chunks_mut((rows.len() + k - 1) / k).enumerate() {
                let rows = &rows;
                let step = (rows.len() + k - 1) / k;
                sc.spawn(move || {
                    for (i, o) in chunk.iter_mut().enumerate() {
                        let r = &rows[th * step + i];
                        let mut p = Prng(99 + i as u64);
                        let (mut a, mut b) = (vec![], vec![]);
                        for _ in 0..400 {
                            let (v, w) = one(r, &mut p, 0.0, 1.0).unwrap();
                            a.push(v);
                            b.push(w);
                        }
                        let q = quantile(&mut a, 0.85).max(1e-6);
                        let m = quantile(&mut a, 0.5);
                        let w = quantile(&mut b, 0.5);
                        let lv = if q < 0.5 * w && m < 0.2 * w { format!("{:.1e}", q * 1.1) } else { "f64::NAN".to_string() };
                        *o = format!("    {}, // {:?} median {:.1e} random {:.1e}", lv, r, m, w);
                    }
                });
            }
        });
        for l in out {
            println!("{}", l);
        }
        println!("];");
    }
}

const RUNS: usize = 60;

fn c30(s: &mut Src, c: &mut Ctx, rows: &[Row], levels: &[f64]) -> R {
    // rows where the level leaves a margin to random search; large ones less often
    let usable: Vec<usize> = (0..rows.len()).filter(|i| !levels[*i].is_nan()).collect();
    let (small, large): (Vec<usize>, Vec<usize>) = usable.iter().partition(|i| rows[**i].n <= 100);
    let i = if s.chance(85) { *s.pick(&small) } else { *s.pick(&large) };
    let (r, level) = (&rows[i], levels[i]);
    match &r.alg {
        Alg::Ga { cross, .. } => c.label(&format!("{:?} {:?}", cross, r.fun)),
        Alg::Pso(name) => c.label(&format!("{} {:?}", name, r.fun)),
    }
    let offset = *s.pick(&[0.0, 0.0, -1.0, -1e4, 1e4]);
    let scale = *s.pick(&[1.0, 1.0, 1e-3, 1e3, 64.0]);
    let mut p = Prng(s.word());
    c.desc(|| format!("{:?} level {} offset {} scale {}", r, level, offset, scale));
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..RUNS {
        let (v, w) = one(r, &mut p, offset, scale)?;
        a.push(v);
        b.push(w);
    }
    let hits = a.iter().filter(|v| **v <= level).count();
    c.nontrivial();
    c.count("runs", RUNS as u64);
    c.count("runs that reached the level", hits as u64);
    ensure!(
        2 * hits >= RUNS,
        "only {} of {} runs reached {} (usually 85 percent): {:?}",
        hits,
        RUNS,
        level,
        &a
    );
    let (m, w) = (quantile(&mut a, 0.5), quantile(&mut b, 0.5));
    ensure!(m < 0.7 * w, "the median result {} is not clearly better than that of random search {}", m, w);
    Ok(())
}

pub fn c30_ga(s: &mut Src, c: &mut Ctx) -> R {
    c30(s, c, &rows().0, GA_LEVELS)
}

pub fn c30_pso(s: &mut Src, c: &mut Ctx) -> R {
    c30(s, c, &rows().1, PSO_LEVELS)
}

// More iterations never hurt.

fn c30_longer_ga<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: GaPt<G = T>,
{
    let o = GaOpts { custom: false, custom_sel: false, wild: false, hostile: false, stateful: false, max_pop: 40, ..Default::default() };
    let mut sp: GaSpec<Vec<T>> = ga::gen_spec(s, &o);
    sp.sel = match s.n(3) {
        0 => vec![SelS::Limit(s.size(1, 40))],
        1 => vec![SelS::NaN, SelS::Limit(s.size(1, 40))],
        _ => vec![SelS::Limit(s.size(1, 40)), SelS::NaN],
    };
    sp.loggers = 0;
    sp.plan_evals = u64::MAX;
    let a = s.size(1, 40);
    let b = a + s.size(0, 40);
    let calls = s.r(1, 3);
    c.desc(|| format!("{:?} iterations {} and {} in {} calls", sp, a, b, calls));
    let mut first = sp.clone();
    first.stop = StopS::Max(a);
    first.script = vec![Op::Find { iters: 0 }];
    let mut second = sp.clone();
    second.stop = StopS::Max(if calls == 1 { b } else { a });
    second.script = vec![Op::Find { iters: 0 }];
    for k in 1..calls {
        second.script.push(Op::SetStop(StopS::Max(a + (b - a) * k / (calls - 1))));
        second.script.push(Op::Next { iters: 0 });
    }
    let (x, y) = (ga::run_with(&first, None, true)?, ga::run_with(&second, None, true)?);
    longer(c, rets(&x.evs).pop(), rets(&y.evs).pop(), a, b)
}

fn longer<P: Pt>(c: &mut Ctx, x: Option<Option<(P, f64)>>, y: Option<Option<(P, f64)>>, a: usize, b: usize) -> R {
    let (x, y) = (x.and_then(|v| v), y.and_then(|v| v));
    match (x, y) {
        (Some(x), Some(y)) => {
            if b > a {
                c.nontrivial();
            }
            if y.1 < x.1 {
                c.label("more iterations helped");
            }
            ensure!(
                !(y.1 > x.1) && (x.1.is_nan() || !y.1.is_nan()),
                "{} iterations reach {} but {} iterations of the same run end at {}",
                a,
                x.1,
                b,
                y.1
            );
            Ok(())
        }
        (Some(x), None) => Err(format!("{} iterations reach {} but {} iterations return nothing", a, x.1, b)),
        _ => Ok(()),
    }
}

fn c30_longer_pso<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { custom: false, wild: false, empty: false, hostile: false, stateful: false, ..Default::default() };
    let mut sp: PsoSpec<T> = pso::gen_spec(s, &o);
    // a rule that depends on its horizon stays the same, the horizon is not the limit
    sp.loggers = 0;
    sp.plan_evals = u64::MAX;
    let a = s.size(1, 40);
    let b = a + s.size(0, 40);
    let calls = s.r(1, 3);
    c.desc(|| format!("{:?} iterations {} and {} in {} calls", sp, a, b, calls));
    let mut first = sp.clone();
    first.stop = StopS::Max(a);
    first.script = vec![POp::Find { iters: 0 }];
    let mut second = sp.clone();
    second.stop = StopS::Max(if calls == 1 { b } else { a });
    second.script = vec![POp::Find { iters: 0 }];
    for k in 1..calls {
        second.script.push(POp::SetStop(StopS::Max(a + (b - a) * k / (calls - 1))));
        second.script.push(POp::Next { iters: 0 });
    }
    let (x, y) = (pso::run_with(&first, None, true)?, pso::run_with(&second, None, true)?);
    longer(c, rets(&x.evs).pop(), rets(&y.evs).pop(), a, b)
}

pub fn c30_longer(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(4) {
        0 => c30_longer_ga::<f64>(s, c),
        1 => c30_longer_ga::<f32>(s, c),
        2 => c30_longer_pso::<f64>(s, c),
        _ => c30_longer_pso::<f32>(s, c),
    }
}
