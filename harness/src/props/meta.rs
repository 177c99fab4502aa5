//! Properties relating several runs: C09-C12.

use crate::common::*;
use crate::engine::{clip, no_panic, Ctx, Src, R};
use crate::ga::{
    self, gen_setter, Builder, CreatorS, CrossS, GaOpts, GaPt, GaSpec, Op, PairS, SelS, StopS,
};
use crate::gen::{self, Fl};
use crate::props::run::{compare_runs, short};
use crate::pso::{self, gen_moves, gen_postv, CoordS, POp, PostVS, PsoOpts, PsoSpec, VelInitS, VelS};
use optlib::genetic::GeneticOptimizer;
use optlib::particleswarm::{Particle, ParticleSwarmOptimizer, Swarm, VelocityCalculator};
use optlib::tools::logging::{Logger, ResultOnlyLogger, TimeLogger, VerboseLogger};
use optlib::tools::statistics::{CallCountData, GoalCalcStatistics, Statistics, StatisticsLogger};
use optlib::{AlgorithmState, Goal};
use rand::rngs::thread::{control, Stream};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Everything observable of a run as comparable data.
pub type Digest = Vec<(&'static str, Vec<u64>)>;

fn pv<P: Pt>(x: &Option<(P, f64)>) -> Vec<u64> {
    match x {
        None => vec![0],
        Some((p, v)) => {
            let mut k = vec![1, vkey(*v)];
            k.extend(p.key());
            k
        }
    }
}

/// `observers`: with the states shown to stop criteria.
pub fn digest<P: Pt>(evs: &[Ev<P>], observers: bool) -> Digest {
    let mut d = vec![];
    for e in evs {
        match e {
            Ev::Goal(p, v) => d.push(("evaluation", pv(&Some((p.clone(), *v))))),
            Ev::Ret(r) => d.push(("result", pv(r))),
            Ev::Call(_) => d.push(("call", vec![])),
            Ev::Stop { st, ans, .. } if observers => {
                let mut k = vec![st.iter as u64, *ans as u64];
                k.extend(pv(&st.best));
                d.push(("stop check", k));
            }
            _ => {}
        }
    }
    d
}

pub fn diff(a: &Digest, b: &Digest) -> R {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            let show = |d: &(&'static str, Vec<u64>)| {
                let nums: Vec<String> = d.1.iter().map(|w| format!("{:x}", w)).collect();
                format!("{} {}", d.0, clip(&nums.join(" "), 160))
            };
            return Err(format!("runs differ at observable event {}: {} versus {}", i, show(x), show(y)));
        }
    }
    if a.len() != b.len() {
        return Err(format!("runs differ: {} versus {} observable events", a.len(), b.len()));
    }
    Ok(())
}

pub fn bound_growth<P: GaPt>(s: &mut Src, sp: &mut GaSpec<P>) {
    let n = s.size(1, 40);
    if !sp.sel.iter().any(|x| matches!(x, SelS::Limit(_))) {
        sp.sel.push(SelS::Limit(n));
    }
    for op in &mut sp.script {
        if let Op::SetSel(v) = op {
            if !v.iter().any(|x| matches!(x, SelS::Limit(_))) {
                v.push(SelS::Limit(n));
            }
        }
    }
}

// ================================================================ C09

/// States after completed iterations, within runs.
fn iteration_states<P: Pt>(evs: &[Ev<P>]) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![];
    for e in evs {
        if let Ev::Stop { st, ans: false, .. } = e {
            let mut k = vec![st.iter as u64];
            k.extend(pv(&st.best));
            v.push(k);
        }
    }
    v
}

/// One result per call: which of them did nothing?
fn idle_calls<P: Pt>(evs: &[Ev<P>]) -> R {
    let mut prev: Option<Option<(P, f64)>> = None;
    for call in calls(evs) {
        let first_stop = call.iter().find_map(|e| match e {
            Ev::Stop { ans, .. } => Some(*ans),
            _ => None,
        });
        let resumed = matches!(call[0], Ev::Call("next_iterations"));
        let ret = call.iter().find_map(|e| match e {
            Ev::Ret(r) => Some(r.clone()),
            _ => None,
        });
        if resumed && first_stop == Some(true) {
            ensure!(goals(call).is_empty(), "a resumed call whose stop criterion was already met evaluated the goal");
            if let (Some(p), Some(r)) = (&prev, &ret) {
                ensure!(
                    same_opt(p, r),
                    "a resumed call whose stop criterion was already met returned {} instead of {}",
                    short(r),
                    short(p)
                );
            }
        }
        prev = ret;
    }
    Ok(())
}

/// Splits total into parts, zeros included.
fn split(s: &mut Src, total: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut left = total;
    let k = if s.n(400) == 399 { s.r(200, 320) } else { s.few(1, 6, 30) };
    for _ in 0..k {
        let x = if s.chance(25) { s.n(2).min(left) } else { s.n(left + 1) };
        v.push(x);
        left -= x;
    }
    v.push(left);
    if s.chance(20) {
        v.push(0);
    }
    v
}

fn c09_compare<P: Pt>(a: &[Ev<P>], b: &[Ev<P>]) -> R {
    if let Some(d) = diff_goals(a, b) {
        return Err(format!("unbroken and resumed run differ: {}", d));
    }
    let (x, y) = (rets(a), rets(b));
    ensure!(
        same_opt(x.last().unwrap_or(&None), y.last().unwrap_or(&None)),
        "unbroken run returned {} but the resumed run {}",
        short(&x.last()),
        short(&y.last())
    );
    let (x, y) = (iteration_states(a), iteration_states(b));
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        ensure!(p == q, "state before iteration {} differs between the unbroken and the resumed run", i + 1);
    }
    ensure!(x.len() == y.len(), "{} iterations unbroken, {} resumed", x.len(), y.len());
    idle_calls(b)
}

fn c09_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, max_pop: 40, multi_call: false, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    bound_growth(s, &mut sp);
    sp.plan_evals = u64::MAX;
    let total = s.size(1, 30) as u64;
    let parts = split(s, total);
    let by_limit = s.chance(40);
    let (mut a, mut b) = (vec![], vec![]);
    if by_limit {
        a.push(Op::SetStop(StopS::Max(total as usize)));
        a.push(Op::Find { iters: 0 });
        let mut at = 0;
        for (i, p) in parts.iter().enumerate() {
            at += p;
            b.push(Op::SetStop(StopS::Max(at as usize)));
            b.push(if i == 0 { Op::Find { iters: 0 } } else { Op::Next { iters: 0 } });
        }
    } else {
        a.push(Op::Find { iters: total });
        for (i, p) in parts.iter().enumerate() {
            b.push(if i == 0 { Op::Find { iters: *p } } else { Op::Next { iters: *p } });
        }
    }
    sp.script = a;
    let ta = ga::run(&sp)?;
    sp.script = b;
    c.desc(|| format!("split {:?} of {}", parts, short(&total)) + &format!(" {:?}", sp));
    let tb = ga::run(&sp)?;
    if parts.iter().filter(|p| **p > 0).count() > 1 {
        c.nontrivial();
    }
    c.count("iterations", total);
    c09_compare(&ta.evs, &tb.evs)
}

pub fn c09_ga(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c09_ga_t::<Vec<f64>>(s, c, true),
        1 => c09_ga_t::<Vec<f32>>(s, c, true),
        _ => c09_ga_t::<Tok>(s, c, false),
    }
}

fn c09_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { max_pop: 25, multi_call: false, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    sp.plan_evals = u64::MAX;
    let total = s.size(1, 40) as u64;
    let parts = split(s, total);
    let by_limit = s.chance(40);
    let (mut a, mut b) = (vec![], vec![]);
    if by_limit {
        a.push(POp::SetStop(StopS::Max(total as usize)));
        a.push(POp::Find { iters: 0 });
        let mut at = 0;
        for (i, p) in parts.iter().enumerate() {
            at += p;
            b.push(POp::SetStop(StopS::Max(at as usize)));
            b.push(if i == 0 { POp::Find { iters: 0 } } else { POp::Next { iters: 0 } });
        }
    } else {
        a.push(POp::Find { iters: total });
        for (i, p) in parts.iter().enumerate() {
            b.push(if i == 0 { POp::Find { iters: *p } } else { POp::Next { iters: *p } });
        }
    }
    sp.script = a;
    let ta = pso::run(&sp)?;
    sp.script = b;
    c.desc(|| format!("split {:?}", parts) + &format!(" {:?}", sp));
    let tb = pso::run(&sp)?;
    if parts.iter().filter(|p| **p > 0).count() > 1 {
        c.nontrivial();
    }
    c.count("iterations", total);
    c09_compare(&ta.evs, &tb.evs)
}

pub fn c09_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c09_pso_t::<f32>(s, c)
    } else {
        c09_pso_t::<f64>(s, c)
    }
}

// ================================================================ C10

fn c10_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx) -> R {
    let o = GaOpts {
        custom: false,
        custom_sel: false,
        stateful: false,
        setters: true,
        max_pop: 30,
        max_iters: 12,
        ..Default::default()
    };
    let mut sp = ga::gen_spec::<P>(s, &o);
    if s.chance(10) {
        sp.sel.push(SelS::All);
    }
    let lib_stop = s.chance(60);
    if lib_stop {
        sp.stop = StopS::Tree(StopTree::Any(vec![StopTree::Max(s.r(1, 25)), gen_stop_tree(s, 2, 12)]));
        for op in &mut sp.script {
            if let Op::SetStop(x) = op {
                *x = StopS::Tree(StopTree::Any(vec![StopTree::Max(s.r(1, 25)), gen_stop_tree(s, 2, 12)]));
            }
        }
    }
    bound_growth(s, &mut sp);
    for _ in 0..s.r(0, 2) {
        let mut op = gen_setter(s, &o, true);
        if let (true, Op::SetStop(x)) = (lib_stop, &mut op) {
            *x = StopS::Tree(StopTree::Any(vec![StopTree::Max(s.r(1, 25)), gen_stop_tree(s, 2, 12)]));
        }
        if let Op::SetSel(v) = &mut op {
            v.push(SelS::Limit(s.size(1, 30)));
        }
        sp.script.push(op);
    }
    let again = gen_stream(s);
    let find = Op::Find { iters: s.size(1, 15) as u64 };
    sp.script.push(Op::Stream(again.clone()));
    sp.script.push(find.clone());
    // the components in force at the end
    let mut fresh = sp.clone();
    for op in &sp.script {
        match op {
            Op::SetPairing(x) => fresh.pairing = x.clone(),
            Op::SetCross(x) => fresh.cross = x.clone(),
            Op::SetMutation(x) => fresh.muta = x.clone(),
            Op::SetPre(x) => fresh.pre = x.clone(),
            Op::SetSel(x) => fresh.sel = x.clone(),
            Op::SetStop(x) => fresh.stop = x.clone(),
            Op::SetLoggers(n) => fresh.loggers = *n,
            _ => {}
        }
    }
    fresh.script = vec![Op::Stream(again), find];
    c.desc(|| format!("{:?}", sp));
    let old = ga::run(&sp)?;
    let new = ga::run(&fresh)?;
    c10_compare(&old.evs, &new.evs, c)
}

fn c10_compare<P: Pt>(old: &[Ev<P>], new: &[Ev<P>], c: &mut Ctx) -> R {
    let rs = runs(old);
    let last = rs.last().ok_or("harness: no run")?;
    let nr = runs(new);
    let want = nr.last().ok_or("harness: no run")?;
    if rs.len() > 1 && goals(want).len() > 2 {
        c.nontrivial();
    }
    let (a, b) = (digest(last, true), digest(want, true));
    let r = diff(&a, &b);
    if r.is_err() {
        if let Some(d) = diff_goals(last, want) {
            return Err(format!("repeated run and a newly built optimizer differ: {}", d));
        }
    }
    r.map_err(|e| format!("repeated run versus a newly built optimizer: {}", e))
}

pub fn c10_ga(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c10_ga_t::<Vec<f32>>(s, c)
    } else {
        c10_ga_t::<Vec<f64>>(s, c)
    }
}

fn c10_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { custom: false, stateful: false, setters: true, empty: false, max_pop: 20, max_iters: 15, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    let dim = sp.intervals.len();
    let lib_stop = s.chance(60);
    let tree = |s: &mut Src| StopS::Tree(StopTree::Any(vec![StopTree::Max(s.r(1, 25)), gen_stop_tree(s, 2, 12)]));
    if lib_stop {
        sp.stop = tree(s);
    }
    for _ in 0..s.r(0, 2) {
        sp.script.push(match s.n(4) {
            0 => POp::SetLoggers(s.few(0, 3, 12)),
            1 => POp::SetMoves(gen_moves(s, &o)),
            2 => POp::SetPostV(gen_postv(s, &o, dim)),
            _ => POp::SetStop(StopS::Plan),
        });
    }
    if lib_stop {
        for op in &mut sp.script {
            if let POp::SetStop(x) = op {
                *x = tree(s);
            }
        }
    }
    let again = gen_stream(s);
    let find = POp::Find { iters: s.size(1, 20) as u64 };
    sp.script.push(POp::Stream(again.clone()));
    sp.script.push(find.clone());
    let mut fresh = sp.clone();
    for op in &sp.script {
        match op {
            POp::SetMoves(x) => fresh.moves = x.clone(),
            POp::SetPostV(x) => fresh.postv = x.clone(),
            POp::SetStop(x) => fresh.stop = x.clone(),
            POp::SetLoggers(n) => fresh.loggers = *n,
            _ => {}
        }
    }
    fresh.script = vec![POp::Stream(again), find];
    c.desc(|| format!("{:?}", sp));
    let old = pso::run(&sp)?;
    let new = pso::run(&fresh)?;
    c10_compare(&old.evs, &new.evs, c)
}

pub fn c10_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c10_pso_t::<f32>(s, c)
    } else {
        c10_pso_t::<f64>(s, c)
    }
}

// ================================================================ C11

#[derive(Clone, Debug)]
pub enum AnySpec {
    G32(GaSpec<Vec<f32>>),
    G64(GaSpec<Vec<f64>>),
    GT(GaSpec<Tok>),
    P32(PsoSpec<f32>),
    P64(PsoSpec<f64>),
}

fn gen_any(s: &mut Src) -> AnySpec {
    let g = GaOpts { max_pop: 20, max_iters: 8, ..Default::default() };
    let gt = GaOpts { lib: false, max_pop: 20, max_iters: 8, ..Default::default() };
    let p = PsoOpts { max_pop: 12, max_iters: 8, ..Default::default() };
    let mut a = match s.n(5) {
        0 => AnySpec::G64(ga::gen_spec(s, &g)),
        1 => AnySpec::P64(pso::gen_spec(s, &p)),
        2 => AnySpec::G32(ga::gen_spec(s, &g)),
        3 => AnySpec::P32(pso::gen_spec(s, &p)),
        _ => AnySpec::GT(ga::gen_spec(s, &gt)),
    };
    // fewer evaluations: several run in one case
    match &mut a {
        AnySpec::G32(x) => x.plan_evals = 400,
        AnySpec::G64(x) => x.plan_evals = 400,
        AnySpec::GT(x) => x.plan_evals = 400,
        AnySpec::P32(x) => x.plan_evals = 400,
        AnySpec::P64(x) => x.plan_evals = 400,
    }
    a
}

fn run_any(a: &AnySpec) -> Result<Digest, String> {
    Ok(match a {
        AnySpec::G32(x) => digest(&ga::run(x)?.evs, true),
        AnySpec::G64(x) => digest(&ga::run(x)?.evs, true),
        AnySpec::GT(x) => digest(&ga::run(x)?.evs, true),
        AnySpec::P32(x) => digest(&pso::run(x)?.evs, true),
        AnySpec::P64(x) => digest(&pso::run(x)?.evs, true),
    })
}

/// An optimizer that runs its script step by step with its own random stream.
trait Steps {
    fn step(&mut self) -> bool;
    fn result(&self) -> Digest;
}

struct GaSteps<P: GaPt> {
    b: Builder<P>,
    o: GeneticOptimizer<'static, P>,
    script: Vec<Op>,
    pos: usize,
    stream: Option<Stream>,
}

impl<P: GaPt> GaSteps<P> {
    fn new(sp: &GaSpec<P>) -> Self {
        let mut b = Builder::new(new_rec(), &sp.intervals);
        let o = b.build(sp);
        GaSteps { b, o, script: sp.script.clone(), pos: 0, stream: Some(Stream::new(sp.stream.mode.clone(), sp.stream.seed)) }
    }
}

impl<P: GaPt> Steps for GaSteps<P> {
    fn step(&mut self) -> bool {
        if self.pos >= self.script.len() {
            return false;
        }
        let outer = control::swap(self.stream.take().unwrap());
        let op = self.script[self.pos].clone();
        self.pos += 1;
        let r = no_panic(|| self.b.exec(&mut self.o, &op));
        self.stream = Some(control::swap(outer));
        if let Err(m) = r {
            panic!("{}", m);
        }
        true
    }
    fn result(&self) -> Digest {
        digest(&self.b.rec.borrow().evs, true)
    }
}

struct PsoSteps<T: Fl>
where
    Vec<T>: Pt,
{
    b: pso::PBuilder<T>,
    o: ParticleSwarmOptimizer<'static, T>,
    script: Vec<POp<T>>,
    pos: usize,
    stream: Option<Stream>,
}

impl<T: Fl> PsoSteps<T>
where
    Vec<T>: Pt,
{
    fn new(sp: &PsoSpec<T>) -> Self {
        let mut b = pso::PBuilder::new(new_rec(), &sp.intervals);
        let o = b.build(sp);
        PsoSteps { b, o, script: sp.script.clone(), pos: 0, stream: Some(Stream::new(sp.stream.mode.clone(), sp.stream.seed)) }
    }
}

impl<T: Fl> Steps for PsoSteps<T>
where
    Vec<T>: Pt,
{
    fn step(&mut self) -> bool {
        if self.pos >= self.script.len() {
            return false;
        }
        let outer = control::swap(self.stream.take().unwrap());
        let op = self.script[self.pos].clone();
        self.pos += 1;
        let r = no_panic(|| self.b.exec(&mut self.o, &op));
        self.stream = Some(control::swap(outer));
        if let Err(m) = r {
            panic!("{}", m);
        }
        true
    }
    fn result(&self) -> Digest {
        digest(&self.b.rec.borrow().evs, true)
    }
}

fn steps(a: &AnySpec) -> Box<dyn Steps> {
    match a {
        AnySpec::G32(x) => Box::new(GaSteps::new(x)),
        AnySpec::G64(x) => Box::new(GaSteps::new(x)),
        AnySpec::GT(x) => Box::new(GaSteps::new(x)),
        AnySpec::P32(x) => Box::new(PsoSteps::new(x)),
        AnySpec::P64(x) => Box::new(PsoSteps::new(x)),
    }
}

/// Several optimizers in one thread, call by call in random order.
pub fn c11_interleaved(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.r(2, 4);
    let mut specs: Vec<AnySpec> = vec![];
    for _ in 0..n {
        // equal configurations side by side as well
        if !specs.is_empty() && s.chance(25) {
            specs.push(specs[0].clone());
        } else {
            specs.push(gen_any(s));
        }
    }
    c.desc(|| format!("interleaved: {:?}", specs));
    let want: Result<Vec<Digest>, String> = specs.iter().map(run_any).collect();
    let want = want?;
    let mut all: Vec<Box<dyn Steps>> = specs.iter().map(steps).collect();
    let mut open: Vec<usize> = (0..n).collect();
    let mut switches = 0;
    let mut last = usize::MAX;
    while !open.is_empty() {
        let k = s.n(open.len() as u64) as usize;
        let i = open[k];
        if i != last {
            switches += 1;
            last = i;
        }
        if !all[i].step() {
            open.remove(k);
        }
    }
    if switches > n && want.iter().filter(|d| d.len() > 10).count() > 1 {
        c.nontrivial();
    }
    for (i, x) in all.iter().enumerate() {
        diff(&x.result(), &want[i]).map_err(|e| format!("optimizer {} interleaved with others versus alone: {}", i, e))?;
    }
    Ok(())
}

struct NestLogger {
    others: Rc<RefCell<Vec<Box<dyn Steps>>>>,
    n: usize,
}

fn step_one(others: &Rc<RefCell<Vec<Box<dyn Steps>>>>, n: &mut usize) {
    if let Ok(mut o) = others.try_borrow_mut() {
        let k = o.len();
        o[*n % k].step();
        *n += 1;
    }
}

impl<P> Logger<P> for NestLogger {
    fn start(&mut self, _: &dyn AlgorithmState<P>) {
        step_one(&self.others, &mut self.n);
    }
    fn resume(&mut self, _: &dyn AlgorithmState<P>) {
        step_one(&self.others, &mut self.n);
    }
    fn next_iteration(&mut self, _: &dyn AlgorithmState<P>) {
        step_one(&self.others, &mut self.n);
    }
    fn finish(&mut self, _: &dyn AlgorithmState<P>) {
        step_one(&self.others, &mut self.n);
    }
}

struct NestGoal<P> {
    inner: RecGoal<P>,
    others: Rc<RefCell<Vec<Box<dyn Steps>>>>,
    every: u64,
    n: usize,
    calls: u64,
}

impl<P: Pt> Goal<P> for NestGoal<P> {
    fn get(&mut self, x: &P) -> f64 {
        self.calls += 1;
        if self.calls % self.every == 0 {
            step_one(&self.others, &mut self.n);
        }
        self.inner.get(x)
    }
}

/// Whole runs of other optimizers inside the callbacks of one.
pub fn c11_nested(s: &mut Src, c: &mut Ctx) -> R {
    let outer = gen_any(s);
    let inner: Vec<AnySpec> = (0..s.r(1, 3)).map(|_| gen_any(s)).collect();
    let in_goal = s.flag();
    let every = s.r(1, 9) as u64;
    c.desc(|| format!("outer {:?} with nested {:?}", outer, inner));
    let want = run_any(&outer)?;
    let want_in: Result<Vec<Digest>, String> = inner.iter().map(run_any).collect();
    let want_in = want_in?;
    let others = Rc::new(RefCell::new(inner.iter().map(steps).collect::<Vec<_>>()));
    macro_rules! outer_run {
        ($x:expr, $builder:expr, $op:ident) => {{
            let x = $x;
            let rec = new_rec();
            let mut b = $builder(rec.clone(), &x.intervals);
            x.stream.install();
            let mut o = if in_goal {
                let g = NestGoal { inner: b.goal(x), others: others.clone(), every, n: 0, calls: 0 };
                b.build_with(x, Box::new(g))
            } else {
                b.build(x)
            };
            if !in_goal {
                o.set_loggers(vec![Box::new(NestLogger { others: others.clone(), n: 0 })]);
            }
            for op in &x.script {
                if let $op::SetLoggers(_) = op {
                    continue;
                }
                b.exec(&mut o, op);
            }
            let d = digest(&rec.borrow().evs, true);
            d
        }};
    }
    let got = match &outer {
        AnySpec::G32(x) => outer_run!(x, Builder::new, Op),
        AnySpec::G64(x) => outer_run!(x, Builder::new, Op),
        AnySpec::GT(x) => outer_run!(x, Builder::new, Op),
        AnySpec::P32(x) => outer_run!(x, pso::PBuilder::new, POp),
        AnySpec::P64(x) => outer_run!(x, pso::PBuilder::new, POp),
    };
    diff(&got, &want).map_err(|e| format!("outer run with nested runs versus alone: {}", e))?;
    let mut o = others.borrow_mut();
    let mut nested = 0;
    for (i, x) in o.iter_mut().enumerate() {
        nested += x.result().len();
        while x.step() {}
        diff(&x.result(), &want_in[i]).map_err(|e| format!("nested run {} versus alone: {}", i, e))?;
    }
    if nested > 5 && want.len() > 5 {
        c.nontrivial();
    }
    Ok(())
}

/// Optimizers on parallel threads.
pub fn c11_threads(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.r(2, 6);
    let mut specs: Vec<AnySpec> = vec![];
    for _ in 0..n {
        if !specs.is_empty() && s.chance(25) {
            specs.push(specs[0].clone());
        } else {
            specs.push(gen_any(s));
        }
    }
    c.desc(|| format!("parallel: {:?}", specs));
    let want: Result<Vec<Digest>, String> = specs.iter().map(run_any).collect();
    let want = want?;
    let gate = std::sync::Barrier::new(n);
    let got: Vec<Result<Digest, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = specs
            .iter()
            .map(|a| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    let mut r = run_any(a);
                    // a second time, while the others are running
                    if r.is_ok() {
                        r = run_any(a);
                    }
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread failed".into()))).collect()
    });
    if want.iter().filter(|d| d.len() > 10).count() > 1 {
        c.nontrivial();
    }
    for (i, g) in got.into_iter().enumerate() {
        let g = g.map_err(|e| format!("on a parallel thread: {}", e))?;
        diff(&g, &want[i]).map_err(|e| format!("optimizer {} on a parallel thread versus alone: {}", i, e))?;
    }
    Ok(())
}

/// Optimizers of one thread after others have run on it: nothing global is left behind.
fn observe_ga<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: GaPt<G = T>,
{
    let o = GaOpts { max_pop: 30, max_iters: 12, ..Default::default() };
    let mut sp = ga::gen_spec::<Vec<T>>(s, &o);
    sp.loggers = 0;
    let kinds: Vec<u64> = (0..s.r(0, 4)).map(|_| s.n(5)).collect();
    let count = s.flag() || kinds.is_empty();
    let prec = s.r(0, 12);
    c.desc(|| format!("observers {:?}, counting {}: {:?}", kinds, count, sp));
    let base = ga::run(&sp)?;
    let rec = new_rec::<Vec<T>>();
    let mut bufs: Vec<Vec<u8>> = kinds.iter().map(|_| vec![]).collect();
    let mut stats: Vec<Statistics<Vec<T>>> = kinds.iter().map(|_| Statistics::new()).collect();
    let mut data = CallCountData::new();
    {
        sp.stream.install();
        let mut b = Builder::new(rec.clone(), &sp.intervals);
        let mut inner = b.goal(&sp);
        let goal: Box<dyn Goal<Vec<T>> + '_> = if count {
            Box::new(GoalCalcStatistics::new(&mut inner, &mut data))
        } else {
            Box::new(inner)
        };
        let mut opt = b.build_with(&sp, goal);
        opt.set_loggers(loggers(&kinds, &mut bufs, &mut stats, prec, &rec));
        for op in &sp.script {
            b.exec(&mut opt, op);
        }
    }
    if (!kinds.is_empty() || count) && goals(&base.evs).len() > 10 {
        c.nontrivial();
    }
    let r = rec.borrow();
    diff(&digest(&r.evs, true), &digest(&base.evs, true)).map_err(|e| format!("observed versus unobserved run: {}", e))
}

fn loggers<'a, T: Fl>(
    kinds: &[u64],
    bufs: &'a mut [Vec<u8>],
    stats: &'a mut [Statistics<Vec<T>>],
    prec: usize,
    rec: &RecRef<Vec<T>>,
) -> Vec<Box<dyn Logger<Vec<T>> + 'a>>
where
    Vec<T>: Pt,
{
    let mut v: Vec<Box<dyn Logger<Vec<T>> + 'a>> = vec![];
    for ((k, b), st) in kinds.iter().zip(bufs.iter_mut()).zip(stats.iter_mut()) {
        v.push(match k {
            0 => Box::new(VerboseLogger::new(b, prec)),
            1 => Box::new(ResultOnlyLogger::new(b, prec)),
            2 => Box::new(TimeLogger::new(b)),
            3 => Box::new(StatisticsLogger::new(st)),
            _ => Box::new(RecLogger { id: 900, rec: rec.clone() }),
        });
    }
    v
}

fn observe_pso<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { max_pop: 20, max_iters: 12, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    sp.loggers = 0;
    let kinds: Vec<u64> = (0..s.r(0, 4)).map(|_| s.n(5)).collect();
    let count = s.flag() || kinds.is_empty();
    let prec = s.r(0, 12);
    c.desc(|| format!("observers {:?}, counting {}: {:?}", kinds, count, sp));
    let base = pso::run(&sp)?;
    let rec = new_rec::<Vec<T>>();
    let mut bufs: Vec<Vec<u8>> = kinds.iter().map(|_| vec![]).collect();
    let mut stats: Vec<Statistics<Vec<T>>> = kinds.iter().map(|_| Statistics::new()).collect();
    let mut data = CallCountData::new();
    {
        sp.stream.install();
        let mut b = pso::PBuilder::new(rec.clone(), &sp.intervals);
        let mut inner = b.goal(&sp);
        let goal: Box<dyn Goal<Vec<T>> + '_> = if count {
            Box::new(GoalCalcStatistics::new(&mut inner, &mut data))
        } else {
            Box::new(inner)
        };
        let mut opt = b.build_with(&sp, goal);
        opt.set_loggers(loggers(&kinds, &mut bufs, &mut stats, prec, &rec));
        for op in &sp.script {
            b.exec(&mut opt, op);
        }
    }
    if (!kinds.is_empty() || count) && goals(&base.evs).len() > 10 {
        c.nontrivial();
    }
    let r = rec.borrow();
    diff(&digest(&r.evs, true), &digest(&base.evs, true)).map_err(|e| format!("observed versus unobserved run: {}", e))
}

pub fn c11_observed(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(4) {
        0 => observe_ga::<f64>(s, c),
        1 => observe_ga::<f32>(s, c),
        2 => observe_pso::<f64>(s, c),
        _ => observe_pso::<f32>(s, c),
    }
}

// ================================================================ C12

/// Other finite values in the same order; non-finite values are kept.
fn remap(s: &mut Src, vals: &[f64]) -> Vec<f64> {
    let mut d: Vec<f64> = vals.iter().cloned().filter(|v| v.is_finite()).map(|v| v + 0.0).collect();
    d.sort_by(|a, b| a.partial_cmp(b).unwrap());
    d.dedup();
    let style = s.n(4);
    let mut x = match s.n(4) {
        0 => 0.0,
        1 => -1e9,
        2 => 1e12,
        _ => -5e-324 * 3.0,
    };
    let mut m: HashMap<u64, f64> = HashMap::new();
    for v in d {
        m.insert(v.to_bits(), x);
        let step = match style {
            0 => 0.0,
            1 => 1.0,
            2 => (x as f64).abs() + 1e-3,
            _ => *s.pick(&[0.0, 1e-9, 0.5, 1e3, 1e9]),
        };
        let y = x + step;
        x = if y > x && y < 1e300 { y } else { gen::up(x) };
    }
    vals.iter().map(|v| if v.is_finite() { m[&(v + 0.0).to_bits()] } else { *v }).collect()
}

fn times4(v: f64) -> f64 {
    v * 4.0
}
fn next_up(v: f64) -> f64 {
    if v.is_finite() {
        gen::up(v + 0.0)
    } else {
        v
    }
}
fn bent(v: f64) -> f64 {
    if v > 0.0 && v.is_finite() {
        v * 1024.0
    } else {
        v
    }
}

/// A second goal of the same order, and the map of its values.
fn transform(s: &mut Src, g: &GoalS) -> (GoalS, Option<fn(f64) -> f64>) {
    match g {
        GoalS::Table { seed, vals } if s.chance(80) => (GoalS::Table { seed: *seed, vals: remap(s, vals) }, None),
        GoalS::Noise { seed, vals } if s.chance(80) => (GoalS::Noise { seed: *seed, vals: remap(s, vals) }, None),
        _ => (g.clone(), Some(*s.pick(&[times4 as fn(f64) -> f64, next_up, bent]))),
    }
}

/// A map that is strictly increasing and finite on the values this run saw.
fn usable<P: Pt>(map: Option<fn(f64) -> f64>, evs: &[Ev<P>]) -> Option<Option<fn(f64) -> f64>> {
    let map = match map {
        None => return Some(None),
        Some(m) => m,
    };
    let mut d: Vec<f64> = goals(evs).iter().map(|g| g.1).filter(|v| v.is_finite()).collect();
    d.sort_by(|a, b| a.partial_cmp(b).unwrap());
    d.dedup();
    for m in &[map, next_up as fn(f64) -> f64] {
        let e: Vec<f64> = d.iter().map(|v| m(*v)).collect();
        if e.iter().all(|v| v.is_finite()) && e.windows(2).all(|w| w[0] < w[1]) {
            return Some(Some(*m));
        }
    }
    None
}

/// No value so large that a transformation overflows.
fn tame(g: &mut GoalS) {
    let f = |v: &mut f64| {
        if v.is_finite() && v.abs() > 1e290 {
            *v = v.signum() * 1e9;
        }
    };
    match g {
        GoalS::Table { vals, .. } | GoalS::Noise { vals, .. } | GoalS::Holes { vals, .. } | GoalS::Late { vals, .. } => {
            vals.iter_mut().for_each(f)
        }
        GoalS::Const(v) => f(v),
        _ => {}
    }
}

fn c12_compare<P: Pt>(a: &[Ev<P>], b: &[Ev<P>]) -> Result<usize, String> {
    let (ga, gb) = (goals(a), goals(b));
    let mut map: HashMap<u64, u64> = HashMap::new();
    for (i, (x, y)) in ga.iter().zip(&gb).enumerate() {
        ensure!(
            x.0.key() == y.0.key(),
            "evaluation {} is at {} with the original goal but at {} with an order-preserving transformation of it",
            i,
            short(&x.0),
            short(&y.0)
        );
        map.insert(vkey(x.1), vkey(y.1));
    }
    ensure!(ga.len() == gb.len(), "{} evaluations with the original goal, {} with the transformed one", ga.len(), gb.len());
    let (ra, rb) = (rets(a), rets(b));
    ensure!(ra.len() == rb.len(), "different number of results");
    for (x, y) in ra.iter().zip(&rb) {
        match (x, y) {
            (None, None) => {}
            (Some((p, v)), Some((q, w))) => {
                ensure!(p.key() == q.key(), "result {} becomes {} with the transformed goal", short(p), short(q));
                ensure!(
                    map.get(&vkey(*v)) == Some(&vkey(*w)),
                    "result value {} becomes {} with the transformed goal, which is not its transformation",
                    v,
                    w
                );
            }
            _ => return Err(format!("result {} becomes {} with the transformed goal", short(x), short(y))),
        }
    }
    Ok(ga.len())
}

fn c12_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, max_pop: 40, max_iters: 12, plain_intervals: true, wild: false, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    tame(&mut sp.goal);
    let (g, map) = transform(s, &sp.goal);
    c.desc(|| format!("{:?} with transformed goal {:?} {:?}", sp, g, map.is_some()));
    let a = ga::run(&sp)?;
    let map = match usable(map, &a.evs) {
        Some(m) => m,
        None => {
            c.label("left out: no increasing map on these values");
            return Ok(());
        }
    };
    sp.goal = g;
    let b = ga::run_with(&sp, map, false)?;
    let n = c12_compare(&a.evs, &b.evs)?;
    if n > 10 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c12_ga(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c12_ga_t::<Vec<f64>>(s, c, true),
        1 => c12_ga_t::<Vec<f32>>(s, c, true),
        _ => c12_ga_t::<Tok>(s, c, false),
    }
}

fn c12_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { max_pop: 25, max_iters: 15, plain_intervals: true, wild: false, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    tame(&mut sp.goal);
    // fast growing swarms would reach values a transformation cannot follow
    sp.moves.push(crate::pso::MoveS::Boundary);
    let (g, map) = transform(s, &sp.goal);
    c.desc(|| format!("{:?} with transformed goal {:?} {:?}", sp, g, map.is_some()));
    let a = pso::run(&sp)?;
    let map = match usable(map, &a.evs) {
        Some(m) => m,
        None => {
            c.label("left out: no increasing map on these values");
            return Ok(());
        }
    };
    sp.goal = g;
    let b = pso::run_with(&sp, map, false)?;
    let n = c12_compare(&a.evs, &b.evs)?;
    if n > 10 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c12_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c12_pso_t::<f32>(s, c)
    } else {
        c12_pso_t::<f64>(s, c)
    }
}

/// Goal of the rescaled problem: the original goal at the point scaled back.
struct Unscaled<T> {
    inner: RecGoal<Vec<T>>,
    k: T,
}

impl<T: Fl> Goal<Vec<T>> for Unscaled<T>
where
    Vec<T>: Pt,
{
    fn get(&mut self, x: &Vec<T>) -> f64 {
        let y: Vec<T> = x.iter().map(|v| *v / self.k).collect();
        self.inner.get(&y)
    }
}

fn scale_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { custom: false, max_pop: 20, max_iters: 10, plain_intervals: true, empty: false, ..Default::default() };
    let sp = pso::gen_spec::<T>(s, &o);
    let e = s.r(1, 10) as i32 * if s.flag() { 1 } else { -1 };
    let k = T::of(2f64.powi(e));
    c.desc(|| format!("scaled by {:?}: {:?}", k, sp));
    let sc = |v: &Vec<(T, T)>| -> Vec<(T, T)> { v.iter().map(|i| (i.0 * k, i.1 * k)).collect() };
    let mut big = sp.clone();
    big.intervals = sc(&sp.intervals);
    if let VelInitS::Rand(v) = &sp.vels {
        big.vels = VelInitS::Rand(sc(v));
    }
    let scale_pv = |v: &Vec<PostVS<T>>| -> Vec<PostVS<T>> {
        v.iter()
            .map(|x| match x {
                PostVS::Dims(m) => PostVS::Dims(m.iter().map(|y| *y * k).collect()),
                PostVS::Abs(m) => PostVS::Abs(*m * k),
                x => x.clone(),
            })
            .collect()
    };
    big.postv = scale_pv(&sp.postv);
    let a = pso::run(&sp)?;
    let rec = new_rec::<Vec<T>>();
    let r2 = rec.clone();
    no_panic(move || {
        big.stream.install();
        let mut b = pso::PBuilder::new(r2, &big.intervals);
        let goal = Unscaled { inner: b.goal(&big), k };
        let mut o = b.build_with(&big, Box::new(goal));
        for op in &big.script {
            b.exec(&mut o, op);
        }
    })
    .map_err(|m| format!("rescaled run failed: {}", m))?;
    let b = rec.borrow();
    // arithmetic near the ends of the number range does not scale
    let mut ok = true;
    let mut look = |v: &Vec<T>| {
        for x in v {
            let m = x.abs().f();
            if m != 0.0 && !(m > T::TINY * 1e18 && m < T::max_value().f() * 1e-18) {
                ok = false;
            }
        }
    };
    for e in a.evs.iter().chain(b.evs.iter()) {
        match e {
            Ev::Goal(p, _) => look(p),
            Ev::Vel { out, .. } => look(out),
            Ev::PostV { out, .. } => look(out),
            _ => {}
        }
    }
    if !ok {
        c.label("left out: magnitudes near the ends of the number range");
        return Ok(());
    }
    let (ga, gb) = (goals(&a.evs), goals(&b.evs));
    for (i, (x, y)) in ga.iter().zip(&gb).enumerate() {
        ensure!(
            same_pv(x, y),
            "evaluation {} is at {} originally but at {} (scaled back) in the rescaled problem",
            i,
            short(&x.0),
            short(&y.0)
        );
    }
    ensure!(ga.len() == gb.len(), "{} evaluations originally, {} in the rescaled problem", ga.len(), gb.len());
    for (x, y) in rets(&a.evs).iter().zip(&rets(&b.evs)) {
        let y = y.as_ref().map(|(p, v)| (p.iter().map(|z| *z / k).collect::<Vec<T>>(), *v));
        ensure!(same_opt(x, &y), "result {} becomes {} (scaled back) in the rescaled problem", short(x), short(&y));
    }
    if ga.len() > 10 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c12_scale(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        scale_t::<f32>(s, c)
    } else {
        scale_t::<f64>(s, c)
    }
}

/// A velocity rule that is shown copies of the particles.
struct OnCopies<T: Fl> {
    inner: Box<dyn VelocityCalculator<T>>,
    times: u64,
}

impl<T: Fl> VelocityCalculator<T> for OnCopies<T> {
    fn calc_new_velocity(&mut self, swarm: &Swarm<T>, particle: &Particle<T>) -> Vec<T> {
        let mut p = None;
        for _ in 0..self.times {
            p = Some(p.as_ref().unwrap_or(particle).clone());
        }
        self.inner.calc_new_velocity(swarm, p.as_ref().unwrap_or(particle))
    }
}

fn c06_copies_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { max_pop: 20, max_iters: 12, lib: true, setters: true, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    sp.vel = pso::gen_rule(s, 12);
    let times = s.r(1, 3) as u64;
    c.desc(|| format!("{} copies: {:?}", times, sp));
    let a = pso::run(&sp)?;
    let rec = new_rec();
    let r2 = rec.clone();
    let sp2 = sp.clone();
    no_panic(move || {
        sp2.stream.install();
        let mut b = pso::PBuilder::new(r2, &sp2.intervals);
        b.rule = pso::lib_rule(&sp2.vel).map(|inner| Box::new(OnCopies { inner, times }) as Box<dyn VelocityCalculator<T>>);
        let mut o = b.build(&sp2);
        for op in &sp2.script {
            b.exec(&mut o, op);
        }
    })?;
    let evs = std::mem::take(&mut rec.borrow_mut().evs);
    let (da, db) = (digest(&a.evs, true), digest(&evs, true));
    diff(&da, &db).map_err(|e| format!("a velocity rule given clones of the particles computes something else: {}", e))?;
    let n = a.evs.iter().filter(|e| matches!(e, Ev::Vel { .. })).count() as u64;
    c.count("copies", n);
    if n > 20 {
        c.nontrivial();
    }
    Ok(())
}

/// Copies of agents stand for the agents themselves.
pub fn c06_copies(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c06_copies_t::<f32>(s, c)
    } else {
        c06_copies_t::<f64>(s, c)
    }
}

#[allow(dead_code)]
fn unused(_: CreatorS, _: CrossS, _: PairS, _: CoordS, _: VelS<f64>) {
    let _ = compare_runs::<Tok>;
}
