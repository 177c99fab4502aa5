//! Malformed data and failing components: C32, C33.

use super::meta::{bound_growth, diff, digest};
use super::ops::with_population;
use super::run::short;
use crate::common::*;
use crate::engine::{no_panic, Ctx, Src, R};
use crate::ga::{self, Builder, GaOpts, GaPt, GaSpec, Op, StopS};
use crate::gen::{self, Fl};
use crate::pso::{self, PBuilder, POp, PsoOpts};
use optlib::genetic::{cross, pre_birth, selection};
use optlib::genetic::{Cross, GeneticOptimizer, Pairing, Population, PreBirth, Selection};
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::ClassicVelocityCalculator;
use optlib::particleswarm::{
    CoordinatesInitializer, ParticleSwarmOptimizer, PostMove, PostVelocityCalc, VelocityInitializer,
};
use optlib::tools::logging::{Logger, ResultOnlyLogger, TimeLogger, VerboseLogger};
use optlib::tools::statistics::{get_predicate_success_vec_solution, StatFunctionsSolution};
use optlib::tools::stopchecker::{CompositeAll, CompositeAny, MaxIterations, StopChecker};
use optlib::{AlgorithmState, GoalFromFunction, Optimizer};

type Solution<T> = (T, f64);

// ================================================================ C32

/// A length other than n.
fn other_len(s: &mut Src, n: usize) -> usize {
    match s.n(6) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        2 => 0,
        3 => n * 2,
        4 => 1,
        _ => n + s.r(1, 300),
    }
}

struct Fixed<T>(Vec<T>);
impl<T: Clone> CoordinatesInitializer<T> for Fixed<Vec<T>> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        self.0.clone()
    }
}
impl<T: Clone> VelocityInitializer<T> for Fixed<Vec<T>> {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        self.0.clone()
    }
}
impl<T> Pairing<Vec<T>> for Fixed<Vec<usize>> {
    fn get_pairs(&mut self, _: &Population<Vec<T>>) -> Vec<Vec<usize>> {
        self.0.clone()
    }
}
struct Start<T>(Vec<Vec<T>>);
impl<T: Clone> optlib::genetic::Creator<Vec<T>> for Start<T> {
    fn create(&mut self) -> Vec<Vec<T>> {
        self.0.clone()
    }
}
struct TakeFirst;
impl<T: Clone> Cross<Vec<T>> for TakeFirst {
    fn cross(&mut self, p: &[&Vec<T>]) -> Vec<Vec<T>> {
        p.iter().map(|x| (*x).clone()).collect()
    }
}
struct Keep;
impl<T: Clone> optlib::genetic::Mutation<T> for Keep {
    fn mutation(&mut self, p: &T) -> T {
        p.clone()
    }
}

fn c32_t<T: Fl + std::fmt::Display>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
    cross::CrossBitwise: Cross<T>,
    cross::FloatCrossExp: Cross<T>,
{
    let dim = if s.n(50) == 49 { s.r(13, 300) } else { s.size(0, 12) };
    let fits = s.chance(25);
    let len = if fits { dim } else { other_len(s, dim) };
    let odd = len != dim;
    let iv: Vec<(T, T)> = (0..dim).map(|_| gen::plain_interval(s)).collect();
    let point = |s: &mut Src, n: usize| -> Vec<T> { (0..n).map(|i| iv.get(i).map_or_else(|| gen::moderate(s), |v| v.0)).collect() };
    // one malformed item at any place of a list of proper ones
    let list = |s: &mut Src, least: usize| -> Vec<Vec<T>> {
        let n = s.few(least.max(1), 6, 60);
        let at = s.r(0, n - 1);
        (0..n).map(|i| point(s, if i == at { len } else { dim })).collect()
    };
    let (what, refused, wrong): (String, bool, bool) = match s.n(12) {
        0 => {
            let v = list(s, 1);
            let mut res = Ok(());
            let mut f = pre_birth::vec_float::CheckChromoInterval::new(iv.clone());
            let w = format!("pre-birth filter of {} intervals, children {}", dim, short(&v));
            {
                let res = &mut res;
                with_population(vec![], vec![], move |p: &mut Population<Vec<T>>| {
                    *res = no_panic(|| f.pre_birth(p, &mut v.clone()));
                });
            }
            (w, res.is_err(), odd)
        }
        1 => {
            let v = list(s, 1);
            let w = format!("interval selection of {} intervals, individuals {}", dim, short(&v));
            let mut res = Ok(());
            let mut f = selection::vec_float::CheckChromoInterval::new(iv.clone());
            {
                let res = &mut res;
                let n = v.len();
                with_population(v, vec![1.0; n], move |p: &mut Population<Vec<T>>| {
                    *res = no_panic(|| f.kill(p));
                });
            }
            (w, res.is_err(), odd)
        }
        2 => {
            let mut x = point(s, len);
            let w = format!("move to the boundary of {} intervals, position {}", dim, short(&x));
            (w, no_panic(|| MoveToBoundary::new(iv.clone()).post_move(&mut x)).is_err(), odd)
        }
        3 => {
            let p = *s.pick(&[0.0f32, 0.3, 1.0, 1.0]);
            let mut x = point(s, len);
            let w = format!("teleport with probability {} in {} intervals, position {}", p, dim, short(&x));
            gen_stream(s).install();
            (w, no_panic(|| RandomTeleport::new(iv.clone(), p).post_move(&mut x)).is_err(), odd)
        }
        4 => {
            let x = point(s, len);
            let max: Vec<T> = (0..dim).map(|_| gen::moderate::<T>(s).abs()).collect();
            let w = format!("{} velocity limits, velocity {}", dim, short(&x));
            (w, no_panic(|| MaxVelocityDimensions::new(max.clone()).correct_velocity(x.clone())).is_err(), odd)
        }
        5 => {
            // numbers of initial positions and velocities
            let d = s.size(1, 3);
            let n = s.few(1, 6, 40);
            let m = if fits { n } else { other_len(s, n) };
            let w = format!("{} initial positions, {} initial velocities", n, m);
            let r = no_panic(|| {
                ParticleSwarmOptimizer::new(
                    Box::new(GoalFromFunction::new(|x: &Vec<T>| x[0].f())),
                    Box::new(MaxIterations::new(1)),
                    Box::new(Fixed(vec![vec![T::one(); d]; n])),
                    Box::new(Fixed(vec![vec![T::zero(); d]; m])),
                    Box::new(ClassicVelocityCalculator::new(T::one(), T::one())),
                )
                .find_min();
            });
            (w, r.is_err(), n != m)
        }
        6 => {
            // number of parents of one gene
            let n = if fits { 2 } else { *s.pick(&[0usize, 1, 3, 4, 2]) };
            let xs: Vec<T> = (0..n).map(|_| gen::moderate::<T>(s).abs() + T::one()).collect();
            let refs: Vec<&T> = xs.iter().collect();
            gen_stream(s).install();
            let (name, r, wrong) = match s.n(4) {
                0 => ("mean", no_panic(|| cross::CrossMean::new().cross(&refs)), n < 2),
                1 => ("geometric mean", no_panic(|| cross::FloatCrossGeometricMean::new().cross(&refs)), n < 2),
                2 => ("bitwise", no_panic(|| cross::CrossBitwise::new().cross(&refs)), n != 2),
                _ => ("float", no_panic(|| cross::FloatCrossExp::new().cross(&refs)), n != 2),
            };
            (format!("{} crossing of {}", name, short(&xs)), r.is_err(), wrong)
        }
        7 => {
            // number of parents of a vector
            let n = if fits { 2 } else { *s.pick(&[0usize, 1, 3, 4, 7, 2]) };
            let xs: Vec<Vec<T>> = (0..n).map(|_| point(s, dim)).collect();
            let refs: Vec<&Vec<T>> = xs.iter().collect();
            let mut x = cross::VecCrossAllGenes::new(Box::new(cross::CrossMean::new()));
            let r = no_panic(|| x.cross(&refs));
            (format!("vector crossing of {} parents", n), r.is_err(), n != 2)
        }
        8 => {
            let n = if fits { s.r(1, 4) } else { s.r(0, 1) };
            let make = || -> Vec<Box<dyn StopChecker<Vec<T>>>> {
                (0..n).map(|_| Box::new(MaxIterations::new(1)) as Box<dyn StopChecker<Vec<T>>>).collect()
            };
            let any = s.flag();
            let r = if any {
                no_panic(|| drop(CompositeAny::new(make())))
            } else {
                no_panic(|| drop(CompositeAll::new(make())))
            };
            (format!("{} of {} criteria", if any { "any" } else { "all" }, n), r.is_err(), n == 0)
        }
        9 => {
            let e = point(s, dim);
            let d: Vec<T> = (0..len).map(|_| T::one()).collect();
            let w = format!("predicate with {} coordinates and {} tolerances", dim, len);
            let sol: Solution<Vec<T>> = (e.clone(), 0.0);
            (w, no_panic(|| get_predicate_success_vec_solution(e, d)(&sol)).is_err(), odd)
        }
        10 => {
            let v = list(s, 2);
            let w = format!("average of the solutions {}", short(&v));
            let n = v.len();
            let mut runs: Vec<Option<Solution<Vec<T>>>> = vec![];
            for x in v {
                if s.n(5) == 4 {
                    runs.push(None);
                }
                runs.push(Some((x, 1.0)));
            }
            (w, no_panic(|| runs.get_average()).is_err(), odd && n > 1)
        }
        _ => {
            // a family naming somebody who does not exist
            let n = s.few(1, 6, 300);
            let mut fams: Vec<Vec<usize>> =
                (0..s.r(1, 4)).map(|_| (0..s.r(1, 3)).map(|_| s.r(0, n - 1)).collect()).collect();
            let f = s.r(0, fams.len() - 1);
            let k = s.r(0, fams[f].len() - 1);
            if !fits {
                fams[f][k] = *s.pick(&[n, n + 1, 2 * n, usize::MAX, n + 255, n + 256]);
            }
            let w = format!("families {:?} in a population of {}", fams, n);
            let r = no_panic(|| {
                GeneticOptimizer::new(
                    Box::new(GoalFromFunction::new(|_: &Vec<T>| 1.0)),
                    Box::new(MaxIterations::new(1)),
                    Box::new(Start(vec![vec![T::one()]; n])),
                    Box::new(Fixed(fams)),
                    Box::new(TakeFirst),
                    Box::new(Keep),
                    vec![],
                    vec![],
                )
                .find_min();
            });
            (w, r.is_err(), !fits)
        }
    };
    c.desc(|| what.clone());
    ensure!(refused == wrong, "{}: {}", what, if refused { "refused although it fits" } else { "accepted although it does not fit" });
    c.label(if wrong { "refused" } else { "accepted" });
    if wrong {
        c.nontrivial();
    }
    Ok(())
}

pub fn c32(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c32_t::<f32>(s, c)
    } else {
        c32_t::<f64>(s, c)
    }
}

// ================================================================ C33

fn component<P>(e: &Ev<P>) -> bool {
    !matches!(e, Ev::Call(_) | Ev::Ret(_) | Ev::Set(..))
}

fn tree(s: &mut Src) -> StopS {
    StopS::Tree(StopTree::Any(vec![StopTree::Max(s.r(1, 25)), gen_stop_tree(s, 2, 12)]))
}

/// Where to fail: a component call of the reference run.
fn site<P>(s: &mut Src, evs: &[Ev<P>], ok: impl Fn(&Ev<P>) -> bool) -> Option<(u64, usize)> {
    let all: Vec<usize> = (0..evs.len()).filter(|i| component(&evs[*i])).collect();
    let fit: Vec<usize> = (0..all.len()).filter(|k| ok(&evs[all[*k]])).collect();
    if fit.is_empty() {
        return None;
    }
    // every kind of component is as likely to fail
    let kinds: Vec<std::mem::Discriminant<Ev<P>>> = fit.iter().map(|k| std::mem::discriminant(&evs[all[*k]])).collect();
    let mut distinct: Vec<usize> = vec![];
    for i in 0..kinds.len() {
        if !distinct.iter().any(|d| kinds[*d] == kinds[i]) {
            distinct.push(i);
        }
    }
    let kind = kinds[distinct[s.n(distinct.len() as u64) as usize]];
    let same: Vec<usize> = (0..fit.len()).filter(|i| kinds[*i] == kind).collect();
    let k = fit[same[s.n(same.len() as u64) as usize]];
    Some((k as u64, all[k]))
}

fn failed_as_planned<P: Pt>(res: &Result<(), String>, evs: &[Ev<P>], reference: &[Ev<P>], at: usize) -> R {
    match res {
        Ok(()) => return Err("a component failed but the call returned".into()),
        Err(m) => ensure!(m.contains(FAULT), "a component failed with \"{}\" but the call with \"{}\"", FAULT, m),
    }
    ensure!(
        evs.len() <= at + 1,
        "{} more component calls after the failure of a component",
        evs.len() - at - 1
    );
    diff(&digest(evs, true), &digest(&reference[..at + 1], true))
        .map_err(|e| format!("before the failure of a component: {}", e))
}

macro_rules! fault_body {
    ($s:ident, $c:ident, $sp:ident, $run:path, $builder:ident, $op:ident) => {{
        let reference = $run(&$sp)?.evs;
        let (k, at) = match site($s, &reference, |_| true) {
            Some(x) => x,
            None => return Ok(()),
        };
        let second = if $s.n(3) == 2 { Some($s.n(60)) } else { None };
        let between = gen_stream($s);
        let again = gen_stream($s);
        let find = $op::Find { iters: $s.size(1, 15) as u64 };
        $c.desc(|| {
            format!("failure at component call {} ({}), second failure {:?}, then {:?} with {:?}: {:?}", k, short(&reference[at]), second, find, again, $sp)
        });
        $c.label(kind_name(&reference[at]));
        let rec = new_rec();
        let mut r: R = Ok(());
        {
            let r = &mut r;
            let (sp, rec) = (&$sp, rec.clone());
            let (again, find) = (again.clone(), find.clone());
            let reference = &reference;
            no_panic(move || {
                *r = (|| {
                    sp.stream.install();
                    let mut b = $builder::new(rec.clone(), &sp.intervals);
                    let mut o = b.build(sp);
                    rec.borrow_mut().fault = Some(k);
                    let mut res = Ok(());
                    for op in &sp.script {
                        res = no_panic(|| b.exec(&mut o, op));
                        if res.is_err() {
                            break;
                        }
                    }
                    failed_as_planned(&res, &rec.borrow().evs, reference, at)?;
                    if let Some(n) = second {
                        between.install();
                        rec.borrow_mut().fault = Some(n);
                        let res = no_panic(|| b.exec(&mut o, &find));
                        let planned = rec.borrow_mut().fault.take().is_none();
                        if planned {
                            ensure!(
                                res.is_err() && res.as_ref().unwrap_err().contains(FAULT),
                                "a component failed again but the call ended with {:?}",
                                res
                            );
                        } else {
                            res.map_err(|m| format!("run after a failure: {}", m))?;
                        }
                    }
                    rec.borrow_mut().evs.clear();
                    again.install();
                    b.exec(&mut o, &find);
                    Ok(())
                })();
            })
            .map_err(|m| format!("run after a failure: {}", m))?;
        }
        r?;
        let mut fresh = $sp.clone();
        fresh.script = vec![$op::Stream(again), find];
        let new = $run(&fresh)?;
        let start = new.evs.iter().position(|e| matches!(e, Ev::Call(_))).unwrap_or(0);
        let evs = std::mem::take(&mut rec.borrow_mut().evs);
        if goals(&evs).len() > 2 {
            $c.nontrivial();
        }
        if let Some(d) = diff_goals(&evs, &new.evs[start..]) {
            return Err(format!("a run after a failure and one of a newly built optimizer differ: {}", d));
        }
        diff(&digest(&evs, true), &digest(&new.evs[start..], true))
            .map_err(|e| format!("a run after a failure versus a newly built optimizer: {}", e))
    }};
}

fn kind_name<P>(e: &Ev<P>) -> &'static str {
    match e {
        Ev::Goal(..) => "goal",
        Ev::Log { .. } => "logger",
        Ev::Stop { .. } => "stop criterion",
        Ev::Create { .. } | Ev::Coords { .. } | Ev::Vels { .. } => "creation",
        Ev::Pair { .. } => "pairing",
        Ev::Cross { .. } => "crossing",
        Ev::Mut { .. } => "mutation",
        Ev::Pre { .. } => "pre-birth",
        Ev::Sel { .. } => "selection",
        Ev::Vel { .. } => "velocity rule",
        Ev::PostV { .. } => "velocity correction",
        Ev::Move { .. } => "position correction",
        _ => "other",
    }
}

fn ga_opts() -> GaOpts {
    GaOpts { custom: false, custom_sel: false, stateful: false, max_pop: 20, max_iters: 8, ..Default::default() }
}

fn pso_opts() -> PsoOpts {
    PsoOpts { custom: false, stateful: false, empty: false, max_pop: 12, max_iters: 10, ..Default::default() }
}

fn c33_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx) -> R {
    let mut sp: GaSpec<P> = ga::gen_spec::<P>(s, &ga_opts());
    if s.flag() {
        sp.stop = tree(s);
    }
    bound_growth(s, &mut sp);
    fault_body!(s, c, sp, ga::run, Builder, Op)
}

pub fn c33_ga(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c33_ga_t::<Vec<f32>>(s, c)
    } else {
        c33_ga_t::<Vec<f64>>(s, c)
    }
}

fn c33_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let mut sp = pso::gen_spec::<T>(s, &pso_opts());
    if s.flag() {
        sp.stop = tree(s);
    }
    fault_body!(s, c, sp, pso::run, PBuilder, POp)
}

pub fn c33_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c33_pso_t::<f32>(s, c)
    } else {
        c33_pso_t::<f64>(s, c)
    }
}

// A failing observer loses nothing of the search.

macro_rules! resume_body {
    ($s:ident, $c:ident, $sp:ident, $run:path, $builder:ident, $op:ident) => {{
        $sp.stop = StopS::Plan;
        $sp.plan_evals = 1_000_000;
        let n = $s.size(1, 12) as u64;
        $sp.script = vec![$op::Find { iters: n }];
        let reference = $run(&$sp)?.evs;
        let (k, at) = match site($s, &reference, |e| matches!(e, Ev::Log { .. } | Ev::Stop { .. })) {
            Some(x) => x,
            None => return Ok(()),
        };
        let done = match &reference[at] {
            Ev::Log { st, .. } | Ev::Stop { st, .. } => st.iter as u64,
            _ => unreachable!(),
        };
        $c.desc(|| format!("failure at component call {} ({}), then {} more iterations: {:?}", k, short(&reference[at]), n - done, $sp));
        let rec = new_rec();
        let mut r: R = Ok(());
        {
            let r = &mut r;
            let (sp, rec) = (&$sp, rec.clone());
            let reference = &reference;
            no_panic(move || {
                *r = (|| {
                    sp.stream.install();
                    let mut b = $builder::new(rec.clone(), &sp.intervals);
                    let mut o = b.build(sp);
                    rec.borrow_mut().fault = Some(k);
                    let res = no_panic(|| b.exec(&mut o, &sp.script[0]));
                    failed_as_planned(&res, &rec.borrow().evs, reference, at)?;
                    b.exec(&mut o, &$op::Next { iters: n - done });
                    Ok(())
                })();
            })
            .map_err(|m| format!("resumption after a failure of an observer: {}", m))?;
        }
        r?;
        let evs = std::mem::take(&mut rec.borrow_mut().evs);
        if goals(&evs).len() > 2 && done > 0 && done < n {
            $c.nontrivial();
        }
        if let Some(d) = diff_goals(&evs, &reference) {
            return Err(format!("resumed after a failure of an observer: {}", d));
        }
        let (a, b) = (rets(&evs), rets(&reference));
        ensure!(
            a.len() == 1 && b.len() == 1 && same_opt(&a[0], &b[0]),
            "resumed after a failure of an observer: result {} instead of {}",
            short(&a),
            short(&b)
        );
        let last = |e: &[Ev<_>]| states(e).last().map(|x| x.iter);
        ensure!(last(&evs) == last(&reference), "resumed after a failure of an observer: {:?} iterations instead of {:?}", last(&evs), last(&reference));
        Ok(())
    }};
}

fn c33_resume_ga<P: GaPt>(s: &mut Src, c: &mut Ctx) -> R {
    let mut sp: GaSpec<P> = ga::gen_spec::<P>(s, &ga_opts());
    bound_growth(s, &mut sp);
    resume_body!(s, c, sp, ga::run, Builder, Op)
}

fn c33_resume_pso<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let mut sp = pso::gen_spec::<T>(s, &pso_opts());
    resume_body!(s, c, sp, pso::run, PBuilder, POp)
}

pub fn c33_resume(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(4) {
        0 => c33_resume_ga::<Vec<f32>>(s, c),
        1 => c33_resume_ga::<Vec<f64>>(s, c),
        2 => c33_resume_pso::<f32>(s, c),
        _ => c33_resume_pso::<f64>(s, c),
    }
}

// A failing writer is not ignored.

/// Takes `left` bytes, at most `most` at once, then fails.
struct Broken {
    got: Vec<u8>,
    left: usize,
    most: usize,
}

impl std::io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.most).min(self.left);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, FAULT));
        }
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Shown {
    iter: usize,
    best: Option<(Vec<f64>, f64)>,
}
impl AlgorithmState<Vec<f64>> for Shown {
    fn get_best_solution(&self) -> Option<(Vec<f64>, f64)> {
        self.best.clone()
    }
    fn get_iteration(&self) -> usize {
        self.iter
    }
}

pub fn c33_writer(s: &mut Src, c: &mut Ctx) -> R {
    let which = s.n(3);
    let prec = s.r(0, 12);
    let n = s.size(1, 6);
    let states: Vec<Shown> = (0..n)
        .map(|iter| Shown {
            iter,
            best: if s.n(6) == 5 { None } else { Some(((0..s.r(0, 5)).map(|_| gen::any(s)).collect(), gen::any(s))) },
        })
        .collect();
    let script: Vec<u64> = (0..s.r(1, 8)).map(|_| s.n(2)).collect();
    let drive = |l: &mut dyn Logger<Vec<f64>>| {
        l.start(&states[0]);
        l.resume(&states[0]);
        for (i, x) in states.iter().enumerate() {
            l.next_iteration(x);
            if script.get(i) == Some(&1) {
                l.finish(x);
                l.resume(x);
            }
        }
        l.finish(&states[n - 1]);
    };
    let logged = |left: usize, most: usize| -> (Result<(), String>, Vec<u8>) {
        let mut w = Broken { got: vec![], left, most };
        let r = no_panic(|| match which {
            0 => drive(&mut VerboseLogger::new(&mut w, prec)),
            1 => drive(&mut ResultOnlyLogger::new(&mut w, prec)),
            _ => drive(&mut TimeLogger::new(&mut w)),
        });
        (r, w.got)
    };
    let (r, all) = logged(usize::MAX, usize::MAX);
    r.map_err(|m| format!("text logger {} failed on a sound writer: {}", which, m))?;
    if all.is_empty() {
        return Ok(());
    }
    // elapsed times may have fewer digits the second time
    let sure = match which {
        2 => all.iter().filter(|b| **b == b'\n').count() * "Time elapsed: 0 ms\n".len(),
        _ => all.len(),
    };
    let left = s.r(0, sure - 1);
    let most = *s.pick(&[usize::MAX, 1, 7]);
    c.desc(|| format!("text logger {} with {} decimals, writer fails after {} of {} bytes", which, prec, left, all.len()));
    let (r, got) = logged(left, most);
    ensure!(r.is_err(), "text logger {}: the writer failed after {} of {} bytes and nobody was told", which, left, all.len());
    // elapsed milliseconds may differ between the two
    ensure!(which == 2 || all.starts_with(&got), "text logger {}: wrote {:?} before the failure", which, String::from_utf8_lossy(&got));
    c.nontrivial();
    Ok(())
}
