//! Stop criteria, statistics, text loggers, test functions: C08, C24, C25, C27, C28.

use crate::common::*;
use crate::engine::{no_panic, Ctx, Src, R};
use crate::ga::{self, Builder, GaOpts, GaSpec, PairS, SelS, StopS};
use crate::gen::{self, Fl};
use crate::props::run::short;
use crate::pso::{self, POp, PsoOpts, PsoSpec};
use optlib::tools::logging::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;
use std::time::{Duration, Instant};

type Solution<P> = (P, f64);

/// A state made up by the harness.
#[derive(Clone, Debug)]
pub struct Syn<P> {
    iter: usize,
    best: Option<(P, f64)>,
}

impl<P: Clone> AlgorithmState<P> for Syn<P> {
    fn get_best_solution(&self) -> Option<(P, f64)> {
        self.best.clone()
    }
    fn get_iteration(&self) -> usize {
        self.iter
    }
}

// ================================================================ C08

fn has_nochange(t: &StopTree) -> bool {
    match t {
        StopTree::NoChange(..) => true,
        StopTree::Any(v) | StopTree::All(v) => v.iter().any(has_nochange),
        _ => false,
    }
}

fn goal_walk(s: &mut Src, hostile: bool, most: usize) -> Vec<f64> {
    let n = if most > 60 { s.r(1, most) } else { s.size(1, most) };
    let style = s.n(5);
    let mut v = 10.0;
    (0..n)
        .map(|_| {
            match style {
                // plateaus
                0 => {
                    if s.n(4) == 0 {
                        v -= *s.pick(&[0.25, 0.5, 1.0, 3.0, 1e-10])
                    }
                }
                // small steps that add up
                1 => v -= *s.pick(&[0.1, 0.25, 0.5, 0.0, 1e-9]),
                2 => v = s.n(6) as f64,
                3 => v = if hostile { gen::any(s) } else { gen::finite(s) },
                _ => v += *s.pick(&[-1.0, 1.0, 0.5, -0.5, 0.0]),
            }
            v
        })
        .collect()
}

/// The same criterion with every iteration limit put off.
fn late_tree(t: StopTree, by: usize) -> StopTree {
    match t {
        StopTree::Max(n) => StopTree::Max(n + by),
        StopTree::Any(v) => StopTree::Any(v.into_iter().map(|x| late_tree(x, by)).collect()),
        StopTree::All(v) => StopTree::All(v.into_iter().map(|x| late_tree(x, by)).collect()),
        x => x,
    }
}

pub fn c08_history(s: &mut Src, c: &mut Ctx) -> R {
    let depth = s.few(0, 3, 6);
    // rarely runs of thousands of iterations, or criteria that join at a high iteration number
    let (most, base) = match s.n(400) {
        399 => (2_500, 0),
        391..=398 => (60, *s.pick(&[100usize, 255, 1_000, 65_530, 1_000_000, 4_294_967_290, 1 << 40])),
        _ => (60, 0),
    };
    let tree = late_tree(gen_stop_tree(s, depth, if most > 60 { 2_000 } else { 70 }), base);
    let mut lib: Box<dyn StopChecker<u32>> = lib_stop(&tree);
    let hostile = s.flag();
    let mut polls = 0;
    let mut answers = [0u64; 2];
    for run in 0..s.few(1, 4, 20) {
        let mut model = StopModel::new(&tree);
        let walk = goal_walk(s, hostile, most);
        let base = if run == 0 { base } else { 0 };
        let late = match s.n(5) {
            0 => 1,
            1 => s.r(1, 5),
            2 => usize::MAX,
            _ => 0,
        };
        // after a replacement the criterion may join a paused run
        let from = if run == 0 && s.chance(20) { s.n(walk.len() as u64) as usize } else { 0 };
        for (k, g) in walk.iter().enumerate().skip(from) {
            let i = base + k;
            // a huge best goal cannot be told from the criterion's idea of "no goal yet"
            if has_nochange(&tree) && g.is_finite() && g.abs() > 1e300 {
                break;
            }
            let st = Syn { iter: i, best: if k < late { None } else { Some((7u32, *g)) } };
            // pauses: the same state is seen again when the run is resumed
            let again = if s.n(6) == 0 { s.r(1, 2) } else { 0 };
            for _ in 0..1 + again {
                let want = model.see(i, st.best.map(|b| b.1));
                let got = lib.can_stop(&st);
                c.desc(|| format!("{:?} -> {}", st, got));
                polls += 1;
                answers[got as usize] += 1;
                ensure!(
                    got == want,
                    "run {}: {:?} answers {} at iteration {} with best {:?}, should answer {}; bests of the run: {:?}",
                    run,
                    tree,
                    got,
                    i,
                    st.best,
                    want,
                    &walk[..=k]
                );
            }
        }
    }
    c.desc(|| format!("criterion {:?}", tree));
    c.count("questions", polls);
    if answers[0] > 0 && answers[1] > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Tens of thousands of iterations: patience and limits beyond 65536.
pub fn c08_long(s: &mut Src, c: &mut Ctx) -> R {
    let far = s.n(3) == 0;
    let most = if far { s.r(66_000, 150_000) } else { s.r(300, 8_000) };
    let depth = s.r(0, 2);
    let tree = gen_stop_tree(s, depth, most);
    let mut lib: Box<dyn StopChecker<u32>> = lib_stop(&tree);
    let mut polls = 0;
    let mut answers = [0u64; 2];
    for _ in 0..s.r(1, 3) {
        let mut model = StopModel::new(&tree);
        let len = s.r(most / 2, most + most / 5) + 1;
        // a few changes, far apart
        let mut at: Vec<usize> = (0..s.n(4)).map(|_| s.n(len as u64) as usize).collect();
        at.sort();
        let mut v = 1000.0;
        let mut stopped = 0;
        for i in 0..len {
            if at.binary_search(&i).is_ok() {
                v -= *s.pick(&[1e-10, 0.25, 0.5, 1.0, 3.0, 200.0]);
            }
            let st = Syn { iter: i, best: if i == 0 { None } else { Some((7u32, v)) } };
            let want = model.see(i, st.best.map(|b| b.1));
            let got = lib.can_stop(&st);
            polls += 1;
            answers[got as usize] += 1;
            ensure!(got == want, "{:?} answers {} at iteration {} with best {}, should answer {}; changes at {:?}", tree, got, i, v, want, at);
            // a while of further questions
            stopped = if got { stopped + 1 } else { 0 };
            if stopped > 300 {
                break;
            }
        }
    }
    c.desc(|| format!("criterion {:?}", tree));
    c.label(if far { "beyond 65536" } else { "beyond 256" });
    c.count("questions", polls);
    if answers[0] > 0 && answers[1] > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Follows the stop criterion of a real run.
fn stop_trace<P: Pt>(evs: &[Ev<P>], tree: &StopTree, per_iter: &dyn Fn(&[Ev<P>]) -> Option<usize>) -> Result<u64, String> {
    let mut stops = 0;
    for run in runs(evs) {
        let mut m = StopModel::new(tree);
        let mut iter = 0usize;
        for call in calls(run) {
            let mut polls: Vec<(&St<P>, bool)> = vec![];
            for e in call {
                if let Ev::Stop { st, ans, .. } = e {
                    polls.push((st, *ans));
                }
            }
            ensure!(!polls.is_empty(), "the stop criterion was not asked");
            let mut done = 0usize;
            for (j, (st, ans)) in polls.iter().enumerate() {
                ensure!(st.iter == iter + done, "the criterion saw iteration {} after {} iterations", st.iter, iter + done);
                let best = st.best.as_ref().map(|b| b.1);
                if has_nochange(tree) && best.map_or(false, |g| g.is_finite() && g.abs() > 1e300) {
                    return Ok(stops);
                }
                let want = m.see(st.iter, best);
                ensure!(
                    *ans == want,
                    "{:?} answers {} at iteration {} with best {:?}, should answer {}",
                    tree,
                    ans,
                    st.iter,
                    best,
                    want
                );
                if *ans {
                    ensure!(j + 1 == polls.len(), "the criterion was asked again after it stopped the run");
                    stops += 1;
                } else {
                    done += 1;
                }
            }
            ensure!(polls.last().unwrap().1, "the call ended although the criterion did not stop it");
            if let Some(k) = per_iter(call) {
                ensure!(k == done, "{} iterations were performed, the criterion implies {}", k, done);
            }
            iter += done;
        }
    }
    Ok(stops)
}

fn bounded(s: &mut Src, max: usize) -> StopTree {
    let depth = s.r(0, 2);
    let t = gen_stop_tree(s, depth, max);
    let k = s.r(0, max);
    let mut v = vec![StopTree::Max(k), t];
    if s.flag() {
        v.swap(0, 1);
    }
    match s.n(4) {
        0 => StopTree::Max(k),
        _ => StopTree::Any(v),
    }
}

fn c08_ga_t(s: &mut Src, c: &mut Ctx) -> R {
    let o = GaOpts { max_pop: 14, max_iters: 6, ..Default::default() };
    let mut sp = ga::gen_spec::<Vec<f64>>(s, &o);
    let most = if s.n(60) == 59 { 120 } else { 12 };
    let tree = bounded(s, most);
    sp.stop = StopS::Tree(tree.clone());
    if matches!(sp.pairing, PairS::Random) {
        // the population would grow exponentially
        sp.sel.push(SelS::Limit(s.r(1, 40)));
    }
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let n = stop_trace(&t.evs, &tree, &|call| Some(call.iter().filter(|e| matches!(e, Ev::Pair { .. })).count()))?;
    if n > 1 {
        c.nontrivial();
    }
    Ok(())
}

fn c08_pso_t(s: &mut Src, c: &mut Ctx) -> R {
    let o = PsoOpts { max_pop: 10, max_iters: 6, empty: false, ..Default::default() };
    let mut sp = pso::gen_spec::<f64>(s, &o);
    let most = if s.n(60) == 59 { 120 } else { 12 };
    let tree = bounded(s, most);
    sp.stop = StopS::Tree(tree.clone());
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let n = stop_trace(&t.evs, &tree, &|call| {
        let mut first: Option<Key> = None;
        let mut n = 0;
        for e in call {
            if let Ev::Vel { sw, .. } = e {
                if first.is_none() || n % sw.members.len() == 0 {
                    first = Some(vec![]);
                }
                n += 1;
            }
        }
        let size = call.iter().find_map(|e| if let Ev::Vel { sw, .. } = e { Some(sw.members.len()) } else { None });
        size.map(|k| n / k).or(Some(0))
    })?;
    if n > 1 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c08_run(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c08_ga_t(s, c)
    } else {
        c08_pso_t(s, c)
    }
}

// ================================================================ C24

/// Sum with the error of the last bit (Neumaier).
fn exact_sum<I: Iterator<Item = f64>>(xs: I) -> f64 {
    let (mut s, mut e) = (0.0f64, 0.0f64);
    for x in xs {
        let t = s + x;
        if s.abs() >= x.abs() {
            e += (s - t) + x
        } else {
            e += (x - t) + s
        }
        s = t;
    }
    s + e
}

struct Ref {
    n: usize,
    mean: f64,
    std: f64,
    max: f64,
}

fn reference(xs: &[f64]) -> Ref {
    let n = xs.len();
    let mean = exact_sum(xs.iter().cloned()) / n as f64;
    let var = exact_sum(xs.iter().map(|x| (x - mean) * (x - mean))) / (n as f64 - 1.0);
    Ref { n, mean, std: var.sqrt(), max: xs.iter().fold(0.0, |a, x| a.max(x.abs())) }
}

impl Ref {
    fn check_mean(&self, got: f64, eps: f64, tiny: f64, what: &str) -> R {
        let tol = (self.n as f64 + 4.0) * eps * self.max + tiny * 4.0;
        ensure!((got - self.mean).abs() <= tol, "{} of {} values is {:e} instead of {:e}", what, self.n, got, self.mean);
        Ok(())
    }
    fn check_std(&self, got: f64, eps: f64, tiny: f64, what: &str) -> R {
        let d = (self.n as f64 + 4.0) * eps * self.max;
        let tol = 2.0 * d + (self.n as f64 + 8.0) * 2.0 * eps * self.std + tiny.sqrt() * (self.n as f64 + 4.0);
        ensure!((got - self.std).abs() <= tol, "{} of {} values is {:e} instead of {:e}", what, self.n, got, self.std);
        Ok(())
    }
}

/// One column of numbers of similar nature. A long one repeats a short one.
fn column<T: Fl>(s: &mut Src, n: usize) -> (Vec<T>, bool) {
    if n > 250 {
        let m = s.r(1, 60) as usize;
        let (v, ok) = column::<T>(s, m);
        return ((0..n).map(|i| v[i % m]).collect(), ok);
    }
    let top = T::max_value().f().sqrt() / 1e6;
    match s.n(8) {
        0 => ((0..n).map(|_| T::of(s.n(20) as f64)).collect(), true),
        1 => ((0..n).map(|_| T::of((gen::unit(s) - 0.5) * 100.0)).collect(), true),
        2 => {
            // large offset
            let off = *s.pick(&[1e3, -1e4, 1e6, 16777216.0, -1e9]);
            let w = *s.pick(&[1.0, 0.01, 10.0]);
            ((0..n).map(|_| T::of(off + gen::unit(s) * w)).collect(), true)
        }
        3 => {
            let v: T = gen::moderate(s);
            (vec![v; n], true)
        }
        4 => {
            let e = s.r(0, 60) as i32 - 30;
            ((0..n).map(|_| T::of((gen::unit(s) - 0.5) * 2f64.powi(e))).collect(), true)
        }
        5 => {
            // one far away
            let k = s.n(n.max(1) as u64) as usize;
            let big = *s.pick(&[1e4, -1e6, 1e8]);
            ((0..n).map(|i| if i == k { T::of(big) } else { T::of(gen::unit(s)) }).collect(), true)
        }
        6 => {
            let v: Vec<T> = (0..n).map(|_| gen::finite(s)).collect();
            let ok = v.iter().all(|x| x.f().abs() < top);
            (v, ok)
        }
        _ => {
            let v: Vec<T> = (0..n).map(|_| if s.chance(90) { gen::moderate(s) } else { gen::any(s) }).collect();
            let ok = v.iter().all(|x| x.f().abs() < top);
            (v, ok)
        }
    }
}

fn c24_table_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let n = match s.n(20_000) {
        0..=19_899 => s.size(0, 200),
        19_900..=19_998 => s.r(251, 1_500) as usize,
        _ => s.r(65_000, 67_000) as usize,
    };
    let dim = s.size(0, 8);
    let gaps = *s.pick(&[0u64, 0, 10, 50, 90, 100]);
    let some: Vec<bool> = if n > 250 {
        c.label("many runs");
        let few: Vec<bool> = (0..s.r(1, 40)).map(|_| !s.chance(gaps)).collect();
        (0..n).map(|i| few[i % few.len()]).collect()
    } else {
        (0..n).map(|_| !s.chance(gaps)).collect()
    };
    let k = some.iter().filter(|x| **x).count();
    let (goals, gok) = column::<f64>(s, k);
    let cols: Vec<(Vec<T>, bool)> = (0..dim).map(|_| column::<T>(s, k)).collect();
    let mut j = 0;
    let table: Vec<Option<Solution<Vec<T>>>> = some
        .iter()
        .map(|x| {
            if *x {
                j += 1;
                Some((cols.iter().map(|c| c.0[j - 1]).collect(), goals[j - 1]))
            } else {
                None
            }
        })
        .collect();
    c.desc(|| format!("results {:?}", table));
    let ag = table.get_average_goal();
    let dg = table.get_standard_deviation_goal();
    ensure!(ag.is_some() == (k >= 1), "average goal of {} solutions in {} runs is {:?}", k, n, ag);
    ensure!(dg.is_some() == (k >= 2), "goal deviation of {} solutions in {} runs is {:?}", k, n, dg);
    let a = table.get_average();
    let d = table.get_standard_deviation();
    ensure!(a.is_some() == (k >= 1), "average of {} solutions in {} runs is {:?}", k, n, a);
    ensure!(d.is_some() == (k >= 2), "deviation of {} solutions in {} runs is {:?}", k, n, d);
    let gr = reference(&goals);
    if let (Some((p, g)), Some(g2)) = (&a, ag) {
        ensure!(p.len() == dim, "average of points with {} coordinates has {}", dim, p.len());
        if gok {
            gr.check_mean(g2, f64::EPS, f64::from_b(1), "average goal")?;
            gr.check_mean(*g, f64::EPS, f64::from_b(1), "goal of the average solution")?;
        }
        for i in 0..dim {
            if cols[i].1 {
                let v: Vec<f64> = cols[i].0.iter().map(|x| x.f()).collect();
                reference(&v).check_mean(p[i].f(), T::EPS, T::from_b(1).f(), &format!("average of coordinate {}", i))?;
            }
        }
    }
    if let (Some((p, g)), Some(g2)) = (&d, dg) {
        ensure!(p.len() == dim, "deviation of points with {} coordinates has {}", dim, p.len());
        if gok {
            gr.check_std(g2, f64::EPS, f64::from_b(1), "standard deviation of the goal")?;
            gr.check_std(*g, f64::EPS, f64::from_b(1), "goal deviation of the solutions")?;
        }
        for i in 0..dim {
            if cols[i].1 {
                let v: Vec<f64> = cols[i].0.iter().map(|x| x.f()).collect();
                reference(&v).check_std(p[i].f(), T::EPS, T::from_b(1).f(), &format!("standard deviation of coordinate {}", i))?;
            }
        }
        c.nontrivial();
    }
    // success rate with any predicate: called with what is in the table
    let salt = s.word();
    let pred = |x: &Solution<Vec<T>>| crate::engine::mix(x.1.to_bits() ^ salt) % 3 == 0;
    let want = table.iter().filter(|x| x.as_ref().map_or(false, |y| pred(y))).count();
    match table.get_success_rate(pred) {
        None => ensure!(n == 0, "success rate of {} runs is absent", n),
        Some(r) => {
            ensure!(n > 0, "success rate of no runs is {}", r);
            ensure!(
                (r - want as f64 / n as f64).abs() <= 1e-15,
                "success rate {} with {} successful of {} runs",
                r,
                want,
                n
            );
        }
    }
    Ok(())
}

pub fn c24_table(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c24_table_t::<f32>(s, c)
    } else {
        c24_table_t::<f64>(s, c)
    }
}

pub fn c24_convergence(s: &mut Src, c: &mut Ctx) -> R {
    let (n, len) = match s.n(2_000) {
        0..=1_997 => (s.size(0, 40), s.size(0, 60)),
        1_998 => (s.r(250, 600) as usize, s.size(0, 4)),
        _ => (s.size(0, 4), s.r(250, 2_000) as usize),
    };
    let unequal = s.flag();
    let gaps = *s.pick(&[0u64, 0, 10, 50, 90, 100]);
    let off = *s.pick(&[0.0, 0.0, 1e6, -1e12]);
    let hostile = s.n(4) == 0;
    let conv: Vec<Vec<Option<Solution<Vec<f32>>>>> = (0..n)
        .map(|_| {
            let l = if unequal { s.size(0, len) } else { len };
            (0..l)
                .map(|_| {
                    if s.chance(gaps) {
                        None
                    } else {
                        let g: f64 = if hostile { gen::any(s) } else { gen::moderate(s) };
                        Some((vec![s.n(5) as f32], off + g))
                    }
                })
                .collect()
        })
        .collect();
    c.desc(|| format!("convergence {:?}", conv));
    let min = conv.iter().map(|x| x.len()).min().unwrap_or(0);
    let got_min = conv.get_min_iterations();
    ensure!(got_min == min, "shortest run of lengths {:?} is {}", conv.iter().map(|x| x.len()).collect::<Vec<_>>(), got_min);
    let avg = conv.get_average_convergence();
    ensure!(avg.len() == min, "average convergence has {} entries, the shortest run {}", avg.len(), min);
    for i in 0..min {
        let xs: Vec<f64> = conv.iter().filter_map(|r| r[i].as_ref().map(|x| x.1)).collect();
        match avg[i] {
            None => ensure!(xs.is_empty(), "iteration {}: no average of {:?}", i, xs),
            Some(a) => {
                ensure!(!xs.is_empty(), "iteration {}: average {} without solutions", i, a);
                if xs.iter().all(|x| x.abs() < 1e300) {
                    reference(&xs).check_mean(a, f64::EPS, f64::from_b(1), &format!("average convergence at iteration {}", i))?;
                }
            }
        }
        if xs.len() > 1 {
            c.nontrivial();
        }
    }
    Ok(())
}

fn c24_predicates_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    // goal
    let e: f64 = gen::moderate(s);
    let d: f64 = match s.n(3) {
        0 => *s.pick(&[0.5, 1.0, 0.01, 1e-6]),
        1 => gen::unit(s) * 10.0,
        _ => gen::moderate::<f64>(s).abs(),
    };
    let p = get_predicate_success_goal::<Vec<T>>(e, d);
    for _ in 0..4 {
        let sign = if s.flag() { 1.0 } else { -1.0 };
        let g = match s.n(7) {
            0 => e,
            1 => e + sign * d * 0.999,
            2 => e + sign * d * 1.001,
            3 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
            4 => e + sign * gen::unit(s) * d * 3.0,
            5 => -e,
            _ => gen::finite(s),
        };
        let got = p(&(vec![T::nan()], g));
        let dist = (g - e).abs();
        let slack = 4.0 * f64::EPS * (g.abs() + e.abs());
        if g.is_nan() || dist > d + slack {
            ensure!(!got, "goal {} counts as within {} of {}", g, d, e);
            c.nontrivial();
        } else if dist < d - slack {
            ensure!(got, "goal {} does not count as within {} of {}", g, d, e);
        }
    }
    // solution
    let dim = s.size(0, 8);
    let exp: Vec<T> = (0..dim).map(|_| if s.flag() { T::of(s.n(40) as f64 / 4.0 - 5.0) } else { gen::moderate(s) }).collect();
    let del: Vec<T> = (0..dim).map(|_| *s.pick(&[T::zero(), T::of(0.5), T::of(0.25), T::one(), T::of(1e-3), T::of(8.0)])).collect();
    let p = get_predicate_success_vec_solution(exp.clone(), del.clone());
    for _ in 0..4 {
        let bad = if s.flag() && dim > 0 { Some(s.n(dim as u64) as usize) } else { None };
        let x: Vec<T> = (0..dim)
            .map(|i| {
                let sign = if s.flag() { T::one() } else { -T::one() };
                if bad == Some(i) {
                    match s.n(5) {
                        0 => exp[i] + sign * (del[i] + del[i] + T::one()),
                        1 => T::nan(),
                        2 => sign * T::infinity(),
                        3 => exp[i] + sign * (del[i] + T::of(0.001) * (T::one() + exp[i].abs())),
                        _ => gen::any(s),
                    }
                } else {
                    match s.n(3) {
                        0 => exp[i],
                        1 => exp[i] + sign * del[i],
                        _ => exp[i] + sign * del[i] * T::of(gen::unit(s)),
                    }
                }
            })
            .collect();
        let g: f64 = gen::any(s);
        let got = p(&(x.clone(), g));
        let mut sure_in = true;
        let mut sure_out = false;
        for i in 0..dim {
            let (a, b, d) = (x[i].f(), exp[i].f(), del[i].f());
            let dist = (a - b).abs();
            // distances that are exact in T decide the boundary, too
            let exact = x[i].is_finite() && (x[i] - exp[i]).f() == a - b;
            let slack = if exact { 0.0 } else { 4.0 * T::EPS * (a.abs() + b.abs()) };
            if x[i].is_nan() || dist > d + slack {
                sure_out = true;
            }
            if !(dist <= d - slack) {
                sure_in = false;
            }
        }
        if sure_out {
            ensure!(!got, "solution {:?} counts as within {:?} of {:?}", x, del, exp);
            c.nontrivial();
        }
        if sure_in {
            ensure!(got, "solution {:?} does not count as within {:?} of {:?}", x, del, exp);
        }
    }
    Ok(())
}

pub fn c24_predicates(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c24_predicates_t::<f32>(s, c)
    } else {
        c24_predicates_t::<f64>(s, c)
    }
}

// ================================================================ C25

type Entry<P> = (Option<Solution<P>>, Vec<Option<Solution<P>>>);

fn same_entries<P: Pt>(st: &Statistics<P>, want: &[Entry<P>], what: &str) -> R
where
    P: Clone,
{
    ensure!(
        st.get_run_count() == want.len() && st.get_results().len() == want.len() && st.get_convergence().len() == want.len(),
        "{}: {} runs counted, {} results and {} convergence records for {} runs",
        what,
        st.get_run_count(),
        st.get_results().len(),
        st.get_convergence().len(),
        want.len()
    );
    for (i, (r, cv)) in want.iter().enumerate() {
        ensure!(
            same_opt(&st.get_results()[i], r),
            "{}: result of run {} is {} instead of {}",
            what,
            i,
            short(&st.get_results()[i]),
            short(r)
        );
        let got = &st.get_convergence()[i];
        ensure!(got.len() == cv.len(), "{}: run {} has {} records for {} iterations", what, i, got.len(), cv.len());
        for (k, (a, b)) in got.iter().zip(cv).enumerate() {
            ensure!(same_opt(a, b), "{}: record {} of run {} is {} instead of {}", what, k, i, short(a), short(b));
        }
    }
    Ok(())
}

/// Expected entries from what a recording logger beside the statistics logger saw.
fn entries<P: Pt>(evs: &[Ev<P>]) -> Vec<Entry<P>> {
    let mut out: Vec<Entry<P>> = vec![];
    let mut attached = false;
    for e in evs {
        match e {
            Ev::Call("find_min") => attached = false,
            Ev::Log { kind, st, .. } => {
                if !attached {
                    out.push((None, vec![]));
                    attached = true;
                }
                match kind {
                    LogKind::Next => out.last_mut().unwrap().1.push(st.best.clone()),
                    LogKind::Finish => out.last_mut().unwrap().0 = st.best.clone(),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    out
}

fn c25_ga_t<P: ga::GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { max_pop: 14, max_iters: 8, lib, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    sp.loggers = 0;
    let late = if s.chance(25) { s.n(sp.script.len() as u64) as usize } else { 0 };
    c.desc(|| format!("statistics logger set before operation {} of {:?}", late, sp));
    let rec = new_rec();
    let mut stats: Statistics<P> = Statistics::new();
    no_panic(|| {
        sp.stream.install();
        let mut b = Builder::new(rec.clone(), &sp.intervals);
        let mut opt: optlib::genetic::GeneticOptimizer<'_, P> = b.build(&sp);
        let mut stats = Some(&mut stats);
        for (i, op) in sp.script.iter().enumerate() {
            if i == late {
                opt.set_loggers(vec![
                    Box::new(StatisticsLogger::new(stats.take().unwrap())),
                    Box::new(RecLogger { id: 9000, rec: rec.clone() }),
                ]);
            }
            b.exec(&mut opt, op);
        }
    })?;
    let r = rec.borrow();
    let want = entries(&r.evs);
    same_entries(&stats, &want, "genetic")?;
    if want.len() > 1 && want.iter().any(|e| e.1.len() > 1) {
        c.nontrivial();
    }
    Ok(())
}

fn c25_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { max_pop: 10, max_iters: 8, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    sp.loggers = 0;
    let late = if s.chance(25) { s.n(sp.script.len() as u64) as usize } else { 0 };
    c.desc(|| format!("statistics logger set before operation {} of {:?}", late, sp));
    let rec = new_rec();
    let mut stats: Statistics<Vec<T>> = Statistics::new();
    no_panic(|| {
        sp.stream.install();
        let mut b = pso::PBuilder::new(rec.clone(), &sp.intervals);
        let mut opt = pso_of(&mut b, &sp);
        let mut stats = Some(&mut stats);
        for (i, op) in sp.script.iter().enumerate() {
            if i == late {
                opt.set_loggers(vec![
                    Box::new(StatisticsLogger::new(stats.take().unwrap())),
                    Box::new(RecLogger { id: 9000, rec: rec.clone() }),
                ]);
            }
            b.exec(&mut opt, op);
        }
    })?;
    let r = rec.borrow();
    let want = entries(&r.evs);
    same_entries(&stats, &want, "swarm")?;
    if want.len() > 1 && want.iter().any(|e| e.1.len() > 1) {
        c.nontrivial();
    }
    Ok(())
}

/// Optimizer that may borrow its loggers.
fn pso_of<'a, T: Fl>(b: &mut pso::PBuilder<T>, sp: &PsoSpec<T>) -> optlib::particleswarm::ParticleSwarmOptimizer<'a, T>
where
    Vec<T>: Pt,
{
    let g = Box::new(b.goal(sp));
    b.build_with(sp, g)
}

pub fn c25_record(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(4) {
        0 => c25_ga_t::<Tok>(s, c, false),
        1 => c25_ga_t::<Vec<f64>>(s, c, true),
        2 => c25_pso_t::<f32>(s, c),
        _ => c25_pso_t::<f64>(s, c),
    }
}

/// One collected part: what happened, as calls of the logger.
#[derive(Clone, Debug)]
struct RunLog {
    /// iterations of each resumption
    legs: Vec<Vec<Option<(Vec<f64>, f64)>>>,
}

fn gen_best(s: &mut Src) -> Option<(Vec<f64>, f64)> {
    if s.n(5) == 0 {
        None
    } else {
        Some(((0..s.few(1, 3, 20)).map(|_| s.n(9) as f64).collect(), match s.n(12) {
            0 => f64::NAN,
            1 => gen::any(s),
            _ => s.n(1000) as f64,
        }))
    }
}

fn gen_part(s: &mut Src) -> Vec<RunLog> {
    (0..s.size(0, 6))
        .map(|_| RunLog { legs: (0..s.few(1, 3, 12)).map(|_| (0..s.size(0, 8)).map(|_| gen_best(s)).collect()).collect() })
        .collect()
}

fn entries_of(p: &[RunLog]) -> Vec<Entry<Vec<f64>>> {
    p.iter()
        .map(|r| {
            let all: Vec<_> = r.legs.iter().flatten().cloned().collect();
            (all.last().cloned().unwrap_or(None), all)
        })
        .collect()
}

/// Feeds a part to a statistics logger as an optimizer would.
fn collect(st: &mut Statistics<Vec<f64>>, p: &[RunLog], fresh: bool) {
    if fresh {
        for r in p {
            let mut l = StatisticsLogger::new(st);
            feed(&mut l, r);
        }
    } else {
        let mut l = StatisticsLogger::new(st);
        for r in p {
            feed(&mut l, r);
        }
    }
}

fn feed(l: &mut StatisticsLogger<Vec<f64>>, r: &RunLog) {
    let mut st: Syn<Vec<f64>> = Syn { iter: 0, best: None };
    l.start(&st);
    for leg in &r.legs {
        l.resume(&st);
        for b in leg {
            st.iter += 1;
            st.best = b.clone();
            l.next_iteration(&st);
        }
        l.finish(&st);
    }
}

pub fn c25_merge(s: &mut Src, c: &mut Ctx) -> R {
    let parts: Vec<Vec<RunLog>> = (0..s.few(1, 6, 30)).map(|_| gen_part(s)).collect();
    let threads = s.n(8) == 0;
    let fresh = s.flag();
    c.desc(|| format!("parts {:?} threads {}", parts, threads));
    let mut all: Vec<(Statistics<Vec<f64>>, Vec<Entry<Vec<f64>>>)> = if threads {
        let hs: Vec<_> = parts
            .iter()
            .cloned()
            .map(|p| {
                std::thread::spawn(move || {
                    let mut st = Statistics::new();
                    collect(&mut st, &p, fresh);
                    st
                })
            })
            .collect();
        hs.into_iter().zip(&parts).map(|(h, p)| (h.join().unwrap(), entries_of(p))).collect()
    } else {
        parts
            .iter()
            .map(|p| {
                let mut st = Statistics::new();
                collect(&mut st, p, fresh);
                (st, entries_of(p))
            })
            .collect()
    };
    // merge in any grouping, sometimes collecting more in between
    while all.len() > 1 {
        let i = s.n(all.len() as u64 - 1) as usize;
        let (b, wb) = all.remove(i + 1);
        let (a, wa) = &mut all[i];
        let before = b.clone();
        a.unite(b);
        wa.extend(wb.clone());
        same_entries(&before, &wb, "copy of a merged part")?;
        same_entries(a, wa, "merged statistics")?;
        if s.n(4) == 0 {
            let more = gen_part(s);
            collect(a, &more, fresh);
            wa.extend(entries_of(&more));
            same_entries(a, wa, "statistics continued after a merge")?;
        }
    }
    let (st, want) = &all[0];
    same_entries(st, want, "statistics")?;
    // the summaries of the merged statistics are those of one place
    let mut one: Statistics<Vec<f64>> = Statistics::new();
    let flat: Vec<RunLog> = parts.iter().flatten().cloned().collect();
    collect(&mut one, &flat, false);
    if one.get_run_count() == st.get_run_count() {
        let (a, b) = (st.get_results().get_average_goal(), one.get_results().get_average_goal());
        ensure!(
            a == b || (a.map_or(false, |x| x.is_nan()) && b.map_or(false, |x| x.is_nan())),
            "average goal of merged statistics is {:?}, collected in one place {:?}",
            a,
            b
        );
    }
    if parts.iter().filter(|p| !p.is_empty()).count() > 1 {
        c.nontrivial();
    }
    Ok(())
}

fn count_ops(s: &mut Src, d: &mut CallCountData, m: &mut Vec<usize>, n: usize) -> R {
    for _ in 0..n {
        match s.n(5) {
            0 => {
                d.next_run();
                m.push(0);
            }
            1 | 2 => {
                d.increment();
                if m.is_empty() {
                    m.push(0);
                }
                *m.last_mut().unwrap() += 1;
            }
            3 => {
                let k = if s.n(20) == 19 { s.r(0, 1 << 40) } else { s.size(0, 100000) };
                d.add(k);
                if m.is_empty() {
                    m.push(0);
                }
                *m.last_mut().unwrap() += k;
            }
            _ => {
                check_counts(d, m)?;
            }
        }
    }
    check_counts(d, m)
}

fn check_counts(d: &CallCountData, m: &[usize]) -> R {
    let got = d.get_call_count();
    ensure!(got == m, "call counts are {:?} instead of {:?}", got, m);
    let a = d.get_average_call_count();
    if m.is_empty() {
        ensure!(a.is_none(), "average call count of no runs is {:?}", a);
    } else {
        let want = m.iter().map(|x| *x as f64).sum::<f64>() / m.len() as f64;
        ensure!(
            a.map_or(false, |x| (x - want).abs() <= 1e-12 * want.abs()),
            "average of the call counts {:?} is {:?} instead of {}",
            m,
            a,
            want
        );
    }
    Ok(())
}

pub fn c25_counts(s: &mut Src, c: &mut Ctx) -> R {
    let k = s.few(1, 5, 40);
    let mut all: Vec<(CallCountData, Vec<usize>)> = vec![];
    for _ in 0..k {
        let (mut d, mut m) = (CallCountData::new(), vec![]);
        let n = s.size(0, 20);
        count_ops(s, &mut d, &mut m, n)?;
        all.push((d, m));
    }
    while all.len() > 1 {
        let i = s.n(all.len() as u64 - 1) as usize;
        let (b, mb) = all.remove(i + 1);
        let (a, ma) = &mut all[i];
        let copy = b.clone();
        a.unite(b);
        check_counts(&copy, &mb)?;
        ma.extend(mb);
        check_counts(a, ma)?;
        if s.n(3) == 0 {
            let n = s.r(1, 5);
            count_ops(s, a, ma, n)?;
        }
    }
    c.desc(|| format!("merged counts {:?}", all[0].1));
    check_counts(&all[0].0, &all[0].1)?;
    if all[0].1.len() > 2 {
        c.nontrivial();
    }
    Ok(())
}

// ================================================================ C27

/// Writer that keeps the bytes, optionally taking few at a time.
#[derive(Clone)]
struct Sink {
    buf: Rc<RefCell<Vec<u8>>>,
    most: usize,
}

impl Sink {
    fn new(most: usize) -> Self {
        Sink { buf: Rc::new(RefCell::new(vec![])), most }
    }
    fn text(&self) -> Result<String, String> {
        String::from_utf8(self.buf.borrow().clone()).map_err(|_| "output is not UTF-8".to_string())
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.most);
        self.buf.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// States that were announced, as the recording logger saw them.
struct Told<T> {
    next: Vec<St<Vec<T>>>,
    finish: Vec<St<Vec<T>>>,
}

fn told<T: Fl>(evs: &[Ev<Vec<T>>]) -> Told<T> {
    let mut t = Told { next: vec![], finish: vec![] };
    for e in evs {
        match e {
            Ev::Log { kind: LogKind::Next, st, .. } => t.next.push(st.clone()),
            Ev::Log { kind: LogKind::Finish, st, .. } => t.finish.push(st.clone()),
            _ => {}
        }
    }
    t
}

fn check_verbose<T: Fl>(text: &str, t: &Told<T>, prec: usize) -> Result<u64, String> {
    let want: Vec<Vec<String>> = t
        .next
        .iter()
        .filter_map(|st| {
            st.best.as_ref().map(|(p, g)| {
                let mut v = vec![format!("{}", st.iter)];
                v.extend(p.iter().map(|x| format!("{:.*}", prec, x)));
                v.push(format!("{:.*}", prec, g));
                v
            })
        })
        .collect();
    ensure!(text.is_empty() || text.ends_with('\n'), "verbose output does not end with a line end: {}", short(&text));
    let got: Vec<Vec<String>> = text.lines().map(|l| l.split_whitespace().map(|x| x.to_string()).collect()).collect();
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure!(a == b, "verbose line {} is {} instead of {}", i, short(a), short(b));
    }
    ensure!(got.len() == want.len(), "{} verbose lines for {} iterations with a solution", got.len(), want.len());
    Ok(got.len() as u64)
}

fn check_result<T: Fl>(text: &str, t: &Told<T>, prec: usize) -> R {
    let mut want: Vec<String> = vec![];
    for st in &t.finish {
        match &st.best {
            None => want.push("Solution not found".into()),
            Some((p, g)) => {
                want.push("Solution:".into());
                want.extend(p.iter().map(|x| format!("{:.*}", prec, x)));
                want.push(format!("Goal: {:.*}", prec, g));
            }
        }
        want.push(format!("Iterations count: {}", st.iter));
    }
    ensure!(text.is_empty() || text.ends_with('\n'), "result output does not end with a line end: {}", short(&text));
    let got: Vec<String> = text.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure!(a == b, "result line {} is {:?} instead of {:?}", i, a, b);
    }
    ensure!(got.len() == want.len(), "{} result lines instead of {}", got.len(), want.len());
    Ok(())
}

fn check_time_lines(text: &str, n: usize) -> Result<Vec<u64>, String> {
    let mut out = vec![];
    for l in text.lines() {
        let k = l
            .strip_prefix("Time elapsed: ")
            .and_then(|x| x.strip_suffix(" ms"))
            .and_then(|x| x.parse::<u64>().ok())
            .ok_or(format!("time line {:?}", l))?;
        out.push(k);
    }
    ensure!(out.len() == n, "{} time lines for {} finishes", out.len(), n);
    ensure!(text.is_empty() || text.ends_with('\n'), "time output does not end with a line end");
    Ok(out)
}

fn c27_direct_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let prec = s.wide(0, 20, 100);
    let prec2 = s.wide(0, 20, 100);
    let most = *s.pick(&[usize::MAX, 1, 7]);
    let dim = s.wide(0, 30, 300);
    let (v, r) = (Sink::new(most), Sink::new(most));
    let (mut vw, mut rw) = (v.clone(), r.clone());
    let mut t: Told<T> = Told { next: vec![], finish: vec![] };
    {
        let mut vl = VerboseLogger::new(&mut vw, prec);
        let mut rl = ResultOnlyLogger::new(&mut rw, prec2);
        for _ in 0..s.few(1, 3, 12) {
            let mut st: Syn<Vec<T>> = Syn { iter: 0, best: None };
            Logger::<Vec<T>>::start(&mut vl, &st);
            Logger::<Vec<T>>::start(&mut rl, &st);
            for _ in 0..s.few(1, 3, 12) {
                Logger::<Vec<T>>::resume(&mut vl, &st);
                Logger::<Vec<T>>::resume(&mut rl, &st);
                for _ in 0..s.size(0, 8) {
                    st.iter += if s.n(10) == 0 { 100_000_000 } else { 1 };
                    st.best = if s.n(6) == 0 {
                        None
                    } else {
                        Some(((0..dim).map(|_| if s.flag() { gen::moderate(s) } else { gen::any(s) }).collect(), gen::any(s)))
                    };
                    vl.next_iteration(&st);
                    rl.next_iteration(&st);
                    t.next.push(St { iter: st.iter, best: st.best.clone() });
                }
                vl.finish(&st);
                rl.finish(&st);
                t.finish.push(St { iter: st.iter, best: st.best.clone() });
            }
        }
    }
    c.desc(|| format!("decimals {} and {}: {:?}", prec, prec2, t.next));
    let n = check_verbose(&v.text()?, &t, prec)?;
    check_result(&r.text()?, &t, prec2)?;
    if n > 1 && dim > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c27_direct(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c27_direct_t::<f32>(s, c)
    } else {
        c27_direct_t::<f64>(s, c)
    }
}

fn c27_run_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt + ga::GaPt,
{
    let prec = s.r(0, 12);
    let order = s.n(6);
    let (mut vw, mut rw, mut tw) = (Sink::new(usize::MAX), Sink::new(usize::MAX), Sink::new(usize::MAX));
    let (v, r, tt) = (vw.clone(), rw.clone(), tw.clone());
    let rec = new_rec();
    let genetic = s.flag();
    {
        let mut ls: Vec<Box<dyn Logger<Vec<T>>>> = vec![
            Box::new(VerboseLogger::new(&mut vw, prec)),
            Box::new(ResultOnlyLogger::new(&mut rw, prec)),
            Box::new(TimeLogger::new(&mut tw)),
            Box::new(RecLogger { id: 9000, rec: rec.clone() }),
        ];
        ls.rotate_left(order as usize % 4);
        if genetic {
            let o = GaOpts { max_pop: 14, max_iters: 8, ..Default::default() };
            let mut sp: GaSpec<Vec<T>> = ga::gen_spec::<Vec<T>>(s, &o);
            sp.loggers = 0;
            c.desc(|| format!("text loggers with {} decimals on {:?}", prec, sp));
            no_panic(|| {
                sp.stream.install();
                let mut b = Builder::new(rec.clone(), &sp.intervals);
                let mut opt: optlib::genetic::GeneticOptimizer<'_, Vec<T>> = b.build(&sp);
                opt.set_loggers(ls);
                for op in &sp.script {
                    b.exec(&mut opt, op);
                }
            })?;
        } else {
            let o = PsoOpts { max_pop: 10, max_iters: 8, ..Default::default() };
            let mut sp = pso::gen_spec::<T>(s, &o);
            sp.loggers = 0;
            c.desc(|| format!("text loggers with {} decimals on {:?}", prec, sp));
            no_panic(|| {
                sp.stream.install();
                let mut b = pso::PBuilder::new(rec.clone(), &sp.intervals);
                let mut opt = pso_of(&mut b, &sp);
                opt.set_loggers(ls);
                for op in &sp.script {
                    b.exec(&mut opt, op);
                }
            })?;
        }
    }
    let t = told(&rec.borrow().evs);
    let n = check_verbose(&v.text()?, &t, prec)?;
    check_result(&r.text()?, &t, prec)?;
    check_time_lines(&tt.text()?, t.finish.len())?;
    if n > 1 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c27_run(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c27_run_t::<f32>(s, c)
    } else {
        c27_run_t::<f64>(s, c)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tick {
    Resume(Instant),
    Finish(Instant),
}

/// Notes when it was called.
struct Clock(Rc<RefCell<Vec<Tick>>>);

impl<T> Logger<T> for Clock {
    fn resume(&mut self, _: &dyn AlgorithmState<T>) {
        self.0.borrow_mut().push(Tick::Resume(Instant::now()));
    }
    fn finish(&mut self, _: &dyn AlgorithmState<T>) {
        self.0.borrow_mut().push(Tick::Finish(Instant::now()));
    }
}

struct Slow {
    us: u64,
    /// set the clock forward instead of waiting
    skip: bool,
}

impl Goal<Vec<f64>> for Slow {
    fn get(&mut self, x: &Vec<f64>) -> f64 {
        if self.skip {
            crate::clock::advance(self.us * 1000);
        } else {
            std::thread::sleep(Duration::from_micros(self.us));
        }
        x.iter().map(|v| v * v).sum()
    }
}

/// The time is bounded by measurements around and inside the logger.
pub fn c27_time(s: &mut Src, c: &mut Ctx) -> R {
    time_case(s, c, false)
}

/// Runs of seconds to months, on a clock that is set forward.
pub fn c27_clock(s: &mut Src, c: &mut Ctx) -> R {
    let r = time_case(s, c, true);
    crate::clock::reset();
    r
}

/// Microseconds of any magnitude up to about three months.
fn any_us(s: &mut Src) -> u64 {
    let k = s.n(44);
    s.n(1 << k)
}

fn time_case(s: &mut Src, c: &mut Ctx, skip: bool) -> R {
    use optlib::particleswarm::initializing::*;
    use optlib::particleswarm::velocitycalc::*;
    use optlib::tools::stopchecker::MaxIterations;
    let us = if skip { any_us(s) } else { *s.pick(&[0u64, 50, 400, 2000]) };
    let pop = s.r(1, 4);
    let mut tw = Sink::new(usize::MAX);
    let text = tw.clone();
    let outer = Rc::new(RefCell::new(vec![]));
    let inner = Rc::new(RefCell::new(vec![]));
    let calls: Vec<(bool, usize, u64)> = (0..s.r(1, 4)).map(|i| (i == 0 || s.flag(), s.r(0, 3), if skip { any_us(s) / 1000 } else { *s.pick(&[0u64, 1, 5, 12]) })).collect();
    c.desc(|| format!("calls {:?} goal takes {} us", calls, us));
    {
        let mut iv = vec![];
        iv.push((-1.0, 1.0));
        let mut o = optlib::particleswarm::ParticleSwarmOptimizer::new(
            Box::new(Slow { us, skip }),
            Box::new(MaxIterations::new(0)),
            Box::new(RandomCoordinatesInitializer::new(iv, pop)),
            Box::new(ZeroVelocityInitializer::new(1, pop)),
            Box::new(ClassicVelocityCalculator::new(1.0, 1.0)),
        );
        let mut total = 0;
        // the clock before sees the resume earlier and the finish earlier, the clock
        // behind sees both later
        o.set_loggers(vec![Box::new(Clock(outer.clone())), Box::new(TimeLogger::new(&mut tw)), Box::new(Clock(inner.clone()))]);
        for (find, iters, pause) in &calls {
            if *find {
                total = 0;
            }
            total += iters;
            o.set_stop_checker(Box::new(MaxIterations::new(total)));
            if *find {
                o.find_min();
            } else {
                o.next_iterations();
            }
            if skip {
                crate::clock::advance(*pause * 1_000_000);
            } else {
                std::thread::sleep(Duration::from_millis(*pause));
            }
        }
    }
    let ms = check_time_lines(&text.text()?, calls.len())?;
    let (before, behind) = (outer.borrow(), inner.borrow());
    let legs = |v: &[Tick]| -> Vec<(Instant, Instant)> {
        let mut out = vec![];
        let mut at = None;
        for t in v {
            match t {
                Tick::Resume(i) => at = Some(*i),
                Tick::Finish(f) => out.push((at.unwrap(), *f)),
            }
        }
        out
    };
    let (a, b) = (legs(&before), legs(&behind));
    ensure!(a.len() == calls.len() && b.len() == calls.len(), "loggers saw {} finishes for {} calls", a.len(), calls.len());
    for i in 0..calls.len() {
        let least = (a[i].1 - b[i].0).as_millis() as u64;
        let most = (b[i].1 - a[i].0).as_millis() as u64;
        ensure!(
            ms[i] >= least && ms[i] <= most,
            "call {} of {:?}: logged {} ms, between {} and {} ms passed since the run was started or resumed",
            i,
            calls,
            ms[i],
            least,
            most
        );
        if least > 0 || (i > 0 && calls[i - 1].2 > most) {
            c.nontrivial();
        }
    }
    Ok(())
}

// ================================================================ C28

struct Formula {
    value: f64,
    /// sum of the magnitudes of the intermediate results, weighted with their sensitivity
    mag: f64,
}

fn formula(which: usize, x: &[f64]) -> Formula {
    let n = x.len() as f64;
    let pi = std::f64::consts::PI;
    let mut mag = 0.0;
    let value = match which {
        0 => exact_sum(x.iter().enumerate().map(|(i, v)| {
            let d = v - (i as f64 + 1.0);
            mag += d * d + d.abs() * (v.abs() + i as f64 + 1.0);
            d * d
        })),
        1 => {
            mag += 418.9829 * n * 2.0;
            418.9829 * n
                - exact_sum(x.iter().map(|v| {
                    let r = v.abs().sqrt();
                    mag += v.abs() * (1.0 + r);
                    v * r.sin()
                }))
        }
        2 => {
            mag += 10.0 * n * 2.0;
            10.0 * n
                + exact_sum(x.iter().map(|v| {
                    mag += v * v + 10.0 + 10.0 * 2.0 * pi * v.abs() * 4.0;
                    v * v - 10.0 * (2.0 * pi * v).cos()
                }))
        }
        _ => exact_sum(x.windows(2).map(|w| {
            let d = w[1] - w[0] * w[0];
            let e = 1.0 - w[0];
            mag += 100.0 * (d * d + 2.0 * d.abs() * (w[1].abs() + 2.0 * w[0] * w[0])) + e * e + e.abs() * (1.0 + w[0].abs());
            100.0 * d * d + e * e
        })),
    };
    Formula { value, mag }
}

const NAMES: [&str; 4] = ["paraboloid", "Schwefel", "Rastrigin", "Rosenbrock"];

fn call<T: Fl>(which: usize, x: &Vec<T>) -> f64 {
    match which {
        0 => optlib_testfunc::paraboloid(x),
        1 => optlib_testfunc::schwefel(x),
        2 => optlib_testfunc::rastrigin(x),
        _ => optlib_testfunc::rosenbrock(x),
    }
}

/// Rounding allowance, in units of the last place of all intermediate results.
fn allowance<T: Fl>(f: &Formula, n: usize) -> f64 {
    (n as f64 + 16.0) * T::EPS.max(2e-15) * f.mag + 1e-12
}

fn c28_dim(s: &mut Src) -> usize {
    match s.n(20_000) {
        0..=19_899 => s.size(1, 60),
        19_999 => s.r(65_000, 67_000),
        _ => s.r(60, 1200),
    }
}

fn c28_formula_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let which = s.n(4) as usize;
    let dim = c28_dim(s);
    let w = match which {
        0 => 100.0,
        1 => 500.0,
        2 => 5.12,
        _ => 30.0,
    };
    let style = s.n(7);
    let x: Vec<T> = (0..dim)
        .map(|i| {
            T::of(match style {
                0 => (gen::unit(s) * 2.0 - 1.0) * w,
                1 => s.n(21) as f64 - 10.0,
                2 => (gen::unit(s) * 2.0 - 1.0) * w * 3.0,
                3 => {
                    // near the minimum
                    let m = match which {
                        0 => i as f64 + 1.0,
                        1 => 420.9687,
                        2 => 0.0,
                        _ => 1.0,
                    };
                    m + (gen::unit(s) - 0.5) * 2f64.powi(-(s.n(20) as i32))
                }
                4 => *s.pick(&[0.0, -0.0, w, -w, 0.5, -0.5, 1.0, 0.25]),
                5 => (gen::unit(s) * 2.0 - 1.0) * 2f64.powi(s.n(24) as i32 - 16),
                // far from one, the paraboloid also upwards
                _ => (gen::unit(s) * 2.0 - 1.0) * 2f64.powi(s.n(if which == 0 { 130 } else { 80 }) as i32 - 80),
            })
        })
        .collect();
    let xf: Vec<f64> = x.iter().map(|v| v.f()).collect();
    c.desc(|| format!("{} of {} at {:?}", NAMES[which], T::NAME, x));
    let before = x.clone();
    let got = call(which, &x);
    ensure!(gen::same_vec(&before, &x), "the argument was changed");
    let f = formula(which, &xf);
    let tol = allowance::<T>(&f, dim);
    ensure!(
        (got - f.value).abs() <= tol,
        "{} of {} at {} is {:e} instead of {:e} (allowance {:e})",
        NAMES[which],
        T::NAME,
        short(&x),
        got,
        f.value,
        tol
    );
    let domain = which != 1 || xf.iter().all(|v| v.abs() <= 500.0);
    ensure!(!domain || got >= -(tol + 1e-9), "{} of {} at {} is {:e}, below its minimum", NAMES[which], T::NAME, short(&x), got);
    if f.value.abs() > 1e3 * tol {
        c.nontrivial();
    }
    Ok(())
}

pub fn c28_formula(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c28_formula_t::<f32>(s, c)
    } else {
        c28_formula_t::<f64>(s, c)
    }
}

fn c28_minimum_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let which = s.n(4) as usize;
    let dim = c28_dim(s);
    let m: Vec<T> = (0..dim)
        .map(|i| {
            T::of(match which {
                0 => i as f64 + 1.0,
                1 => 420.9687,
                2 => 0.0,
                _ => 1.0,
            })
        })
        .collect();
    c.desc(|| format!("{} of {} in {} dimensions", NAMES[which], T::NAME, dim));
    let at = call(which, &m);
    let mf: Vec<f64> = m.iter().map(|v| v.f()).collect();
    let tol = allowance::<T>(&formula(which, &mf), dim) + if which == 1 { 1e-4 * dim as f64 } else { 0.0 };
    ensure!(at.abs() <= tol, "{} of {} at its minimum in {} dimensions is {:e}", NAMES[which], T::NAME, dim, at);
    // changing any one coordinate never leads below, and far enough it leads above
    let i = s.n(dim as u64) as usize;
    let mut x = m.clone();
    let step = (gen::unit(s) + 0.01) * *s.pick(&[0.2, 0.45, 0.3]);
    let step = if s.flag() { step } else { -step };
    x[i] = x[i] + T::of(step * if which == 1 { 40.0 } else { 1.0 });
    let there = call(which, &x);
    let xf: Vec<f64> = x.iter().map(|v| v.f()).collect();
    let tol2 = allowance::<T>(&formula(which, &xf), dim);
    ensure!(
        there >= at - tol - tol2,
        "{} of {}: {:e} beside the minimum {:e} at {}",
        NAMES[which],
        T::NAME,
        there,
        at,
        short(&x)
    );
    if !(which == 3 && dim == 1) && formula(which, &xf).value > 4.0 * (tol + tol2) {
        ensure!(there > at, "{} of {}: coordinate {} of {} has no influence", NAMES[which], T::NAME, i, dim);
        c.nontrivial();
    }
    Ok(())
}

pub fn c28_minimum(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c28_minimum_t::<f32>(s, c)
    } else {
        c28_minimum_t::<f64>(s, c)
    }
}
