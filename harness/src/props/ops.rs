//! Genetic operators, creators and swarm corrections: C13-C19, C22, C23.

use super::run::short;
use crate::common::*;
use crate::engine::{mix, no_panic, Ctx, Src, R};
use crate::gen::{self, down, same, same_vec, up, Fl};
use num::Float;
use optlib::genetic::{creation, cross, mutation, pairing, pre_birth, selection};
use optlib::genetic::{Creator, Cross, GeneticOptimizer, Mutation, Pairing, Population, PreBirth, Selection};
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::{CoordinatesInitializer, PostMove, PostVelocityCalc, VelocityInitializer};
use optlib::tools::stopchecker::MaxIterations;
use optlib::tools::RandomVectorCreator;
use optlib::{Goal, Optimizer};
use rand::rngs::thread::{control, Mode, Stream};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt::Debug;
use std::rc::Rc;

// ================================================================ statistics

/// Is a count of n draws compatible with probability p? Chernoff: a correct
/// implementation fails with probability below 2 * exp(-36).
pub fn freq_ok(count: u64, n: u64, p: f64) -> bool {
    if n == 0 {
        return true;
    }
    if p <= 0.0 {
        return count == 0;
    }
    if p >= 1.0 {
        return count == n;
    }
    let q = count as f64 / n as f64;
    let a = if q > 0.0 { q * (q / p).ln() } else { 0.0 };
    let b = if q < 1.0 { (1.0 - q) * ((1.0 - q) / (1.0 - p)).ln() } else { 0.0 };
    n as f64 * (a + b) < 36.0
}

/// Counts of the cells of a discrete distribution.
pub struct Cells {
    pub n: u64,
    pub counts: Vec<u64>,
}

impl Cells {
    pub fn new(k: usize) -> Self {
        Cells { n: 0, counts: vec![0; k] }
    }
    pub fn add(&mut self, i: usize) {
        self.counts[i] += 1;
        self.n += 1;
    }
    pub fn check<F: Fn(usize) -> f64>(&self, p: F, what: &str) -> R {
        for (i, c) in self.counts.iter().enumerate() {
            let q = p(i);
            if !freq_ok(*c, self.n, q) {
                return Err(format!(
                    "{}: outcome {} came up {} times in {} draws, its probability should be {:.6}",
                    what, i, c, self.n, q
                ));
            }
        }
        Ok(())
    }
}

/// Joint counts of the outcomes of one sequence at distances 1, 2, ... : a sequence of independent
/// outcomes shows no dependence at any distance, one that reuses earlier random numbers does.
pub struct Lags {
    k: usize,
    far: usize,
    ring: Vec<usize>,
    len: usize,
    cells: Vec<Cells>,
}

impl Lags {
    pub fn new(k: usize, far: usize) -> Self {
        Lags { k, far, ring: vec![0; far], len: 0, cells: (0..far).map(|_| Cells::new(k * k)).collect() }
    }
    pub fn add(&mut self, x: usize) {
        for d in 1..=self.far.min(self.len) {
            let o = self.ring[(self.len - d) % self.far];
            self.cells[d - 1].add(o * self.k + x);
        }
        self.ring[self.len % self.far] = x;
        self.len += 1;
    }
    pub fn check<F: Fn(usize) -> f64>(&self, p: F, what: &str) -> R {
        for (d, x) in self.cells.iter().enumerate() {
            x.check(|i| p(i / self.k) * p(i % self.k), &format!("{}, at a distance of {}", what, d + 1))?;
        }
        Ok(())
    }
}

fn seeded(s: &mut Src) {
    control::swap(Stream::new(Mode::Seeded, s.word()));
}

// ================================================================ populations

struct ListCreator<T>(Vec<T>);
impl<T: Clone> Creator<T> for ListCreator<T> {
    fn create(&mut self) -> Vec<T> {
        self.0.clone()
    }
}
struct NoPairs;
impl<T> Pairing<T> for NoPairs {
    fn get_pairs(&mut self, _: &Population<T>) -> Vec<Vec<usize>> {
        vec![]
    }
}
struct NoCross;
impl<T> Cross<T> for NoCross {
    fn cross(&mut self, _: &[&T]) -> Vec<T> {
        vec![]
    }
}
struct NoMut;
impl<T: Clone> Mutation<T> for NoMut {
    fn mutation(&mut self, c: &T) -> T {
        c.clone()
    }
}
struct FnSel<'a, T>(Box<dyn FnMut(&mut Population<T>) + 'a>);
impl<'a, T> Selection<T> for FnSel<'a, T> {
    fn kill(&mut self, p: &mut Population<T>) {
        (self.0)(p)
    }
}
/// The goal value of each point; equal points get theirs in order.
struct ByPoint(std::collections::HashMap<Key, std::collections::VecDeque<f64>>);
impl<T: Pt> Goal<T> for ByPoint {
    fn get(&mut self, p: &T) -> f64 {
        self.0.get_mut(&p.key()).and_then(|q| q.pop_front()).expect("harness: unknown point")
    }
}

/// Runs `f` on a population of the given points and goal values (creation order).
pub fn with_population<'a, T: Pt + 'a, F: FnMut(&mut Population<T>) + 'a>(points: Vec<T>, goals: Vec<f64>, f: F) {
    let mut map: std::collections::HashMap<Key, std::collections::VecDeque<f64>> = Default::default();
    for (p, g) in points.iter().zip(&goals) {
        map.entry(p.key()).or_default().push_back(*g);
    }
    let mut o = GeneticOptimizer::new(
        Box::new(ByPoint(map)),
        Box::new(MaxIterations::new(1)),
        Box::new(ListCreator(points)),
        Box::new(NoPairs),
        Box::new(NoCross),
        Box::new(NoMut),
        vec![Box::new(FnSel(Box::new(f)))],
        vec![],
    );
    o.find_min();
}

type Member<T> = (T, f64, bool);

fn members<T: Clone>(p: &Population<T>) -> Vec<Member<T>> {
    p.iter().map(|i| (i.get_chromosomes().clone(), i.get_fitness(), i.is_alive())).collect()
}

/// Only life flags may differ, and only from alive to dead.
fn only_killed<T: Pt>(before: &[Member<T>], after: &[Member<T>], best: (Option<u64>, Option<u64>)) -> R {
    ensure!(before.len() == after.len(), "the population has {} members instead of {}", after.len(), before.len());
    for (i, (b, a)) in before.iter().zip(after).enumerate() {
        ensure!(b.0.key() == a.0.key() && vkey(b.1) == vkey(a.1), "individual {} changed from {} to {}", i, short(b), short(a));
        ensure!(b.2 || !a.2, "individual {} came back to life", i);
    }
    ensure!(best.0 == best.1, "the best individual of the population changed");
    Ok(())
}

fn best_key<T: Clone>(p: &Population<T>) -> Option<u64> {
    p.get_best().as_ref().map(|b| vkey(b.get_fitness()))
}

/// Kills a random share in advance.
fn pre_kill<T>(p: &mut Population<T>, seed: u64, percent: u64) {
    for i in 0..p.len() {
        if mix(seed ^ (i as u64).wrapping_mul(0x9E37)) % 100 < percent {
            p[i].kill();
        }
    }
}

fn gen_pop_size(s: &mut Src) -> usize {
    match s.weighted(&[8, 4, 2, 1]) {
        0 => s.r(0, 6),
        1 => s.r(0, 40),
        2 => s.r(0, 150),
        _ => {
            if s.n(150) == 149 {
                s.r(700, 6_000)
            } else {
                s.r(100, 700)
            }
        }
    }
}

fn gen_values(s: &mut Src, n: usize) -> Vec<f64> {
    let style = s.n(6);
    (0..n)
        .map(|i| match style {
            0 => s.n(4) as f64,
            1 => gen::any::<f64>(s),
            2 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN, 0.0, -0.0, 1.0, f64::MAX, f64::MIN]),
            3 => i as f64,
            4 => -(i as f64),
            _ => {
                if s.chance(20) {
                    f64::NAN
                } else {
                    s.n(1000) as f64
                }
            }
        })
        .collect()
}

// ================================================================ C13

fn filter_interval<T: Fl>(s: &mut Src) -> (T, T) {
    match s.weighted(&[12, 1, 1, 1]) {
        0 => gen::interval(s),
        1 => {
            let v: T = gen::moderate(s);
            (v, v)
        }
        2 => (T::neg_infinity(), gen::moderate(s)),
        _ => (gen::moderate(s), T::infinity()),
    }
}

fn filter_coord<T: Fl>(s: &mut Src, iv: (T, T)) -> T {
    if iv.0.is_finite() && iv.1.is_finite() {
        gen::around(s, iv)
    } else {
        let b = if iv.0.is_finite() { iv.0 } else { iv.1 };
        match s.n(5) {
            0 => b,
            1 => up(b),
            2 => down(b),
            _ => gen::any(s),
        }
    }
}

fn keeps<T: Fl>(p: &[T], iv: &[(T, T)]) -> bool {
    p.iter().zip(iv).all(|(x, i)| x.is_finite() && *x >= i.0 && *x <= i.1)
}

fn c13_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let dim = if s.n(100) == 99 { s.r(13, 120) as usize } else { s.few(1, 6, 12) };
    // rarely many individuals
    let cap = match s.n(1_000) {
        999 if dim < 4 => 6_000,
        _ if dim > 12 => 8,
        _ => 120,
    };
    let iv: Vec<(T, T)> = (0..dim).map(|_| filter_interval(s)).collect();
    let good_share = *s.pick(&[0u64, 50, 80, 95]);
    let point = |s: &mut Src| -> Vec<T> {
        let good = s.chance(good_share);
        // everywhere inside but in one place
        let one = if s.flag() { Some(s.n(dim as u64) as usize) } else { None };
        iv.iter()
            .enumerate()
            .map(|(k, i)| {
                let x = filter_coord(s, *i);
                if (good || one.map_or(false, |o| o != k)) && !(x.is_finite() && x >= i.0 && x <= i.1) {
                    if i.0.is_finite() {
                        i.0
                    } else {
                        i.1
                    }
                } else {
                    x
                }
            })
            .collect()
    };
    let mut sel = selection::vec_float::CheckChromoInterval::new(iv.clone());
    let mut pre = pre_birth::vec_float::CheckChromoInterval::new(iv.clone());
    let mut fin = selection::KillFitnessNaN::new();
    let rounds = s.few(1, 3, 12);
    let (mut kept, mut removed) = (0, 0);
    for _ in 0..rounds {
        let n = gen_pop_size(s).min(cap);
        let points: Vec<Vec<T>> = (0..n).map(|_| point(s)).collect();
        let goals = gen_values(s, n);
        let m = gen_pop_size(s).min(cap);
        let children: Vec<Vec<T>> = (0..m).map(|_| point(s)).collect();
        let seed = s.word();
        let pct = *s.pick(&[0u64, 0, 30, 90]);
        let order = s.flag();
        c.desc(|| format!("intervals {:?}, individuals {:?}, goals {:?}, children {:?}", iv, points, goals, children));
        let want: Vec<Vec<T>> = children.iter().filter(|p| keeps(p, &iv)).cloned().collect();
        kept += want.len();
        removed += m - want.len();
        let mut res: R = Ok(());
        {
            let (res, iv, sel, pre, fin) = (&mut res, &iv, &mut sel, &mut pre, &mut fin);
            with_population(points.clone(), goals, move |p: &mut Population<Vec<T>>| {
                *res = (|| {
                    pre_kill(p, seed, pct);
                    // pre-birth
                    let b = members(p);
                    let mut list = children.clone();
                    pre.pre_birth(p, &mut list);
                    ensure!(
                        list.len() == want.len() && list.iter().zip(&want).all(|(x, y)| same_vec(x, y)),
                        "pre-birth interval filter {:?}: of the children {} it keeps {} instead of {}",
                        iv,
                        short(&children),
                        short(&list),
                        short(&want)
                    );
                    let a = members(p);
                    ensure!(
                        b.iter().zip(&a).all(|(x, y)| x.2 == y.2) && a.len() == b.len(),
                        "the pre-birth filter changed the population"
                    );
                    // selections
                    for which in 0..2 {
                        let interval = (which == 0) == order;
                        let b = members(p);
                        let bb = best_key(p);
                        if interval {
                            sel.kill(p);
                        } else {
                            fin.kill(p);
                        }
                        let a = members(p);
                        only_killed(&b, &a, (bb, best_key(p)))?;
                        for (i, (x, y)) in b.iter().zip(&a).enumerate() {
                            let stays = if interval { keeps(&x.0, iv) } else { x.1.is_finite() };
                            ensure!(
                                y.2 == (x.2 && stays),
                                "{}: individual {} {} with goal {} is {} but was {} and should {}",
                                if interval { format!("interval selection {}", short(iv)) } else { "finiteness selection".into() },
                                i,
                                short(&x.0),
                                x.1,
                                if y.2 { "alive" } else { "dead" },
                                if x.2 { "alive" } else { "dead" },
                                if stays { "stay" } else { "be killed" }
                            );
                        }
                    }
                    Ok(())
                })();
            });
        }
        res?;
    }
    if kept > 0 && removed > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c13(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c13_t::<f32>(s, c)
    } else {
        c13_t::<f64>(s, c)
    }
}

/// Lists and populations of more than 65536.
pub fn c13_huge(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.r(65_537, 70_000);
    let dim = s.r(1, 3);
    let iv: Vec<(f64, f64)> = (0..dim).map(|_| gen::plain_interval(s)).collect();
    let seed = s.word();
    // how many are outside
    let share = *s.pick(&[0u64, 1, 30_000, 60_000]);
    let make = move |i: u64, iv: &[(f64, f64)]| -> Vec<f64> {
        let h = mix(seed ^ i.wrapping_mul(0x9E37_79B9));
        let out = h % 65_536 < share;
        iv.iter()
            .enumerate()
            .map(|(k, b)| {
                let u = (mix(h ^ k as u64) >> 11) as f64 / (1u64 << 53) as f64;
                let w = b.1 - b.0;
                if out && k as u64 == (h >> 20) % dim as u64 {
                    match (h >> 30) % 3 {
                        0 => f64::NAN,
                        1 => b.1 + w * (u + 0.01),
                        _ => b.0 - w * (u + 0.01),
                    }
                } else {
                    (b.0 + w * u).min(b.1)
                }
            })
            .collect()
    };
    let points: Vec<Vec<f64>> = (0..n as u64).map(|i| make(i, &iv)).collect();
    let goals: Vec<f64> = (0..n as u64).map(|i| if mix(seed ^ i) % 65_536 < share { f64::NAN } else { i as f64 }).collect();
    let children: Vec<Vec<f64>> = (0..s.r(65_537, 70_000) as u64).map(|i| make(i + 1_000_000, &iv)).collect();
    let pct = *s.pick(&[0u64, 30]);
    c.desc(|| format!("{} individuals and {} children in {:?}, {} of 65536 outside", n, children.len(), iv, share));
    let want: Vec<Vec<f64>> = children.iter().filter(|p| keeps(p, &iv)).cloned().collect();
    if want.len() < children.len() {
        c.nontrivial();
    }
    let mut res: R = Ok(());
    {
        let (res, iv) = (&mut res, &iv);
        with_population(points, goals, move |p: &mut Population<Vec<f64>>| {
            *res = (|| {
                pre_kill(p, seed, pct);
                let mut list = children.clone();
                optlib::genetic::pre_birth::vec_float::CheckChromoInterval::new(iv.clone()).pre_birth(p, &mut list);
                ensure!(list.len() == want.len(), "{} children were kept instead of {}", list.len(), want.len());
                ensure!(list.iter().zip(&want).all(|(x, y)| same_vec(x, y)), "other children were kept");
                for round in 0..2 {
                    let b = members(p);
                    let what = if round == 0 {
                        selection::KillFitnessNaN::new().kill(p);
                        "not finite"
                    } else {
                        selection::vec_float::CheckChromoInterval::new(iv.clone()).kill(p);
                        "outside the intervals"
                    };
                    let a = members(p);
                    only_killed(&b, &a, (None, None))?;
                    for (i, (x, y)) in b.iter().zip(&a).enumerate() {
                        let ok = if round == 0 { x.1.is_finite() } else { keeps(&x.0, iv) };
                        ensure!(y.2 == (x.2 && ok), "filter of what is {}: individual {} of {} with {:?}", what, i, n, x);
                    }
                }
                Ok(())
            })();
        });
    }
    res
}

// ================================================================ C14

/// NaN is worst, above +infinity.
fn worse(x: f64, y: f64) -> bool {
    x > y || (x.is_nan() && !y.is_nan())
}

fn c14_check(before: &[Member<Tok>], after: &[Member<Tok>], want_killed: usize, what: &str) -> R {
    let killed: Vec<usize> = (0..before.len()).filter(|i| before[*i].2 && !after[*i].2).collect();
    ensure!(
        killed.len() == want_killed,
        "{}: {} living individuals were killed instead of {} (goals and life before: {})",
        what,
        killed.len(),
        want_killed,
        short(&before.iter().map(|m| (m.1, m.2)).collect::<Vec<_>>())
    );
    // best of the killed against worst of the survivors
    let mut best_killed: Option<usize> = None;
    for i in &killed {
        if best_killed.map_or(true, |b| worse(before[b].1, before[*i].1)) {
            best_killed = Some(*i);
        }
    }
    if let Some(b) = best_killed {
        for (i, m) in after.iter().enumerate() {
            ensure!(
                !m.2 || !worse(m.1, before[b].1),
                "{}: individual {} with goal {} was killed but individual {} with the worse goal {} survived (goals and life before: {})",
                what,
                b,
                before[b].1,
                i,
                m.1,
                short(&before.iter().map(|m| (m.1, m.2)).collect::<Vec<_>>())
            );
        }
    }
    Ok(())
}

pub fn c14(s: &mut Src, c: &mut Ctx) -> R {
    let mut limit = s.wide(0, 200, 6_000);
    let mut lim = selection::LimitPopulation::new(limit);
    let rounds = s.few(1, 3, 12);
    let mut real = 0;
    for _ in 0..rounds {
        let n = gen_pop_size(s);
        let goals = gen_values(s, n);
        let points: Vec<Tok> = (0..n).map(|i| Tok(i as u64)).collect();
        let seed = s.word();
        let pct = *s.pick(&[0u64, 0, 0, 20, 60, 95]);
        let ops = s.few(1, 3, 12);
        let mut plan: Vec<(u64, usize)> = vec![];
        for _ in 0..ops {
            let k = s.weighted(&[4, 3, 1]) as u64;
            let amount = match s.weighted(&[6, 1, 1]) {
                0 => s.r(0, n + 2),
                1 => s.size(0, 20),
                _ => *s.pick(&[usize::MAX, usize::MAX / 2, n, n.saturating_sub(1)]),
            };
            plan.push((k, amount));
        }
        c.desc(|| format!("limit {}, goals {:?}, {} % dead in advance, operations {:?}", limit, goals, pct, plan));
        let mut res: R = Ok(());
        {
            let (res, lim, limit, real) = (&mut res, &mut lim, &mut limit, &mut real);
            with_population(points, goals, move |p: &mut Population<Tok>| {
                *res = (|| {
                    pre_kill(p, seed, pct);
                    for (k, amount) in &plan {
                        let b = members(p);
                        let bb = best_key(p);
                        let alive = b.iter().filter(|m| m.2).count();
                        let (want, what) = match k {
                            0 => {
                                lim.set_limit(*amount);
                                *limit = *amount;
                                lim.kill(p);
                                (alive.saturating_sub(*limit), format!("limit to {}", limit))
                            }
                            1 => {
                                selection::kill_worst(p, *amount);
                                (alive.min(*amount), format!("kill the {} worst", amount))
                            }
                            _ => {
                                lim.kill(p);
                                (alive.saturating_sub(*limit), format!("limit to {}", limit))
                            }
                        };
                        let a = members(p);
                        only_killed(&b, &a, (bb, best_key(p)))?;
                        c14_check(&b, &a, want, &what)?;
                        if want > 0 && want < alive {
                            *real += 1;
                        }
                    }
                    Ok(())
                })();
            });
        }
        res?;
    }
    if real > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Populations of more than 65536.
pub fn c14_huge(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.r(65_537, 70_000);
    let seed = s.word();
    let style = s.n(4);
    let goals: Vec<f64> = (0..n as u64)
        .map(|i| {
            let h = mix(seed ^ i.wrapping_mul(0x9E37_79B9));
            match style {
                0 => (h % 7) as f64,
                1 => (h >> 11) as f64,
                2 => -(i as f64),
                _ if h % 100 == 0 => f64::NAN,
                _ => i as f64,
            }
        })
        .collect();
    let pct = *s.pick(&[0u64, 0, 30]);
    let k = match s.n(if style == 3 { 3 } else { 2 }) {
        0 => n - s.r(0, 300),
        1 => s.r(0, 300),
        _ => s.r(0, n),
    };
    // living ones to be killed few, or values already in a favourable order, as this takes long
    let by_limit = s.flag();
    c.desc(|| format!("{} individuals, style {}, {} % dead, {} {}", n, style, pct, if by_limit { "limit" } else { "kill" }, k));
    let mut res: R = Ok(());
    {
        let res = &mut res;
        with_population((0..n).map(|i| Tok(i as u64)).collect(), goals, move |p: &mut Population<Tok>| {
            *res = (|| {
                pre_kill(p, seed, pct);
                let b = members(p);
                let alive = b.iter().filter(|m| m.2).count();
                let want = if by_limit {
                    selection::LimitPopulation::new(k).kill(p);
                    alive.saturating_sub(k)
                } else {
                    selection::kill_worst(p, k);
                    alive.min(k)
                };
                let a = members(p);
                only_killed(&b, &a, (None, None))?;
                c14_check(&b, &a, want, if by_limit { "limit" } else { "kill the worst" })
            })();
        });
    }
    res?;
    c.nontrivial();
    Ok(())
}

// ================================================================ C15

pub fn c15_shape(s: &mut Src, c: &mut Ctx) -> R {
    gen_stream(s).install();
    let big = s.n(400) == 399;
    let shape = |s: &mut Src| if big { (s.r(0, 3_000), s.r(0, 60), s.r(0, 60)) } else { (s.size(0, 60), s.size(0, 12), s.size(0, 30)) };
    let (mut fam, mut par, mut rounds) = shape(s);
    let n_ops = if big { 1 } else { s.few(1, 4, 20) };
    let mut rp = pairing::RandomPairing::new();
    let mk = |fam: usize, par: usize, rounds: usize, how: u64| match how {
        0 => (pairing::Tournament::new(fam).partners_count(par).rounds_count(rounds), par, rounds),
        1 => (pairing::Tournament::new(fam).rounds_count(rounds).partners_count(par), par, rounds),
        2 => (pairing::Tournament::new(fam), 2, 1),
        3 => (pairing::Tournament::new(fam).partners_count(par), par, 1),
        _ => (pairing::Tournament::new(fam).rounds_count(rounds), 2, rounds),
    };
    let how = s.weighted(&[4, 3, 1, 1, 1]) as u64;
    let (mut tour, p2, r2) = mk(fam, par, rounds, how);
    par = p2;
    rounds = r2;
    for _ in 0..n_ops {
        let n = if big { s.r(0, 30_000) } else { gen_pop_size(s) };
        let goals = gen_values(s, n);
        c.desc(|| format!("population goals {:?}, tournament of {} families, {} partners, {} rounds", goals, fam, par, rounds));
        let mut res: R = Ok(());
        {
            let (res, rp, tour) = (&mut res, &mut rp, &mut tour);
            with_population((0..n).map(|i| Tok(i as u64)).collect(), goals, move |p: &mut Population<Tok>| {
                *res = (|| {
                    let b = members(p);
                    let pairs = no_panic(|| rp.get_pairs(p)).map_err(|m| format!("random pairing of {} individuals: {}", n, m))?;
                    ensure!(pairs.len() == n / 2, "random pairing of {} individuals returned {} pairs", n, pairs.len());
                    for q in &pairs {
                        ensure!(q.len() == 2 && q.iter().all(|i| *i < n), "random pairing of {} individuals returned {:?}", n, q);
                    }
                    let fams = no_panic(|| tour.get_pairs(p)).map_err(|m| format!("tournament of {} individuals: {}", n, m))?;
                    if n == 0 {
                        ensure!(fams.iter().all(|f| f.is_empty()), "a tournament without individuals named parents {:?}", fams);
                    } else {
                        ensure!(fams.len() == fam, "{} families instead of {}", fams.len(), fam);
                        for q in &fams {
                            ensure!(
                                q.len() == par && q.iter().all(|i| *i < n),
                                "tournament of {} individuals with {} partners returned family {:?}",
                                n,
                                par,
                                q
                            );
                        }
                    }
                    let a = members(p);
                    ensure!(
                        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && vkey(x.1) == vkey(y.1) && x.2 == y.2),
                        "pairing changed the population"
                    );
                    Ok(())
                })();
            });
        }
        res?;
        if n > 1 {
            c.nontrivial();
        }
        if s.flag() {
            let (f, p0, r0) = shape(s);
            fam = f;
            let how = s.weighted(&[4, 3]) as u64;
            let (t, p2, r2) = mk(fam, p0, r0, how);
            tour = t;
            par = p2;
            rounds = r2;
        }
    }
    Ok(())
}

/// Populations a pairing instance has served before, or serves in between:
/// other sizes, and the same size with other goal values.
fn other_pops(s: &mut Src, n: usize, most: usize) -> Vec<Vec<f64>> {
    let k = s.size(0, most);
    (0..k)
        .map(|_| {
            let m = match s.n(4) {
                0 => n,
                1 => s.r(0, n),
                2 => n + s.size(1, 20),
                _ => s.size(0, 40),
            };
            gen_values(s, m)
        })
        .collect()
}

fn serve<P: Pairing<Tok>>(x: &mut P, goals: &[f64], calls: usize) -> R {
    let mut res = Ok(());
    let r = &mut res;
    let n = goals.len();
    with_population((0..n).map(|i| Tok(i as u64)).collect(), goals.to_vec(), move |p: &mut Population<Tok>| {
        for _ in 0..calls {
            if r.is_ok() {
                *r = no_panic(|| x.get_pairs(p)).map(|_| ()).map_err(|m| format!("pairing of {} individuals: {}", n, m));
            }
        }
    });
    res
}

pub fn c15_random(s: &mut Src, c: &mut Ctx) -> R {
    seeded(s);
    let n = s.r(2, 12);
    let draws = 60_000u64;
    let goals = gen_values(s, n);
    let before = other_pops(s, n, 3);
    let between = other_pops(s, n, 2);
    c.desc(|| format!("random pairing, {} individuals, after populations {:?}, then {:?}", n, before, between));
    let mut rp = pairing::RandomPairing::new();
    for g in &before {
        serve(&mut rp, g, 10)?;
    }
    let mut joint = Cells::new(n * n);
    let mut lag = Cells::new(n * n);
    let mut over = Cells::new(n * n);
    for part in 0..=between.len() {
        if part > 0 {
            serve(&mut rp, &between[part - 1], 3)?;
        }
        let until = draws / (between.len() as u64 + 1) * (part as u64 + 1);
        let mut res: R = Ok(());
        {
            let (res, rp, joint, lag, over) = (&mut res, &mut rp, &mut joint, &mut lag, &mut over);
            with_population((0..n).map(|i| Tok(i as u64)).collect(), goals.clone(), move |p: &mut Population<Tok>| {
                *res = (|| {
                    let mut last: Option<usize> = None;
                    while joint.n < until {
                        let pairs = rp.get_pairs(p);
                        ensure!(pairs.len() == n / 2, "random pairing of {} individuals returned {} pairs", n, pairs.len());
                        for (k, q) in pairs.iter().enumerate() {
                            ensure!(q.len() == 2 && q.iter().all(|i| *i < n), "invalid pair {:?}", q);
                            joint.add(q[0] * n + q[1]);
                            if let Some(l) = last {
                                if k == 0 {
                                    over.add(l * n + q[0]);
                                } else {
                                    lag.add(l * n + q[0]);
                                }
                            }
                            last = Some(q[1]);
                        }
                    }
                    Ok(())
                })();
            });
        }
        res?;
    }
    let u = 1.0 / (n * n) as f64;
    joint.check(|_| u, "random pairing, the two parents of a pair (first * n + second)")?;
    lag.check(|_| u, "random pairing, second parent and first parent of the next pair")?;
    over.check(|_| u, "random pairing, last parent and first parent of the next call")?;
    c.nontrivial();
    Ok(())
}

pub fn c15_tournament(s: &mut Src, c: &mut Ctx) -> R {
    seeded(s);
    let n = s.r(1, 8);
    let rounds = s.weighted(&[2, 4, 3, 2, 1, 1]);
    let par = s.r(1, 4);
    let fam = s.r(1, 6);
    let goals: Vec<f64> = match s.n(5) {
        0 | 4 => {
            // distinct, shuffled
            let mut v: Vec<f64> = gen::ladder(s, n);
            for i in (1..n).rev() {
                v.swap(i, s.n(i as u64 + 1) as usize);
            }
            v
        }
        1 => (0..n)
            .map(|i| match s.n(6) {
                0 => f64::NAN,
                1 => f64::INFINITY,
                2 => f64::NEG_INFINITY,
                3 => -f64::NAN,
                _ => i as f64,
            })
            .collect(),
        2 => (0..n).map(|_| s.n(3) as f64 - 1.0).collect(),
        _ => (0..n).map(|i| if s.chance(30) { f64::NAN } else { -(i as f64) }).collect(),
    };
    let before = other_pops(s, n, 3);
    let between = other_pops(s, n, 2);
    c.desc(|| {
        format!(
            "tournament, goals {:?}, {} families, {} partners, {} rounds, after populations {:?}, then {:?}",
            goals, fam, par, rounds, before, between
        )
    });
    // classes of equal goals, best first
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|a, b| {
        if worse(goals[*a], goals[*b]) {
            std::cmp::Ordering::Greater
        } else if worse(goals[*b], goals[*a]) {
            std::cmp::Ordering::Less
        } else {
            std::cmp::Ordering::Equal
        }
    });
    let mut class = vec![0usize; n];
    let mut k = 0;
    for w in 0..n {
        if w > 0 && worse(goals[order[w]], goals[order[w - 1]]) {
            k += 1;
        }
        class[order[w]] = k;
    }
    let classes = k + 1;
    let at_least = |k: usize| class.iter().filter(|x| **x >= k).count() as f64 / n as f64;
    let e = rounds as i32 + 1;
    let pr: Vec<f64> = (0..classes).map(|k| at_least(k).powi(e) - if k + 1 < classes { at_least(k + 1).powi(e) } else { 0.0 }).collect();
    let mut t = pairing::Tournament::new(fam).partners_count(par).rounds_count(rounds);
    for g in &before {
        serve(&mut t, g, 5)?;
    }
    let mut each: Vec<Cells> = (0..par).map(|_| Cells::new(classes)).collect();
    let mut joint = Cells::new(classes * classes);
    let mut first_last = Cells::new(classes * classes);
    let mut across = Cells::new(classes * classes);
    let mut calls = Cells::new(classes * classes);
    let mut total = 0u64;
    for part in 0..=between.len() {
        if part > 0 {
            serve(&mut t, &between[part - 1], 3)?;
        }
        let until = 40_000 / (between.len() as u64 + 1) * (part as u64 + 1);
        let mut res: R = Ok(());
        {
            let (res, t, total, each, joint) = (&mut res, &mut t, &mut total, &mut each, &mut joint);
            let (first_last, across, calls, class) = (&mut first_last, &mut across, &mut calls, &class);
            with_population((0..n).map(|i| Tok(i as u64)).collect(), goals.clone(), move |p: &mut Population<Tok>| {
                *res = (|| {
                    let mut last: Option<usize> = None;
                    while *total < until {
                        let fams = t.get_pairs(p);
                        ensure!(fams.len() == fam, "{} families instead of {}", fams.len(), fam);
                        for (fi, f) in fams.iter().enumerate() {
                            ensure!(f.len() == par && f.iter().all(|i| *i < n), "invalid family {:?}", f);
                            for (j, i) in f.iter().enumerate() {
                                each[j].add(class[*i]);
                                *total += 1;
                                if j > 0 {
                                    joint.add(class[f[j - 1]] * classes + class[*i]);
                                } else if let Some(l) = last {
                                    if fi > 0 {
                                        across.add(l * classes + class[*i]);
                                    } else {
                                        calls.add(l * classes + class[*i]);
                                    }
                                }
                            }
                            if par > 2 {
                                first_last.add(class[f[0]] * classes + class[f[par - 1]]);
                            }
                            last = Some(class[f[par - 1]]);
                        }
                    }
                    Ok(())
                })();
            });
        }
        res?;
    }
    for (j, x) in each.iter().enumerate() {
        x.check(|k| pr[k], &format!("tournament, parent {} (classes of equal goals, best first)", j))?;
    }
    let pj = |i: usize| pr[i / classes] * pr[i % classes];
    joint.check(pj, "tournament, neighbouring parents of a family")?;
    first_last.check(pj, "tournament, first and last parent of a family")?;
    across.check(pj, "tournament, parents of neighbouring families")?;
    calls.check(pj, "tournament, parents of successive calls")?;
    if classes > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// Pairings far beyond the usual sizes: the same distributions, by position
/// in the population, in the list of families and in a family.
pub fn c15_wide(s: &mut Src, c: &mut Ctx) -> R {
    seeded(s);
    let n = match s.n(4) {
        0 => s.r(9, 60),
        1 => s.r(60, 400),
        2 => s.r(400, 4_000),
        _ if s.n(12) == 11 => s.r(65_537, 80_000),
        _ => s.r(4_000, 30_000),
    };
    // which part of the population, the list or the family an index is in
    const PARTS: usize = 8;
    let part = |i: usize, n: usize| i * PARTS / n.max(1);
    let sizes: Vec<f64> = {
        let mut v = vec![0.0; PARTS];
        for i in 0..n {
            v[part(i, n)] += 1.0 / n as f64;
        }
        v
    };
    let deep = |i: usize| (usize::BITS - i.leading_zeros()) as usize;
    const DEEP: usize = 24;
    if s.chance(40) {
        let goals = gen_values(s, n);
        c.desc(|| format!("random pairing of {} individuals", n));
        let mut rp = pairing::RandomPairing::new();
        let mut joint = Cells::new(PARTS * PARTS);
        let mut lags = Lags::new(PARTS, 20);
        let mut place: Vec<[Cells; 3]> = (0..DEEP).map(|_| [Cells::new(PARTS), Cells::new(PARTS), Cells::new(2)]).collect();
        let mut res: R = Ok(());
        {
            let (res, joint, place, lags) = (&mut res, &mut joint, &mut place, &mut lags);
            with_population((0..n).map(|i| Tok(i as u64)).collect(), goals, move |p: &mut Population<Tok>| {
                *res = (|| {
                    while joint.n < 60_000 {
                        let pairs = rp.get_pairs(p);
                        ensure!(pairs.len() == n / 2, "random pairing of {} individuals returned {} pairs", n, pairs.len());
                        for (k, q) in pairs.iter().enumerate() {
                            ensure!(q.len() == 2 && q.iter().all(|i| *i < n), "invalid pair {:?}", q);
                            let (a, b) = (part(q[0], n), part(q[1], n));
                            joint.add(a * PARTS + b);
                            lags.add(a);
                            lags.add(b);
                            let at = &mut place[deep(k)];
                            at[0].add(a);
                            at[1].add(b);
                            at[2].add((q[0] == q[1]) as usize);
                        }
                    }
                    Ok(())
                })();
            });
        }
        res?;
        joint.check(|i| sizes[i / PARTS] * sizes[i % PARTS], "random pairing of many, eighths of the population of both parents")?;
        lags.check(|i| sizes[i], "random pairing of many, eighths of the population of parents")?;
        let same = 1.0 / n as f64;
        for (d, at) in place.iter().enumerate() {
            at[0].check(|i| sizes[i], &format!("random pairing of many, eighth of the population of the first parent (pairs {}..)", (1usize << d) / 2))?;
            at[1].check(|i| sizes[i], &format!("random pairing of many, eighth of the population of the second parent (pairs {}..)", (1usize << d) / 2))?;
            at[2].check(|i| if i == 1 { same } else { 1.0 - same }, &format!("random pairing of many, both parents are the same (pairs {}..)", (1usize << d) / 2))?;
        }
        let all = (0..DEEP).fold((0, 0), |a, d| (a.0 + place[d][2].counts[1], a.1 + place[d][2].n));
        ensure!(freq_ok(all.0, all.1, same), "random pairing of {} individuals paired one with itself {} times of {}", n, all.0, all.1);
        c.label("random pairing");
        c.nontrivial();
        return Ok(());
    }
    let rounds = s.few(0, 5, 60);
    let par = s.few(1, 4, 60);
    let fam = match s.n(3) {
        0 => s.r(1, 10),
        1 => s.r(10, 300),
        _ => s.r(300, 3_000),
    };
    // a few classes of equal goals, the better the rarer, in a given order
    let classes = s.r(2, 5);
    let mut class: Vec<usize> = (0..n)
        .map(|i| {
            let x = i as f64 / n as f64;
            let mut k = classes - 1;
            while k > 0 && x < 0.5f64.powi((classes - k) as i32) {
                k -= 1;
            }
            k
        })
        .collect();
    match s.n(3) {
        0 => {}
        1 => class.reverse(),
        _ => {
            for i in (1..n).rev() {
                class.swap(i, s.n(i as u64 + 1) as usize);
            }
        }
    }
    let nan = s.chance(30);
    let value = gen::ladder(s, classes);
    let goals: Vec<f64> = class.iter().map(|k| if nan && *k == classes - 1 { f64::NAN } else { value[*k] }).collect();
    c.desc(|| format!("tournament of {} individuals in {} classes of equal goals, {} families, {} partners, {} rounds", n, classes, fam, par, rounds));
    let at_least = |k: usize| class.iter().filter(|x| **x >= k).count() as f64 / n as f64;
    let e = rounds as i32 + 1;
    let pr: Vec<f64> = (0..classes).map(|k| at_least(k).powi(e) - if k + 1 < classes { at_least(k + 1).powi(e) } else { 0.0 }).collect();
    let mut t = pairing::Tournament::new(fam).partners_count(par).rounds_count(rounds);
    let mut each: Vec<Cells> = (0..DEEP).map(|_| Cells::new(classes)).collect();
    let mut family: Vec<Cells> = (0..DEEP).map(|_| Cells::new(classes)).collect();
    let mut joint = Cells::new(classes * classes);
    let mut lags = Lags::new(classes, 40);
    let mut res: R = Ok(());
    {
        let (res, t, each, family, joint, class, lags) = (&mut res, &mut t, &mut each, &mut family, &mut joint, &class, &mut lags);
        with_population((0..n).map(|i| Tok(i as u64)).collect(), goals.clone(), move |p: &mut Population<Tok>| {
            *res = (|| {
                let mut total = 0;
                while total < 40_000 {
                    let fams = t.get_pairs(p);
                    ensure!(fams.len() == fam, "{} families instead of {}", fams.len(), fam);
                    for (fi, f) in fams.iter().enumerate() {
                        ensure!(f.len() == par && f.iter().all(|i| *i < n), "invalid family {:?}", f);
                        for (j, i) in f.iter().enumerate() {
                            each[deep(j)].add(class[*i]);
                            family[deep(fi)].add(class[*i]);
                            lags.add(class[*i]);
                            total += 1;
                            if j > 0 {
                                joint.add(class[f[j - 1]] * classes + class[*i]);
                            }
                        }
                    }
                }
                Ok(())
            })();
        });
    }
    res?;
    for (d, x) in each.iter().enumerate() {
        x.check(|k| pr[k], &format!("tournament of many, parents {}.. of a family (classes of equal goals, best first)", (1usize << d) / 2))?;
    }
    for (d, x) in family.iter().enumerate() {
        x.check(|k| pr[k], &format!("tournament of many, families {}.. (classes of equal goals, best first)", (1usize << d) / 2))?;
    }
    joint.check(|i| pr[i / classes] * pr[i % classes], "tournament of many, neighbouring parents of a family")?;
    lags.check(|i| pr[i], "tournament of many, parents in the order of selection")?;
    c.label("tournament");
    if pr.iter().filter(|x| **x > 1e-3).count() > 1 {
        c.nontrivial();
    }
    Ok(())
}

// ================================================================ C16

macro_rules! cut_ints {
    ($s:expr, $c:expr, $t:ty, $u:ty, $f:path) => {{
        let w = std::mem::size_of::<$t>() * 8;
        let (a, b) = (word_pair($s), word_pair($s));
        let (a, b) = (a as $u as $t, b as $u as $t);
        for pos in 1..w {
            let mask: $u = ((1 as $u) << pos) - 1;
            let want = (((a as $u) & !mask) | ((b as $u) & mask)) as $t;
            let got = no_panic(|| $f(a, b, pos))?;
            ensure!(got == want, "{}({:#x}, {:#x}, {}) = {:#x} instead of {:#x}", stringify!($f), a, b, pos, got, want);
            ensure!($f(a, a, pos) == a, "{}: crossing {:#x} with itself at {} gives {:#x}", stringify!($f), a, pos, $f(a, a, pos));
            let other = $f(b, a, pos);
            ensure!(
                $f(got, other, pos) == a && $f(other, got, pos) == b,
                "{}: crossing the two children of {:#x} and {:#x} at {} does not give them back",
                stringify!($f),
                a,
                b,
                pos
            );
        }
        if a != b {
            $c.nontrivial();
        }
    }};
}

fn word_pair(s: &mut Src) -> u64 {
    match s.n(7) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << s.n(64),
        3 => !(1 << s.n(64)),
        4 => (1u64 << s.n(64)).wrapping_sub(1),
        5 => 0x8000_8080_8000_0000,
        _ => s.word(),
    }
}

pub fn c16(s: &mut Src, c: &mut Ctx) -> R {
    let k = s.n(8);
    c.desc(|| format!("type {}", ["u8", "i8", "u16", "i16", "u32", "u64", "f32", "f64"][k as usize]));
    match k {
        0 => cut_ints!(s, c, u8, u8, cross::cross_u8),
        1 => cut_ints!(s, c, i8, u8, cross::cross_i8),
        2 => cut_ints!(s, c, u16, u16, cross::cross_u16),
        3 => cut_ints!(s, c, i16, u16, cross::cross_i16),
        4 => cut_ints!(s, c, u32, u32, cross::cross_u32),
        5 => cut_ints!(s, c, u64, u64, cross::cross_u64),
        6 => {
            let a: f32 = if s.flag() { gen::any(s) } else { f32::from_bits(word_pair(s) as u32) };
            let b: f32 = if s.flag() { gen::any(s) } else { f32::from_bits(word_pair(s) as u32) };
            floats(a, b, cross::cross_f32, c)?
        }
        _ => {
            let a: f64 = if s.flag() { gen::any(s) } else { f64::from_bits(word_pair(s)) };
            let b: f64 = if s.flag() { gen::any(s) } else { f64::from_bits(word_pair(s)) };
            floats(a, b, cross::cross_f64, c)?
        }
    }
    Ok(())
}

fn cut<T: Fl>(a: T, b: T, pos: u32) -> u64 {
    let mask = (1u64 << pos) - 1;
    (a.bits() & !mask) | (b.bits() & mask)
}

fn floats<T: Fl>(a: T, b: T, f: fn(T, T, usize) -> T, c: &mut Ctx) -> R {
    for pos in 1..T::WIDTH {
        let want = cut(a, b, pos);
        let x = f(a, b, pos as usize);
        let y = f(b, a, pos as usize);
        ensure!(
            x.bits() == want,
            "crossing {} bits {:#x} and {:#x} at {} gives {:#x} instead of {:#x}",
            T::NAME,
            a.bits(),
            b.bits(),
            pos,
            x.bits(),
            want
        );
        ensure!(f(a, a, pos as usize).bits() == a.bits(), "crossing {:#x} with itself at {} changes it", a.bits(), pos);
        ensure!(
            f(x, y, pos as usize).bits() == a.bits() && f(y, x, pos as usize).bits() == b.bits(),
            "crossing the two children of {:#x} and {:#x} at {} does not give them back",
            a.bits(),
            b.bits(),
            pos
        );
    }
    if a.bits() != b.bits() {
        c.nontrivial();
    }
    Ok(())
}

// ================================================================ C17

fn mean_t<T: Fl>(s: &mut Src, c: &mut Ctx, am: &mut cross::CrossMean, gm: &mut cross::FloatCrossGeometricMean) -> R {
    let n = s.size(2, 40);
    let geo = s.flag();
    let mut ps: Vec<T> = vec![];
    let big = s.chance(30);
    for _ in 0..n {
        let x: T = if geo {
            let e = if big { 1000.0 / n as f64 } else { 20.0f64.min(1000.0 / n as f64) };
            let e = if T::WIDTH == 32 { e.min(100.0 / n as f64) } else { e };
            T::of(2f64.powf((gen::unit(s) * 2.0 - 1.0) * e))
        } else if big {
            let v: T = gen::finite(s);
            if v.abs().f() < T::max_value().f() / 64.0 {
                v
            } else {
                v / T::of(128.0)
            }
        } else {
            gen::moderate(s)
        };
        ps.push(x);
    }
    if s.chance(10) {
        let v = ps[0];
        ps.iter_mut().for_each(|x| *x = v);
    }
    c.desc(|| format!("{} mean of {} {:?}", if geo { "geometric" } else { "arithmetic" }, T::NAME, ps));
    let refs: Vec<&T> = ps.iter().collect();
    let out = if geo {
        gm.cross(&refs)
    } else {
        am.cross(&refs)
    };
    ensure!(out.len() == 1, "{} children of a mean crossing", out.len());
    let got = out[0].f();
    if geo {
        let want = (ps.iter().map(|x| x.f().ln()).sum::<f64>() / n as f64).exp();
        let tol = if T::WIDTH == 32 { 3e-5 } else { 3e-12 };
        ensure!((got - want).abs() <= tol * want, "geometric mean of {:?} is {} instead of {}", ps, got, want);
    } else {
        // in a scaled double-double sum
        let mut hi = 0.0f64;
        let mut lo = 0.0f64;
        for x in &ps {
            let x = x.f() / 64.0;
            let t = hi + x;
            lo += if hi.abs() >= x.abs() { (hi - t) + x } else { (x - t) + hi };
            hi = t;
        }
        let want = (hi + lo) / n as f64 * 64.0;
        let scale: f64 = ps.iter().map(|x| x.f().abs() / 64.0).fold(0.0, |a, b| a + b) * 64.0 / n as f64;
        let scale = scale.min(T::max_value().f());
        let tol = (n as f64 + 4.0) * T::EPS * scale + 64.0 * T::from_b(1).f();
        ensure!((got - want).abs() <= tol, "mean of {:?} is {} instead of {}", ps, got, want);
    }
    if ps.iter().any(|x| *x != ps[0]) {
        c.nontrivial();
    }
    Ok(())
}

macro_rules! int_mean {
    ($s:expr, $c:expr, $am:expr, $t:ty) => {{
        // the mean of integers, rounded to a neighbour
        let n = $s.size(2, 20);
        let half = (<$t>::max_value() as i128).min(1 << 40) / n as i128;
        let signed = <$t>::min_value() != 0;
        let small = $s.flag();
        let ps: Vec<$t> = (0..n)
            .map(|_| {
                let w = if small { half.min(20) } else { half };
                let v = $s.n(w as u64 + 1) as i128;
                (if signed && $s.flag() { -v } else { v }) as $t
            })
            .collect();
        $c.desc(|| format!("mean of {} {:?}", stringify!($t), ps));
        let refs: Vec<&$t> = ps.iter().collect();
        let out: Vec<$t> = no_panic(|| $am.cross(&refs)).map_err(|m| format!("mean of {:?}: {}", ps, m))?;
        ensure!(out.len() == 1, "{} children of a mean crossing", out.len());
        let sum: i128 = ps.iter().map(|x| *x as i128).sum();
        ensure!((out[0] as i128 * n as i128 - sum).abs() < n as i128, "mean of {} {:?} is {}", stringify!($t), ps, out[0]);
        $c.nontrivial();
    }};
}

pub fn c17_mean(s: &mut Src, c: &mut Ctx) -> R {
    let mut am = cross::CrossMean::new();
    let mut gm = cross::FloatCrossGeometricMean::new();
    for _ in 0..s.few(1, 4, 40) {
        match s.n(10) {
            0..=3 => mean_t::<f32>(s, c, &mut am, &mut gm)?,
            4..=7 => mean_t::<f64>(s, c, &mut am, &mut gm)?,
            8 => int_mean!(s, c, am, i64),
            _ => match s.n(6) {
                0 => int_mean!(s, c, am, i32),
                1 => int_mean!(s, c, am, u32),
                2 => int_mean!(s, c, am, u64),
                3 => int_mean!(s, c, am, i16),
                4 => int_mean!(s, c, am, u16),
                _ => int_mean!(s, c, am, i8),
            },
        }
    }
    Ok(())
}

fn bit_t<T: Fl>(s: &mut Src, c: &mut Ctx, x: &mut cross::CrossBitwise) -> R
where
    cross::CrossBitwise: Cross<T>,
{
    for _ in 0..s.few(1, 3, 30) {
        let (a, b): (T, T) = (gen::any(s), gen::any(s));
        c.desc(|| format!("bitwise crossing of {:?} and {:?}", a, b));
        let all: HashSet<u64> = (1..T::WIDTH).map(|p| cut(a, b, p)).collect();
        for _ in 0..20 {
            let out = x.cross(&[&a, &b]);
            ensure!(out.len() == 1, "{} children of a bitwise crossing", out.len());
            ensure!(
                all.contains(&out[0].bits()),
                "bitwise crossing of bits {:#x} and {:#x} gives {:#x}, which no cut gives",
                a.bits(),
                b.bits(),
                out[0].bits()
            );
        }
        if a.bits() != b.bits() {
            c.nontrivial();
        }
    }
    Ok(())
}

fn bit_cuts_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    cross::CrossBitwise: Cross<T>,
{
    seeded(s);
    c.desc(|| format!("cuts of bitwise crossings of {}", T::NAME));
    let mut x = cross::CrossBitwise::new();
    // crossings of the other type in between
    let mixed = s.flag();
    let a = T::from_b(0);
    let b = T::from_b(if T::WIDTH == 32 { 0xffff_ffff } else { u64::MAX });
    let mut hit = vec![0u64; T::WIDTH as usize + 1];
    for i in 0..20_000 {
        if mixed && i % 3 == 0 {
            Cross::<f32>::cross(&mut x, &[&1.0, &2.0]);
        } else if mixed && i % 3 == 1 {
            Cross::<f64>::cross(&mut x, &[&1.0, &2.0]);
        }
        let v = x.cross(&[&a, &b])[0].bits();
        hit[v.trailing_ones() as usize] += 1;
    }
    ensure!(hit[0] == 0 && hit[T::WIDTH as usize] == 0, "bitwise crossing cut outside the number");
    for p in 1..T::WIDTH as usize {
        ensure!(hit[p] > 0, "bitwise crossing of {} never cuts at bit {} in 20000 crossings", T::NAME, p);
    }
    c.nontrivial();
    Ok(())
}

pub fn c17_bit(s: &mut Src, c: &mut Ctx) -> R {
    match s.weighted(&[50, 50, 1, 1]) {
        k @ 0 | k @ 1 => {
            gen_stream(s).install();
            let mut x = cross::CrossBitwise::new();
            let parts = s.few(1, 4, 40);
            for i in 0..parts {
                if (k + i) % 2 == 0 {
                    bit_t::<f32>(s, c, &mut x)?
                } else {
                    bit_t::<f64>(s, c, &mut x)?
                }
            }
            Ok(())
        }
        2 => bit_cuts_t::<f32>(s, c),
        _ => bit_cuts_t::<f64>(s, c),
    }
}

/// m * 2^e, rounded once.
fn scaled(m: u64, e: i32) -> f64 {
    let mut v = m as f64;
    let mut e = e;
    while e > 0 && v.is_finite() && v != 0.0 {
        let k = e.min(1000);
        v *= 2f64.powi(k);
        e -= k;
    }
    while e < 0 && v != 0.0 {
        if e < -1000 && v > 1.0 {
            // still exact above the subnormal numbers
            let k = (-e).min(900);
            v *= 2f64.powi(-k);
            e += k;
        } else {
            // the last factor may round, once
            let k = -e;
            if k > 1074 {
                return v * 2f64.powi(-537) * 2f64.powi(-537) * 2f64.powi(-(k - 1074).min(1000));
            }
            v = if k > 1000 { v * 2f64.powi(-500) * 2f64.powi(-(k - 500)) } else { v * 2f64.powi(-k) };
            e = 0;
        }
    }
    v
}

fn exp_t<T: Fl>(s: &mut Src, c: &mut Ctx, x: &mut cross::FloatCrossExp) -> R {
    let parent = |s: &mut Src| -> T {
        loop {
            let v: T = if s.chance(70) { gen::moderate(s) } else { gen::finite(s) };
            // zero and subnormal numbers are parents like others, but seldom
            if v.abs().f() >= T::TINY || s.chance(12) {
                return v;
            }
            if s.rec.len() > 10_000 {
                return T::one();
            }
            if s.chance(50) {
                return T::of(1.5);
            }
        }
    };
    let (a, b) = (parent(s), parent(s));
    c.desc(|| format!("mantissa/exponent crossing of {} {:?} and {:?}", T::NAME, a, b));
    let (m1, e1, s1) = Float::integer_decode(a);
    let (m2, e2, s2) = Float::integer_decode(b);
    let mut all: HashSet<u64> = HashSet::new();
    let mut nan = false;
    for mp in 1..64 {
        let mask = (1u64 << mp) - 1;
        let m = (m1 & !mask) | (m2 & mask);
        for ep in 1..16 {
            let mask = (1u16 << ep) - 1;
            let e = ((e1 as u16 & !mask) | (e2 as u16 & mask)) as i16;
            let ideal = T::of(scaled(m, e as i32));
            let pw = T::of(scaled(1, e as i32));
            let direct = T::of(m as f64) * pw;
            for sg in &[s1, s2] {
                let g = T::of(*sg as f64);
                all.insert((g * ideal + T::zero()).bits());
                all.insert((g * direct + T::zero()).bits());
                if pw.f().abs() < T::TINY {
                    // a power of two below the normal numbers may be flushed to zero
                    all.insert((g * T::zero() + T::zero()).bits());
                }
                nan |= direct.is_nan();
            }
        }
    }
    for _ in 0..25 {
        let out: Vec<T> = x.cross(&[&a, &b]);
        ensure!(out.len() == 1, "{} children of a mantissa/exponent crossing", out.len());
        let v = out[0] + T::zero();
        ensure!(
            all.contains(&v.bits()) || (nan && v.is_nan()),
            "mantissa/exponent crossing of {:?} (mantissa {:#x}, exponent {}) and {:?} (mantissa {:#x}, exponent {}) gives {:?}, which no pair of cuts gives",
            a,
            m1,
            e1,
            b,
            m2,
            e2,
            out[0]
        );
    }
    if a != b {
        c.nontrivial();
    }
    Ok(())
}

/// Every part is crossed: children vary in sign, mantissa and exponent.
fn exp_vary_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    seeded(s);
    // mantissas 100..0 and 11..1, exponents 0 and 11..1: every cut below the top gives another child
    let top: u32 = if T::MANT == 52 { 9 } else { 6 };
    let a = T::of(2f64.powi(T::MANT as i32));
    let b = -T::of((2f64.powi(T::MANT as i32 + 1) - 1.0) * 2f64.powi((1 << top) - 1));
    c.desc(|| format!("variety of mantissa/exponent crossings of {:?} and {:?}", a, b));
    let mut x = cross::FloatCrossExp::new();
    let (mut ms, mut es, mut neg, mut pos) = (HashSet::new(), HashSet::new(), 0, 0);
    for _ in 0..3000 {
        let v: T = x.cross(&[&a, &b])[0];
        if v < T::zero() {
            neg += 1
        } else {
            pos += 1
        }
        let (m, e, _) = Float::integer_decode(v);
        ms.insert(m);
        es.insert(e);
    }
    ensure!(neg > 300 && pos > 300, "of 3000 children {} are negative and {} positive", neg, pos);
    for k in 1..=T::MANT {
        let m = (1u64 << T::MANT) | ((1u64 << k) - 1);
        ensure!(ms.contains(&m), "none of 3000 children has its mantissa cut at {}{}", k, if k == T::MANT { " or above" } else { "" });
    }
    for k in 1..=top {
        let e = (1i16 << k) - 1;
        ensure!(es.contains(&e), "none of 3000 children has its exponent cut at {}{}", k, if k == top { " or above" } else { "" });
    }
    c.nontrivial();
    Ok(())
}

pub fn c17_exp(s: &mut Src, c: &mut Ctx) -> R {
    match s.weighted(&[50, 50, 1, 1]) {
        k @ 0 | k @ 1 => {
            gen_stream(s).install();
            let mut x = cross::FloatCrossExp::new();
            let parts = s.few(1, 3, 30);
            for i in 0..parts {
                if (k + i) % 2 == 0 {
                    exp_t::<f32>(s, c, &mut x)?
                } else {
                    exp_t::<f64>(s, c, &mut x)?
                }
            }
            Ok(())
        }
        2 => exp_vary_t::<f32>(s, c),
        _ => exp_vary_t::<f64>(s, c),
    }
}

/// Gene with identity.
#[derive(Debug, PartialEq, Clone)]
struct Gene(u64);

struct PureCross {
    calls: Rc<Cell<usize>>,
}
fn child_of(a: &Gene, b: &Gene) -> Gene {
    Gene(mix(a.0.wrapping_mul(3) ^ mix(b.0)))
}
impl Cross<Gene> for PureCross {
    fn cross(&mut self, p: &[&Gene]) -> Vec<Gene> {
        self.calls.set(self.calls.get() + 1);
        assert_eq!(p.len(), 2);
        vec![child_of(p[0], p[1])]
    }
}

pub fn c17_vec(s: &mut Src, c: &mut Ctx) -> R {
    let calls = Rc::new(Cell::new(0));
    let mut x = cross::VecCrossAllGenes::new(Box::new(PureCross { calls: calls.clone() }));
    for _ in 0..s.few(1, 3, 30) {
        let n = s.size(0, 300);
        let tied = s.flag();
        let (a, b): (Vec<Gene>, Vec<Gene>) =
            (0..n).map(|_| if tied { (Gene(s.n(3)), Gene(s.n(3))) } else { (Gene(s.word()), Gene(s.word())) }).unzip();
        c.desc(|| format!("vector crossing of {:?} and {:?}", a, b));
        calls.set(0);
        let out = x.cross(&[&a, &b]);
        ensure!(out.len() == 1, "{} children of a vector crossing", out.len());
        let want: Vec<Gene> = a.iter().zip(&b).map(|(p, q)| child_of(p, q)).collect();
        ensure!(out[0].len() == n, "the child of chromosomes of {} genes has {}", n, out[0].len());
        for i in 0..n {
            ensure!(out[0][i] == want[i], "gene {} of the child is not the crossing of the parents' genes {}", i, i);
        }
        ensure!(calls.get() == n, "{} gene crossings for {} genes", calls.get(), n);
        if n > 1 {
            c.nontrivial();
        }
    }
    Ok(())
}

// ================================================================ C18

fn flips_t<T: Fl>(s: &mut Src, c: &mut Ctx, m: &mut mutation::BitwiseMutation, k: usize) -> R
where
    mutation::BitwiseMutation: Mutation<T>,
{
    for _ in 0..s.few(1, 5, 30) {
        let g: T = gen::any(s);
        c.desc(|| format!("{} flips of {} {:?}", k, T::NAME, g));
        for _ in 0..20 {
            let h = (m.mutation(&g).bits() ^ g.bits()).count_ones() as usize;
            ensure!(h <= k && (k - h) % 2 == 0, "{} flips of {:?} changed {} bits", k, g, h);
        }
        if k > 0 {
            c.nontrivial();
        }
    }
    Ok(())
}

/// Distribution of the number of differing bits after k flips of w bits.
fn hamming_dist(w: usize, k: usize) -> Vec<f64> {
    let mut d = vec![0.0; w + 1];
    d[0] = 1.0;
    for _ in 0..k {
        let mut n = vec![0.0; w + 1];
        for h in 0..=w {
            if h < w {
                n[h + 1] += d[h] * (w - h) as f64 / w as f64;
            }
            if h > 0 {
                n[h - 1] += d[h] * h as f64 / w as f64;
            }
        }
        d = n;
    }
    d
}

fn flip_dist_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    mutation::BitwiseMutation: Mutation<T>,
{
    seeded(s);
    let k = s.weighted(&[0, 6, 4, 3, 2, 1, 1, 1]);
    let w = T::WIDTH as usize;
    let g: T = gen::any(s);
    c.desc(|| format!("distribution of {} flips of {} {:?}", k, T::NAME, g));
    let mut m = mutation::BitwiseMutation::new(k);
    let n = 40_000u64;
    let mut bits = vec![0u64; w];
    let mut ham = Cells::new(w + 1);
    let mut lag = Cells::new(64);
    let mut last: Option<usize> = None;
    // numbers of both types through one instance
    let mixed = s.flag();
    let g0: T = if s.flag() { gen::any(s) } else { g };
    for i in 0..n {
        if mixed && i % 4 == 0 {
            Mutation::<f32>::mutation(&mut m, &1.5);
        } else if mixed && i % 4 == 1 {
            Mutation::<f64>::mutation(&mut m, &1.5);
        }
        let g = if i % 2 == 0 { g } else { g0 };
        let x = m.mutation(&g).bits() ^ g.bits();
        ham.add(x.count_ones() as usize);
        for b in 0..w {
            bits[b] += x >> b & 1;
        }
        // eight groups of positions of the lowest flipped bit of successive calls (single flips)
        if k == 1 && x != 0 {
            let p = x.trailing_zeros() as usize * 8 / w;
            if let Some(l) = last {
                lag.add(l * 8 + p);
            }
            last = Some(p);
        }
    }
    let d = hamming_dist(w, k);
    ham.check(|h| d[h], &format!("bits changed by {} flips", k))?;
    let pb = (1.0 - (1.0 - 2.0 / w as f64).powi(k as i32)) / 2.0;
    for b in 0..w {
        ensure!(
            freq_ok(bits[b], n, pb),
            "bit {} changed in {} of {} mutations of {} flips, expected share {:.5}",
            b,
            bits[b],
            n,
            k,
            pb
        );
    }
    lag.check(|_| 1.0 / 64.0, "flipped positions of successive mutations (eighths)")?;
    // two flips: which pairs
    if k == 2 {
        let mut m = mutation::BitwiseMutation::new(2);
        let mut pairs = Cells::new(8);
        for _ in 0..n {
            let x = m.mutation(&g).bits() ^ g.bits();
            if x != 0 {
                let (lo, hi) = (x.trailing_zeros() as usize, 63 - x.leading_zeros() as usize);
                pairs.add((hi - lo) * 8 / w);
            }
        }
        let total = (w * (w - 1) / 2) as f64;
        let share = |i: usize| (1..w).filter(|d| d * 8 / w == i).map(|d| (w - d) as f64).sum::<f64>() / total;
        pairs.check(share, "distance of two flipped bits (eighths)")?;
    }
    c.nontrivial();
    Ok(())
}

pub fn c18_flips(s: &mut Src, c: &mut Ctx) -> R {
    gen_stream(s).install();
    let k = s.size(0, 200);
    let mut m = mutation::BitwiseMutation::new(k);
    for _ in 0..s.few(1, 3, 30) {
        if s.flag() {
            flips_t::<f32>(s, c, &mut m, k)?
        } else {
            flips_t::<f64>(s, c, &mut m, k)?
        }
    }
    Ok(())
}

pub fn c18_flip_dist(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        flip_dist_t::<f32>(s, c)
    } else {
        flip_dist_t::<f64>(s, c)
    }
}

struct PureMut {
    args: Rc<RefCell<Vec<u64>>>,
}
fn mutant_of(g: u64) -> u64 {
    !g
}
impl Mutation<Gene> for PureMut {
    fn mutation(&mut self, g: &Gene) -> Gene {
        self.args.borrow_mut().push(g.0);
        Gene(mutant_of(g.0))
    }
}

/// mutated positions of one call
fn vec_mut(
    m: &mut mutation::VecMutation<Gene>,
    g: &Vec<Gene>,
    args: &Rc<RefCell<Vec<u64>>>,
    p: f64,
) -> Result<Vec<bool>, String> {
    args.borrow_mut().clear();
    let out = m.mutation(g);
    ensure!(out.len() == g.len(), "a chromosome of {} genes has {} after the mutation", g.len(), out.len());
    let mut v = Vec::with_capacity(g.len());
    let mut called = vec![];
    for (i, (a, b)) in g.iter().zip(&out).enumerate() {
        if a == b {
            v.push(false);
        } else {
            ensure!(b.0 == mutant_of(a.0), "gene {} is neither the old gene nor its mutation", i);
            called.push(a.0);
            v.push(true);
        }
    }
    let mut args = args.borrow().clone();
    args.sort();
    called.sort();
    ensure!(args == called, "the gene mutation was called {} times but {} genes are mutated", args.len(), called.len());
    ensure!(p > 0.0 || called.is_empty(), "{} genes mutated at 0 %", called.len());
    ensure!(p < 100.0 || called.len() == g.len(), "only {} of {} genes mutated at 100 %", called.len(), g.len());
    Ok(v)
}

fn gen_percent(s: &mut Src) -> f64 {
    match s.weighted(&[2, 2, 5, 2]) {
        0 => 0.0,
        1 => 100.0,
        2 => gen::unit(s) * 100.0,
        _ => *s.pick(&[0.5, 1.0, 99.0, 99.5, 15.0, 50.0]),
    }
}

pub fn c18_vec(s: &mut Src, c: &mut Ctx) -> R {
    gen_stream(s).install();
    let p = gen_percent(s);
    let args = Rc::new(RefCell::new(vec![]));
    let mut m = mutation::VecMutation::new(p, Box::new(PureMut { args: args.clone() }));
    for _ in 0..s.few(1, 4, 40) {
        let n = s.size(0, 300);
        let g: Vec<Gene> = (0..n).map(|i| Gene(i as u64)).collect();
        c.desc(|| format!("mutation of {} genes at {} %", n, p));
        let v = vec_mut(&mut m, &g, &args, p)?;
        if v.iter().any(|x| *x) && v.iter().any(|x| !*x) || (n > 1 && (p == 0.0 || p == 100.0)) {
            c.nontrivial();
        }
    }
    Ok(())
}

pub fn c18_vec_dist(s: &mut Src, c: &mut Ctx) -> R {
    seeded(s);
    let p = gen_percent(s);
    let n = s.r(1, 12);
    let calls = 30_000u64;
    c.desc(|| format!("distribution of mutations of {} genes at {} %", n, p));
    let args = Rc::new(RefCell::new(vec![]));
    let mut m = mutation::VecMutation::new(p, Box::new(PureMut { args: args.clone() }));
    let g: Vec<Gene> = (0..n).map(|i| Gene(i as u64)).collect();
    // chromosomes of other lengths before and in between
    let others: Vec<Vec<Gene>> = (0..s.n(3)).map(|_| (0..s.size(0, 40)).map(|i| Gene(i as u64)).collect()).collect();
    for o in &others {
        vec_mut(&mut m, o, &args, p)?;
    }
    let mut each = vec![0u64; n];
    let mut joint = Cells::new(4);
    let mut ends = Cells::new(4);
    let mut over = Cells::new(4);
    let mut last: Option<bool> = None;
    let mut lags = Lags::new(2, 40);
    for call in 0..calls {
        if !others.is_empty() && call % 100 == 99 {
            vec_mut(&mut m, &others[call as usize / 100 % others.len()], &args, p)?;
        }
        let v = vec_mut(&mut m, &g, &args, p)?;
        for i in 0..n {
            each[i] += v[i] as u64;
            lags.add(v[i] as usize);
            if i > 0 {
                joint.add(v[i - 1] as usize * 2 + v[i] as usize);
            }
        }
        if n > 2 {
            ends.add(v[0] as usize * 2 + v[n - 1] as usize);
        }
        if let Some(l) = last {
            over.add(l as usize * 2 + v[0] as usize);
        }
        last = Some(v[n - 1]);
    }
    let q = p / 100.0;
    for i in 0..n {
        ensure!(freq_ok(each[i], calls, q), "gene {} mutated in {} of {} calls at {} %", i, each[i], calls, p);
    }
    let pj = |k: usize| (if k & 2 != 0 { q } else { 1.0 - q }) * (if k & 1 != 0 { q } else { 1.0 - q });
    joint.check(pj, &format!("mutation of neighbouring genes at {} %", p))?;
    ends.check(pj, &format!("mutation of the first and last gene at {} %", p))?;
    over.check(pj, &format!("mutation of genes in successive calls at {} %", p))?;
    lags.check(|k| if k == 1 { q } else { 1.0 - q }, &format!("mutation of genes at {} %", p))?;
    c.nontrivial();
    Ok(())
}

// ================================================================ C19

#[derive(Clone, Copy, Debug, PartialEq)]
enum Maker {
    Creator,
    Coords,
    Vels,
    Vector,
}

/// A box creator as a closure returning the points of one call.
fn maker<T: num::NumCast + PartialOrd + Clone + Copy + 'static>(k: Maker, n: usize, iv: &[(T, T)]) -> Box<dyn FnMut() -> Vec<Vec<T>>> {
    let iv = iv.to_vec();
    match k {
        Maker::Creator => {
            let mut c = creation::vec_float::RandomCreator::new(n, iv);
            Box::new(move || c.create())
        }
        Maker::Coords => {
            let mut c = RandomCoordinatesInitializer::new(iv, n);
            Box::new(move || c.get_coordinates())
        }
        Maker::Vels => {
            let mut c = RandomVelocityInitializer::new(iv, n);
            Box::new(move || c.get_velocity())
        }
        Maker::Vector => {
            let mut c = RandomVectorCreator::new();
            // other boxes and other types with the same instance
            c.create_vec(&vec![(0u8, 200u8), (1, 2)]);
            c.create_vec(&vec![(-1.0f32, 5.0f32), (1.0, 2.0), (7.0, 9.0)]);
            Box::new(move || {
                let v = (0..n).map(|_| c.create_vec(&iv)).collect();
                c.create_vec(&vec![(-3.0f64, -2.0f64)]);
                let mut other = iv.clone();
                other.reverse();
                c.create_vec(&other);
                v
            })
        }
    }
}

const MAKERS: [Maker; 4] = [Maker::Creator, Maker::Coords, Maker::Vels, Maker::Vector];

fn box_t<T: num::NumCast + PartialOrd + Copy + Debug + 'static>(
    s: &mut Src,
    c: &mut Ctx,
    iv: &[(T, T)],
    finite: fn(T) -> bool,
    fresh: bool,
    zero: fn(T) -> bool,
) -> R
where
    T: num::Zero,
{
    let k = *s.pick(&MAKERS);
    let n = match s.n(12) {
        0 => s.r(1, 400),
        _ if iv.len() < 4 => {
            if s.n(30_000) == 29_999 {
                s.r(65_537, 70_000)
            } else {
                s.wide(1, 30, 20_000)
            }
        }
        _ => s.size(1, 30),
    };
    let n = if k != Maker::Creator && s.chance(5) { 0 } else { n };
    c.desc(|| format!("{:?} of {} points in {:?}", k, n, iv));
    let mut m = maker(k, n, iv);
    let calls = s.few(1, 3, 12);
    let mut prev: Vec<Vec<Vec<T>>> = vec![];
    for call in 0..calls {
        let pts = m();
        ensure!(pts.len() == n, "{:?}: {} points instead of {} in call {}", k, pts.len(), n, call);
        for p in &pts {
            ensure!(p.len() == iv.len(), "{:?}: point with {} coordinates for {} intervals", k, p.len(), iv.len());
            for (x, i) in p.iter().zip(iv) {
                ensure!(finite(*x) && *x >= i.0 && *x <= i.1, "{:?}: coordinate {:?} outside {:?}", k, x, i);
            }
        }
        if fresh && n * iv.len() >= 2 {
            for (o, q) in prev.iter().enumerate() {
                for (i, p) in pts.iter().enumerate() {
                    if iv.len() >= 2 || n >= 4 {
                        let same_point = p.iter().zip(&q[i]).all(|(a, b)| a == b);
                        ensure!(!same_point || iv.len() < 2, "{:?}: point {} of call {} is that of call {} again", k, i, call, o);
                    }
                }
                if pts.iter().zip(q).all(|(a, b)| a.iter().zip(b).all(|(x, y)| x == y)) {
                    return Err(format!("{:?}: call {} returned the points of call {} again", k, call, o));
                }
            }
            for i in 1..n {
                ensure!(
                    iv.len() < 2 || pts[i].iter().zip(&pts[i - 1]).any(|(a, b)| a != b),
                    "{:?}: points {} and {} of one call are equal",
                    k,
                    i - 1,
                    i
                );
            }
        }
        prev.push(pts);
    }
    // zero velocities
    let zn = s.wide(0, 60, 6_000);
    let dim = iv.len();
    let mut z = ZeroVelocityInitializer::new(dim, zn);
    for _ in 0..2 {
        let v: Vec<Vec<T>> = z.get_velocity();
        ensure!(v.len() == zn, "{} zero velocities instead of {}", v.len(), zn);
        for x in &v {
            ensure!(x.len() == dim && x.iter().all(|y| zero(*y)), "zero velocity {:?} in {} dimensions", x, dim);
        }
    }
    if n > 0 && !iv.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

fn box_fl<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let wide = s.flag();
    let dim = s.wide(1, 30, 600);
    let iv: Vec<(T, T)> = (0..dim).map(|_| if wide { gen::plain_interval(s) } else { gen::interval(s) }).collect();
    let st = gen_stream(s);
    let fresh = wide && st.mode == Mode::Seeded;
    st.install();
    // single coordinates of f32 boxes may collide
    box_t::<T>(s, c, &iv, |x| x.is_finite(), fresh && T::WIDTH == 64, |x| x == T::zero())
}

pub fn c19_box(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(6) {
        0 | 1 => box_fl::<f32>(s, c),
        2 | 3 => box_fl::<f64>(s, c),
        4 => {
            let iv: Vec<(i32, i32)> = (0..s.size(1, 10))
                .map(|_| {
                    let a = s.r(0, 2000) as i32 - 1000;
                    let w = if s.flag() { 5 } else { 100_000 };
                    (a, a + s.r(1, w) as i32)
                })
                .collect();
            gen_stream(s).install();
            box_t::<i32>(s, c, &iv, |_| true, false, |x| x == 0)
        }
        _ => {
            let iv: Vec<(u64, u64)> = (0..s.size(1, 10))
                .map(|_| {
                    let a = s.r(0, 2000) as u64;
                    let w = if s.flag() { 5 } else { 1 << 40 };
                    (a, a + s.r(1, w) as u64)
                })
                .collect();
            gen_stream(s).install();
            box_t::<u64>(s, c, &iv, |_| true, false, |x| x == 0)
        }
    }
}

pub fn c19_reject(s: &mut Src, c: &mut Ctx) -> R {
    let dim = s.size(1, 12);
    let mut iv: Vec<(f64, f64)> = (0..dim).map(|_| gen::plain_interval(s)).collect();
    let bad = s.r(0, dim - 1);
    let k = *s.pick(&MAKERS);
    let mut n = s.size(1, 20);
    let why = match s.n(if k == Maker::Creator { 4 } else { 2 }) {
        0 => {
            iv[bad].1 = iv[bad].0;
            "degenerate interval"
        }
        1 if s.n(3) == 2 => {
            let x = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]);
            if s.flag() {
                iv[bad].0 = x;
            } else {
                iv[bad].1 = x;
            }
            "non-finite interval"
        }
        1 => {
            iv[bad] = match s.n(3) {
                0 => (iv[bad].1, iv[bad].0),
                1 => (up(iv[bad].0), iv[bad].0),
                _ => (iv[bad].0, iv[bad].0 - 1e9),
            };
            "inverted interval"
        }
        2 => {
            iv.clear();
            "empty interval list"
        }
        _ => {
            n = 0;
            "empty population"
        }
    };
    c.desc(|| format!("{:?} of {} points in {:?}: {}", k, n, iv, why));
    let r = no_panic(|| maker(k, n, &iv)());
    ensure!(r.is_err(), "{:?}: {} accepted, it made {}", k, why, short(&r.unwrap()));
    // the same with single precision
    let iv32: Vec<(f32, f32)> = iv.iter().map(|i| (i.0 as f32, i.1 as f32)).collect();
    if why != "inverted interval" || iv32.iter().any(|i| i.0 >= i.1) {
        let r = no_panic(|| maker(k, n, &iv32)());
        ensure!(r.is_err(), "{:?}: {} accepted, it made {}", k, why, short(&r.unwrap()));
    }
    c.nontrivial();
    Ok(())
}

fn bin<T: Fl>(x: T, iv: (T, T), k: usize) -> usize {
    let u = (x.f() - iv.0.f()) / (iv.1.f() - iv.0.f());
    ((u * k as f64) as usize).min(k - 1)
}

/// Uniformity and independence of vectors filling a box, from successive calls.
struct BoxStat {
    each: Vec<Cells>,
    fine: Vec<Cells>,
    joint: Vec<Cells>,
    ends: Cells,
    points: Cells,
    lags: Lags,
    last: Option<Vec<usize>>,
}

impl BoxStat {
    fn new(dim: usize) -> Self {
        BoxStat {
            each: (0..dim).map(|_| Cells::new(16)).collect(),
            fine: (0..dim).map(|_| Cells::new(4)).collect(),
            joint: (0..dim).map(|_| Cells::new(16)).collect(),
            ends: Cells::new(16),
            points: Cells::new(16),
            lags: Lags::new(4, 40),
            last: None,
        }
    }
    fn add<T: Fl>(&mut self, p: &[T], iv: &[(T, T)]) {
        let b: Vec<usize> = p.iter().zip(iv).map(|(x, i)| bin(*x, *i, 4)).collect();
        b.iter().for_each(|x| self.lags.add(*x));
        for (i, x) in p.iter().enumerate() {
            self.each[i].add(bin(*x, iv[i], 16));
            if let Some(l) = &self.last {
                self.points.add(l[i] * 4 + b[i]);
            }
            // the outer sixteenths divided again
            let f = bin(*x, iv[i], 64);
            if f < 2 {
                self.fine[i].add(f);
            } else if f >= 62 {
                self.fine[i].add(f - 60);
            }
            if i > 0 {
                self.joint[i].add(b[i - 1] * 4 + b[i]);
            }
        }
        if b.len() > 2 {
            self.ends.add(b[0] * 4 + b[b.len() - 1]);
        }
        self.last = Some(b);
    }
    fn check(&self, what: &str) -> R {
        for (i, x) in self.each.iter().enumerate() {
            x.check(|_| 1.0 / 16.0, &format!("{}, coordinate {} (sixteenths of its interval)", what, i))?;
        }
        for (i, x) in self.fine.iter().enumerate() {
            x.check(|_| 0.25, &format!("{}, coordinate {} (both ends of its interval)", what, i))?;
        }
        let u = 1.0 / 16.0;
        let mut all = Cells::new(16);
        for (i, x) in self.joint.iter().enumerate() {
            x.check(|_| u, &format!("{}, coordinates {} and {} (quarters)", what, i.wrapping_sub(1), i))?;
            for (a, b) in all.counts.iter_mut().zip(&x.counts) {
                *a += b;
            }
            all.n += x.n;
        }
        all.check(|_| u, &format!("{}, neighbouring coordinates (quarters)", what))?;
        self.ends.check(|_| u, &format!("{}, first and last coordinate (quarters)", what))?;
        self.points.check(|_| u, &format!("{}, a coordinate of successive points (quarters)", what))?;
        self.lags.check(|_| 0.25, &format!("{}, coordinates in the order of creation (quarters)", what))
    }
}

/// Interval with many representable numbers.
fn stat_interval<T: Fl>(s: &mut Src) -> (T, T) {
    match s.n(4) {
        0 => {
            let sc = 2f64.powi(s.r(0, 60) as i32 - 30);
            (T::of(-sc), T::of(sc * 3.0))
        }
        1 => (T::of(-(s.r(1, 2000) as f64)), T::of(0.0)),
        _ => gen::plain_interval(s),
    }
}

fn uniform_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    seeded(s);
    let wide = s.chance(8);
    let dim = if wide { s.r(7, 150) } else { s.r(1, 6) };
    let mut iv: Vec<(T, T)> = (0..dim).map(|_| stat_interval(s)).collect();
    if s.chance(25) {
        // the same interval everywhere
        let first = iv[0];
        iv.iter_mut().for_each(|i| *i = first);
    }
    let k = *s.pick(&MAKERS);
    let n = if s.chance(4) { s.r(40, 3_000) } else { s.size(1, 40) };
    let draws = if wide { 3_000 } else { 20_000 };
    c.desc(|| format!("distribution of {:?} of {} {} points in {:?}", k, n, T::NAME, iv));
    let mut m = maker(k, n, &iv);
    let mut st = BoxStat::new(dim);
    let mut total = 0;
    while total < draws {
        for p in m() {
            ensure!(p.len() == dim, "point with {} coordinates", p.len());
            st.add(&p, &iv);
            total += 1;
        }
    }
    st.check(&format!("{:?} in {:?}", k, iv))?;
    c.nontrivial();
    Ok(())
}

pub fn c19_uniform(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        uniform_t::<f32>(s, c)
    } else {
        uniform_t::<f64>(s, c)
    }
}

// ================================================================ C22

fn gen_limit<T: Fl>(s: &mut Src) -> T {
    match s.weighted(&[5, 3, 1, 1]) {
        0 => T::of(s.r(1, 400) as f64 / 8.0),
        1 => gen::finite::<T>(s).abs(),
        2 => T::zero(),
        _ => T::max_value(),
    }
}

fn c22_dims_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let dim = s.wide(1, 30, 400);
    let lim: Vec<T> = (0..dim).map(|_| gen_limit(s)).collect();
    let mut m = MaxVelocityDimensions::new(lim.clone());
    for _ in 0..s.few(1, 3, 30) {
        let v: Vec<T> = (0..dim)
            .map(|i| match s.weighted(&[5, 1, 1, 1, 1, 1]) {
                0 => gen::finite(s),
                1 => lim[i],
                2 => -lim[i],
                3 => up(lim[i]),
                4 => down(-lim[i]),
                _ => *s.pick(&[T::infinity(), T::neg_infinity()]),
            })
            .collect();
        c.desc(|| format!("velocity {:?} limited per dimension to {:?}", v, lim));
        let out = m.correct_velocity(v.clone());
        ensure!(out.len() == dim, "velocity with {} components became one with {}", dim, out.len());
        for i in 0..dim {
            if v[i].abs() <= lim[i] {
                ensure!(out[i] == v[i], "component {:?} with limit {:?} became {:?}", v[i], lim[i], out[i]);
            } else {
                let want = if v[i] > T::zero() { lim[i] } else { -lim[i] };
                ensure!(out[i] == want, "component {:?} with limit {:?} became {:?} instead of {:?}", v[i], lim[i], out[i], want);
                c.nontrivial();
            }
        }
        let again = m.correct_velocity(out.clone());
        ensure!(
            again.len() == dim && again.iter().zip(&out).all(|(a, b)| a == b),
            "limiting twice changes {:?} to {:?}",
            out,
            again
        );
    }
    Ok(())
}

/// Euclidean norm relative to the power of two `k` returned with it.
fn norm_of<T: Fl>(v: &[T]) -> (f64, i32) {
    let m = v.iter().fold(0.0f64, |a, x| a.max(x.f().abs()));
    if m == 0.0 {
        return (0.0, 0);
    }
    let mut e = m.log2().floor() as i32;
    e = e.max(-1070).min(1020);
    let half = e / 2;
    let sc = |x: f64| x * 2f64.powi(-half) * 2f64.powi(-(e - half));
    let q: f64 = v.iter().map(|x| sc(x.f()) * sc(x.f())).sum();
    (q.sqrt(), e)
}

fn c22_abs_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let lim: T = gen_limit(s);
    let (v, lim) = c22_velocity(s, lim, true);
    let mut m = MaxVelocityAbs::new(lim);
    c22_abs_one(v, lim, &mut m, c)?;
    // more velocities, also of other dimensions, with the same instance
    for _ in 0..s.size(0, 6) {
        let (v, _) = c22_velocity(s, lim, false);
        c22_abs_one(v, lim, &mut m, c)?;
    }
    Ok(())
}

/// A velocity and the limit, which may be moved next to its norm.
fn c22_velocity<T: Fl>(s: &mut Src, lim: T, may_move: bool) -> (Vec<T>, T) {
    let mut lim = lim;
    let dim = s.wide(1, 30, 400);
    let style = s.n(4);
    let sparse = s.flag();
    let v: Vec<T> = (0..dim)
        .map(|_| {
            if sparse && s.flag() {
                return T::zero();
            }
            match style {
                0 => T::of((gen::unit(s) - 0.5) * 100.0),
                1 => gen::moderate(s),
                2 => gen::finite(s),
                _ => {
                    let big = T::max_value().f().log2() as usize - 2;
                    let e = s.r(0, big);
                    let e = if s.flag() { e as f64 } else { -(e as f64) };
                    T::of((gen::unit(s) - 0.5) * 2f64.powf(e))
                }
            }
        })
        .collect();
    let (nm, e) = norm_of(&v);
    if may_move && s.chance(25) && nm > 0.0 {
        // next to the norm
        let x = T::of(nm * 2f64.powi(e / 2) * 2f64.powi(e - e / 2));
        if x.is_finite() && x > T::zero() {
            lim = match s.n(4) {
                0 => x,
                1 => x * T::of(1.0 + 1e-3),
                2 => x * T::of(1.0 - 1e-3),
                _ => x * T::of(0.5),
            };
        }
    }
    (v, lim)
}

fn c22_abs_one<T: Fl>(v: Vec<T>, lim: T, m: &mut MaxVelocityAbs<T>, c: &mut Ctx) -> R {
    let dim = v.len();
    let (nm, e) = norm_of(&v);
    c.desc(|| format!("velocity {:?} limited to norm {:?}", v, lim));
    if !lim.is_finite() {
        return Ok(());
    }
    let tol = (dim as f64 + 8.0) * 4.0 * T::EPS;
    let out = m.correct_velocity(v.clone());
    ensure!(out.len() == dim, "velocity with {} components became one with {}", dim, out.len());
    // limit in the scale of the norm
    let sc = |x: f64| x * 2f64.powi(-(e / 2)) * 2f64.powi(-(e - e / 2));
    let l = sc(lim.f());
    let norm_representable = nm * (1.0 + tol) < sc(T::max_value().f());
    let tiny_norm = nm < sc(T::TINY) * 1e3;
    if !norm_representable || tiny_norm {
        // the norm itself is beyond the number range, or nearly zero
        c.label("norm near the ends of the number range");
        let (no, eo) = norm_of(&out);
        let no = no * 2f64.powi(eo / 2) * 2f64.powi(eo - eo / 2);
        ensure!(
            !(no > lim.f() * (1.0 + 1e-3) + T::TINY * 1e3) || !norm_representable,
            "velocity {:?} limited to norm {:?} became {:?}",
            v,
            lim,
            out
        );
        return Ok(());
    }
    if nm <= l * (1.0 - tol) || nm == 0.0 {
        ensure!(
            out.iter().zip(&v).all(|(a, b)| same(*a, *b) || *a == *b),
            "velocity {:?} does not exceed the limit {:?} but became {:?}",
            v,
            lim,
            out
        );
        c.label("below the limit");
    } else if nm >= l * (1.0 + tol) {
        if l / nm < T::TINY * 1e4 {
            c.label("limit below the precision of the velocity");
            return Ok(());
        }
        c.nontrivial();
        let k = l / nm;
        let mut dot = true;
        for (a, b) in v.iter().zip(&out) {
            let want = a.f() * k;
            let err = tol * want.abs() + (lim.f().max(1.0).min(T::max_value().f() / 8.0)) * T::from_b(1).f() * 4.0;
            if !((b.f() - want).abs() <= err) {
                dot = false;
            }
        }
        ensure!(dot, "velocity {:?} with norm {:e}*2^{} limited to {:?} became {:?}, expected factor {:e}", v, nm, e, lim, out, k);
        let again = m.correct_velocity(out.clone());
        for (a, b) in again.iter().zip(&out) {
            ensure!(
                (a.f() - b.f()).abs() <= 2.0 * tol * b.f().abs() + T::from_b(1).f() * 8.0 * lim.f().max(1.0).min(T::max_value().f() / 16.0),
                "limiting twice changes {:?} to {:?}",
                out,
                again
            );
        }
    } else {
        // on the limit: either
        for (a, b) in v.iter().zip(&out) {
            ensure!(
                (a.f() - b.f()).abs() <= 4.0 * tol * a.f().abs() + T::from_b(1).f() * 8.0 * lim.f().max(1.0).min(T::max_value().f() / 16.0),
                "velocity {:?} on the limit {:?} became {:?}",
                v,
                lim,
                out
            );
        }
        c.label("on the limit");
    }
    Ok(())
}

pub fn c22_dims(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c22_dims_t::<f32>(s, c)
    } else {
        c22_dims_t::<f64>(s, c)
    }
}

pub fn c22_abs(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c22_abs_t::<f32>(s, c)
    } else {
        c22_abs_t::<f64>(s, c)
    }
}

// ================================================================ C23

fn c23_boundary_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let dim = s.wide(1, 30, 400);
    let iv: Vec<(T, T)> = (0..dim)
        .map(|_| {
            if s.chance(5) {
                let v: T = gen::moderate(s);
                (v, v)
            } else {
                gen::interval(s)
            }
        })
        .collect();
    let mut m = MoveToBoundary::new(iv.clone());
    for _ in 0..s.few(1, 3, 30) {
        let p: Vec<T> = iv.iter().map(|i| gen::around(s, *i)).collect();
        c.desc(|| format!("position {:?} moved into {:?}", p, iv));
        let mut q = p.clone();
        m.post_move(&mut q);
        ensure!(q.len() == dim, "position with {} coordinates became one with {}", dim, q.len());
        for i in 0..dim {
            let (lo, hi) = iv[i];
            if !p[i].is_finite() {
                c.nontrivial();
                ensure!(q[i] >= lo && q[i] <= hi, "coordinate {:?} with interval {:?} became {:?}", p[i], iv[i], q[i]);
            } else {
                let want = if p[i] < lo {
                    lo
                } else if p[i] > hi {
                    hi
                } else {
                    p[i]
                };
                if want != p[i] {
                    c.nontrivial();
                }
                ensure!(q[i] == want, "coordinate {:?} with interval {:?} became {:?} instead of {:?}", p[i], iv[i], q[i], want);
            }
        }
    }
    Ok(())
}

pub fn c23_boundary(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c23_boundary_t::<f32>(s, c)
    } else {
        c23_boundary_t::<f64>(s, c)
    }
}

/// One call: true if teleported.
fn teleported<T: Fl>(m: &mut RandomTeleport<T>, p: &[T], iv: &[(T, T)], prob: f32) -> Result<Option<Vec<T>>, String> {
    let mut q = p.to_vec();
    m.post_move(&mut q);
    ensure!(q.len() == p.len(), "position with {} coordinates became one with {}", p.len(), q.len());
    let stayed = p.iter().zip(&q).filter(|(a, b)| same(**a, **b)).count();
    if stayed == p.len() {
        let out = p.iter().zip(iv).any(|(x, i)| !(*x >= i.0 && *x <= i.1));
        ensure!(prob < 1.0 || !out, "teleport with probability 1 left {:?} untouched", p);
        return Ok(None);
    }
    ensure!(prob > 0.0, "teleport with probability 0 moved {:?} to {:?}", p, q);
    for i in 0..p.len() {
        ensure!(
            q[i] >= iv[i].0 && q[i] <= iv[i].1,
            "teleport of {:?} in {:?} gives {:?}: coordinate {} is not in its interval",
            short(&p),
            short(&iv),
            short(&q),
            i
        );
    }
    Ok(Some(q))
}

/// A coordinate outside the interval.
fn outside<T: Fl>(s: &mut Src, iv: (T, T)) -> T {
    match s.n(4) {
        0 => T::nan(),
        1 => up(iv.1),
        2 => down(iv.0),
        _ => T::infinity(),
    }
}

fn gen_prob(s: &mut Src) -> f32 {
    match s.weighted(&[2, 2, 4, 2]) {
        0 => 0.0,
        1 => 1.0,
        2 => gen::unit(s) as f32,
        _ => *s.pick(&[0.01, 0.05, 0.5, 0.95, 0.99, 0.001, 0.999]),
    }
}

fn c23_teleport_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    gen_stream(s).install();
    let dim = s.wide(1, 30, 400);
    let iv: Vec<(T, T)> = (0..dim).map(|_| gen::interval(s)).collect();
    let prob = gen_prob(s);
    let mut m = RandomTeleport::new(iv.clone(), prob);
    c.desc(|| format!("teleport of {} with probability {} in {:?}", T::NAME, prob, iv));
    let (mut a, mut b) = (0, 0);
    for _ in 0..s.r(1, 20) {
        let out = s.flag();
        let p: Vec<T> = iv.iter().map(|i| if out { outside(s, *i) } else { gen::around(s, *i) }).collect();
        if teleported(&mut m, &p, &iv, prob)?.is_some() {
            a += 1
        } else {
            b += 1
        }
    }
    if (a > 0 && b > 0) || prob == 0.0 || prob == 1.0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c23_teleport(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c23_teleport_t::<f32>(s, c)
    } else {
        c23_teleport_t::<f64>(s, c)
    }
}

fn c23_dist_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    seeded(s);
    let wide = s.chance(8);
    let dim = if wide { s.r(6, 150) } else { s.r(1, 5) };
    let iv: Vec<(T, T)> = (0..dim).map(|_| stat_interval(s)).collect();
    let prob = gen_prob(s);
    c.desc(|| format!("distribution of teleports of {} with probability {} in {:?}", T::NAME, prob, iv));
    let mut m = RandomTeleport::new(iv.clone(), prob);
    let p: Vec<T> = iv.iter().map(|i| outside(s, *i)).collect();
    let n = if wide { 4_000u64 } else { 30_000u64 };
    let mut hits = 0;
    let mut st = BoxStat::new(dim);
    let mut lag = Cells::new(4);
    let mut after = Cells::new(8);
    let (mut last, mut last_bin): (Option<bool>, Option<usize>) = (None, None);
    for _ in 0..n {
        let t = teleported(&mut m, &p, &iv, prob)?;
        let hit = t.is_some();
        if let Some(l) = last {
            lag.add(l as usize * 2 + hit as usize);
        }
        if let Some(b) = last_bin.take() {
            after.add(b * 2 + hit as usize);
        }
        last = Some(hit);
        if let Some(q) = t {
            hits += 1;
            st.add(&q, &iv);
            last_bin = Some(bin(q[dim - 1], iv[dim - 1], 4));
        }
    }
    ensure!(freq_ok(hits, n, prob as f64), "{} teleports in {} calls with probability {}", hits, n, prob);
    st.check("teleport")?;
    let q = prob as f64;
    lag.check(
        |k| (if k & 2 != 0 { q } else { 1.0 - q }) * (if k & 1 != 0 { q } else { 1.0 - q }),
        "teleports in successive calls",
    )?;
    after.check(|k| 0.25 * if k & 1 != 0 { q } else { 1.0 - q }, "position and whether the next call teleports")?;
    c.nontrivial();
    Ok(())
}

pub fn c23_dist(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c23_dist_t::<f32>(s, c)
    } else {
        c23_dist_t::<f64>(s, c)
    }
}

pub fn c23_reject(s: &mut Src, c: &mut Ctx) -> R {
    let iv: Vec<(f64, f64)> = (0..s.size(1, 6)).map(|_| gen::plain_interval(s)).collect();
    let p: f32 = match s.n(6) {
        0 => -(gen::unit(s) as f32) - 1e-6,
        1 => 1.0 + gen::unit(s) as f32 + 1e-6,
        2 => up(1.0f32),
        3 => -f32::MIN_POSITIVE,
        4 => *s.pick(&[f32::INFINITY, f32::NEG_INFINITY, 100.0, 50.0, -1.0]),
        _ => {
            // valid ones are accepted
            let p = gen_prob(s);
            c.desc(|| format!("teleport probability {}", p));
            let r = no_panic(|| {
                RandomTeleport::new(iv.clone(), p);
            });
            ensure!(r.is_ok(), "teleport probability {} rejected", p);
            return Ok(());
        }
    };
    c.desc(|| format!("teleport probability {}", p));
    let r = no_panic(|| {
        let mut m = RandomTeleport::new(iv.clone(), p);
        m.post_move(&mut iv.iter().map(|i| i.0).collect());
    });
    ensure!(r.is_err(), "teleport probability {} accepted", p);
    c.nontrivial();
    Ok(())
}
