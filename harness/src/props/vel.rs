//! Velocity rules of the swarm: C20, C21.

use crate::common::*;
use crate::engine::{no_panic, Ctx, Src, R};
use crate::gen::{self, Fl};
use crate::props::ops::{freq_ok, Cells};
use crate::props::run::short;
use crate::pso::{self, CoordS, InertS, POp, PsoOpts, PsoSpec, VelS};
use optlib::particleswarm::velocitycalc::*;
use rand::rngs::thread::Mode;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

fn rank(x: f64, y: f64) -> Ordering {
    match (x.is_finite(), y.is_finite()) {
        (false, false) => Ordering::Equal,
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        _ => x.partial_cmp(&y).unwrap(),
    }
}

/// Points of the best (worst) value seen, without repetition.
#[derive(Clone)]
struct Extreme<T> {
    dir: Ordering,
    value: Option<f64>,
    points: Vec<Vec<T>>,
    keys: HashSet<Key>,
}

impl<T: Fl> Extreme<T>
where
    Vec<T>: Pt,
{
    fn best() -> Self {
        Extreme { dir: Ordering::Less, value: None, points: vec![], keys: HashSet::new() }
    }
    fn worst() -> Self {
        Extreme { dir: Ordering::Greater, value: None, points: vec![], keys: HashSet::new() }
    }
    fn see(&mut self, p: &Vec<T>, v: f64) {
        let o = match self.value {
            None => self.dir,
            Some(x) => rank(v, x),
        };
        if o == self.dir {
            self.value = Some(v);
            self.points.clear();
            self.keys.clear();
        }
        if o == self.dir || o == Ordering::Equal {
            if self.keys.insert(p.key()) {
                self.points.push(p.clone());
            }
        }
    }
}

/// What one call of the velocity rule has to work with.
struct Sit<'a, T> {
    run: usize,
    iter: usize,
    k: usize,
    v: &'a Vec<T>,
    x: &'a Vec<T>,
    pb: &'a [Vec<T>],
    pw: &'a [Vec<T>],
    cb: &'a [Vec<T>],
    cw: &'a [Vec<T>],
    gb: &'a [Vec<T>],
    gw: &'a [Vec<T>],
    out: &'a Vec<T>,
}

/// Puts the memories of the initial positions (in the order of their evaluation) into the order
/// of the particles.
fn in_order<T: Fl>(ex: &mut Vec<Extreme<T>>, members: &[(Vec<T>, f64, bool)])
where
    Vec<T>: Pt,
{
    let mut rest = ex.clone();
    let mut out = vec![];
    for (p, v, _) in members {
        match rest.iter().position(|e| e.keys.contains(&p.key()) && e.value.map(vkey) == Some(vkey(*v))) {
            Some(n) => out.push(rest.remove(n)),
            None => return,
        }
    }
    if rest.is_empty() {
        *ex = out;
    }
}

/// Follows the trace and shows every call of the rule, with the memory a correct swarm has.
fn walk<T: Fl, F: FnMut(&Sit<T>) -> R>(evs: &[Ev<Vec<T>>], mut f: F) -> R
where
    Vec<T>: Pt,
{
    let mut postv: Vec<u32> = vec![];
    let mut v: Vec<Vec<T>> = vec![];
    let (mut pb, mut pw): (Vec<Extreme<T>>, Vec<Extreme<T>>) = (vec![], vec![]);
    let (mut gb, mut gw): (Extreme<T>, Extreme<T>) = (Extreme::best(), Extreme::worst());
    let mut run = 0;
    let mut iter = 0;
    let mut i = 0;
    while i < evs.len() {
        match &evs[i] {
            Ev::Set("postv", ids) => postv = ids.clone(),
            Ev::Call("find_min") => {
                run += 1;
                iter = 0;
                pb.clear();
                pw.clear();
                gb = Extreme::best();
                gw = Extreme::worst();
            }
            Ev::Vels { out, .. } => v = out.clone(),
            Ev::Goal(p, val) => {
                // an initial position
                let (mut b, mut w) = (Extreme::best(), Extreme::worst());
                b.see(p, *val);
                w.see(p, *val);
                pb.push(b);
                pw.push(w);
                gb.see(p, *val);
                gw.see(p, *val);
            }
            Ev::Stop { ans: false, .. } => {
                let from = i + 1;
                let mut to = from;
                while to < evs.len() && !matches!(evs[to], Ev::Stop { .. } | Ev::Ret(_)) {
                    to += 1;
                }
                let part = &evs[from..to];
                let n = pb.len();
                let mut k = 0;
                let mut moved = 0;
                for e in part {
                    match e {
                        Ev::Vel { sw, at, at_goal, out, .. } => {
                            ensure!(k < n, "the velocity rule ran more often than there are particles");
                            if k == 0 && iter == 0 {
                                in_order(&mut pb, &sw.members);
                                in_order(&mut pw, &sw.members);
                            }
                            // where the swarm says its members are
                            let (mut cb, mut cw) = (Extreme::best(), Extreme::worst());
                            for (p, g, _) in &sw.members {
                                cb.see(p, *g);
                                cw.see(p, *g);
                            }
                            let _ = at_goal;
                            let one;
                            let g = match &sw.best {
                                Some((p, _)) => {
                                    ensure!(
                                        gb.keys.contains(&p.key()),
                                        "iteration {}: the swarm's best position is {} but the best value so far is {:?} at {}",
                                        iter,
                                        short(p),
                                        gb.value,
                                        short(&gb.points)
                                    );
                                    one = vec![p.clone()];
                                    &one[..]
                                }
                                None => &gb.points[..],
                            };
                            ensure!(v[k].len() == at.len(), "harness: velocity of another dimension");
                            f(&Sit {
                                run,
                                iter,
                                k,
                                v: &v[k],
                                x: at,
                                pb: &pb[k].points,
                                pw: &pw[k].points,
                                cb: &cb.points,
                                cw: &cw.points,
                                gb: g,
                                gw: &gw.points,
                                out,
                            })?;
                            v[k] = out.clone();
                            k += 1;
                        }
                        Ev::Goal(p, val) => {
                            ensure!(moved < n, "more evaluations than particles in an iteration");
                            pb[moved].see(p, *val);
                            pw[moved].see(p, *val);
                            moved += 1;
                        }
                        _ => {}
                    }
                }
                ensure!(k == n && moved == n, "{} velocities and {} evaluations for {} particles", k, moved, n);
                if let Some(last) = postv.last() {
                    let c: Vec<&Vec<T>> = part
                        .iter()
                        .filter_map(|e| match e {
                            Ev::PostV { id, out, .. } if id == last => Some(out),
                            _ => None,
                        })
                        .collect();
                    ensure!(c.len() == n, "{} velocity corrections for {} particles", c.len(), n);
                    for k in 0..n {
                        v[k] = c[k].clone();
                    }
                }
                for e in part {
                    if let Ev::Goal(p, val) = e {
                        gb.see(p, *val);
                        gw.see(p, *val);
                    }
                }
                iter += 1;
                i = to;
                continue;
            }
            _ => {}
        }
        i += 1;
    }
    Ok(())
}

/// One coordinate of the documented equation: xi * (w * v + sum of coef * r * (point - x)).
struct Eqn {
    fixed: f64,
    /// xi * coef * (point - x)
    terms: Vec<f64>,
    tol: f64,
    ok: bool,
}

fn inertia_of<T: Fl>(i: &InertS<T>, t: usize) -> f64 {
    match i {
        InertS::Const(w) => w.f(),
        InertS::Linear(a, b, h) => b.f() - (b.f() - a.f()) * t.min(*h) as f64 / *h as f64,
    }
}

/// Combinations of equally good remembered points.
fn choices<'a, T>(sit: &'a Sit<T>, rule: &VelS<T>) -> Vec<Vec<&'a Vec<T>>> {
    let sets: Vec<&[Vec<T>]> = match rule {
        VelS::Neg(_) => vec![sit.pb, sit.cb, sit.gb, sit.pw, sit.cw, sit.gw],
        _ => vec![sit.pb, sit.gb],
    };
    let mut out: Vec<Vec<&Vec<T>>> = vec![vec![]];
    for s in sets {
        if out.len() * s.len() > 128 {
            return vec![];
        }
        let mut next = vec![];
        for o in &out {
            for p in s {
                let mut o = o.clone();
                o.push(p);
                next.push(o);
            }
        }
        out = next;
    }
    out
}

fn equation<T: Fl>(rule: &VelS<T>, sit: &Sit<T>, pts: &[&Vec<T>], i: usize) -> Eqn {
    let (xi, w, coefs): (f64, f64, Vec<f64>) = match rule {
        VelS::Classic(a, b) => (1.0, 1.0, vec![a.f(), b.f()]),
        VelS::Canon(a, b, al) => (2.0 * al.f() / (a.f() + b.f() - 2.0), 1.0, vec![a.f(), b.f()]),
        VelS::Inertia(a, b, w) => (1.0, inertia_of(w, sit.iter), vec![a.f(), b.f()]),
        VelS::Neg(p) => (p[6].f(), 1.0, vec![p[0].f(), p[1].f(), p[2].f(), -p[3].f(), -p[4].f(), -p[5].f()]),
        VelS::Script { .. } => unreachable!(),
    };
    let v = sit.v[i].f();
    let x = sit.x[i].f();
    let mut mag = v.abs() * w.abs().max(1.0);
    let terms: Vec<f64> = coefs
        .iter()
        .zip(pts)
        .map(|(c, p)| {
            mag += (c.abs() + 1e-3) * (p[i].f().abs() + x.abs());
            xi * c * (p[i].f() - x)
        })
        .collect();
    let mag = mag * xi.abs().max(1.0);
    Eqn {
        fixed: xi * w * v,
        terms,
        tol: 24.0 * T::EPS * mag + T::from_b(1).f() * 64.0,
        ok: mag < T::max_value().f() / 1e4,
    }
}

fn opts(pop: usize, iters: usize) -> PsoOpts {
    PsoOpts { custom: false, wild: false, empty: false, max_pop: pop, max_iters: iters, ..Default::default() }
}

fn c20_spec<T: Fl>(s: &mut Src, pop: usize, iters: usize) -> PsoSpec<T>
where
    Vec<T>: Pt,
{
    let mut o = opts(pop, iters);
    o.plain_intervals = s.flag();
    let mut sp = pso::gen_spec::<T>(s, &o);
    if let (VelS::Neg(p), true) = (&mut sp.vel, s.flag()) {
        // few terms
        for j in 0..6 {
            if s.flag() {
                p[j] = T::zero();
            }
        }
    }
    if let CoordS::Lib(n) = &mut sp.coords {
        *n += 1;
    }
    sp.script.insert(0, POp::Find { iters: 3 });
    sp.loggers = s.n(2) as usize;
    sp
}

fn c20_constant_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let mut sp = c20_spec::<T>(s, 14, 12);
    let w = match s.weighted(&[2, 2, 3]) {
        0 => 0,
        1 => u64::MAX,
        _ => s.word(),
    };
    sp.stream = StreamS { mode: Mode::Constant(w), seed: 0 };
    // teleports and initial positions draw the same number
    let (r, rtol) = match w {
        0 => (0.0, 0.0),
        u64::MAX => (1.0, 0.0),
        _ => (w as f64 / 2f64.powi(64), 3e-7),
    };
    if s.chance(80) {
        // different starting positions, then the constant
        sp.stream = StreamS { mode: Mode::Seeded, seed: s.word() };
        sp.script = spread(&sp.script, StreamS { mode: Mode::Constant(w), seed: 0 }, s);
    }
    c.desc(|| format!("every random number {} in {:?}", r, sp));
    let t = pso::run(&sp)?;
    let mut n = 0u64;
    let rule = sp.vel.clone();
    walk(&t.evs, |sit| {
        ensure!(sit.out.len() == sit.x.len(), "velocity with {} components in {} dimensions", sit.out.len(), sit.x.len());
        let ch = choices(sit, &rule);
        if ch.is_empty() {
            return Ok(());
        }
        let mut first = None;
        'next: for pts in &ch {
            let mut all = true;
            for i in 0..sit.x.len() {
                let e = equation(&rule, sit, pts, i);
                let out = sit.out[i].f();
                if !e.ok {
                    continue;
                }
                let want: f64 = e.fixed + e.terms.iter().map(|t| t * r).sum::<f64>();
                let tol = e.tol + rtol * e.terms.iter().map(|t| t.abs()).sum::<f64>();
                if !((out - want).abs() <= tol) {
                    all = false;
                    if first.is_none() {
                        first = Some((i, want, out));
                    }
                    continue 'next;
                }
                if e.terms.iter().any(|t| t.abs() > 1e3 * tol) || (r == 0.0 && e.fixed != 0.0) {
                    n += 1;
                }
            }
            if all {
                return Ok(());
            }
        }
        let (i, want, out) = first.unwrap();
        Err(format!(
            "run {} iteration {} particle {} coordinate {}: rule {:?} with every random factor {} gave {:e}, the equation gives {:e} \
             (x {}, v {}, personal best {}, swarm best {})",
            sit.run,
            sit.iter,
            sit.k,
            i,
            rule,
            r,
            out,
            want,
            short(sit.x),
            short(sit.v),
            short(&sit.pb),
            short(&sit.gb)
        ))
    })?;
    c.count("coordinates checked", n);
    if n > 20 {
        c.nontrivial();
    }
    Ok(())
}

/// Installs the stream after the initial iteration of every run: find_min does no iteration,
/// then the stream changes and the run is resumed.
fn spread<T: Fl>(script: &[POp<T>], st: StreamS, s: &mut Src) -> Vec<POp<T>> {
    let mut out = vec![];
    for op in script {
        match op {
            POp::Find { iters } => {
                let seed = s.word();
                out.push(POp::Stream(StreamS { mode: Mode::Seeded, seed }));
                out.push(POp::Find { iters: 0 });
                // another stream in every run
                let seed = crate::engine::mix(st.seed ^ ((out.len() as u64) << 32));
                out.push(POp::Stream(StreamS { mode: st.mode.clone(), seed }));
                out.push(POp::Next { iters: *iters });
            }
            o => out.push(o.clone()),
        }
    }
    out
}

pub fn c20_constant(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c20_constant_t::<f32>(s, c)
    } else {
        c20_constant_t::<f64>(s, c)
    }
}

/// Factors 0 and 1 only: the velocity must be one of the sums of subsets of the terms,
/// and the subsets fair and independent.
fn c20_subset_t<T: Fl>(s: &mut Src, c: &mut Ctx, big: bool) -> R
where
    Vec<T>: Pt,
{
    let mut sp = if big { c20_spec::<T>(s, 14, 25) } else { c20_spec::<T>(s, 10, 10) };
    if big {
        if let CoordS::Lib(n) = &mut sp.coords {
            *n = s.r(5, 14);
        }
        let wide = s.chance(15);
        let dim = if wide { s.r(7, 40) } else { s.r(2, 6) };
        sp.intervals = (0..dim).map(|_| gen::plain_interval(s)).collect();
        sp.vels = pso::VelInitS::Zero;
        sp.postv = vec![];
        sp.moves = vec![];
        if s.flag() {
            sp.postv.push(pso::PostVS::Abs(T::of(10.0)));
        }
        let iters = if wide { s.r(20, 60) as u64 } else { 25 };
        sp.script = vec![POp::Find { iters }, POp::Find { iters }];
    }
    sp.stream = StreamS { mode: Mode::Seeded, seed: s.word() };
    sp.script = spread(&sp.script, StreamS { mode: Mode::TwoValued, seed: s.word() }, s);
    c.desc(|| format!("random factors 0 and 1 in {:?}", sp));
    let t = pso::run(&sp)?;
    let rule = sp.vel.clone();
    let mut n = 0u64;
    // factors that could be read off: (run, iter, particle, coordinate) -> (active terms, their factors)
    let mut bits: HashMap<(usize, usize, usize, usize), (u8, u8)> = HashMap::new();
    walk(&t.evs, |sit| {
        ensure!(sit.out.len() == sit.x.len(), "velocity with {} components in {} dimensions", sit.out.len(), sit.x.len());
        let ch = choices(sit, &rule);
        if ch.is_empty() {
            return Ok(());
        }
        let mut found = false;
        let mut bad = 0;
        for pts in &ch {
            let mut all = true;
            for i in 0..sit.x.len() {
                let e = equation(&rule, sit, pts, i);
                if !e.ok {
                    continue;
                }
                let m = e.terms.len();
                let out = sit.out[i].f();
                let act: Vec<usize> = (0..m).filter(|j| e.terms[*j] != 0.0).collect();
                let mut hit = None;
                let mut sums: Vec<f64> = Vec::with_capacity(1 << act.len());
                for set in 0..1usize << act.len() {
                    let mut x = e.fixed;
                    for (b, j) in act.iter().enumerate() {
                        if set >> b & 1 == 1 {
                            x += e.terms[*j];
                        }
                    }
                    if (out - x).abs() <= e.tol {
                        hit = Some(set);
                    }
                    sums.push(x);
                }
                match hit {
                    None => {
                        all = false;
                        bad = i;
                        break;
                    }
                    Some(set) => {
                        if act.is_empty() || ch.len() > 1 {
                            continue;
                        }
                        sums.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        if sums.windows(2).all(|w| w[1] - w[0] > 3.0 * e.tol) {
                            let (mut mask, mut val) = (0u8, 0u8);
                            for (b, j) in act.iter().enumerate() {
                                mask |= 1 << j;
                                if set >> b & 1 == 1 {
                                    val |= 1 << j;
                                }
                            }
                            bits.insert((sit.run, sit.iter, sit.k, i), (mask, val));
                            n += 1;
                        }
                    }
                }
            }
            if all {
                found = true;
                break;
            }
        }
        ensure!(
            found,
            "run {} iteration {} particle {} coordinate {}: rule {:?} gave {:?}, which no choice of factors 0 and 1 gives \
             (x {}, v {}, personal best {}, worst {}, swarm best {}, worst {})",
            sit.run,
            sit.iter,
            sit.k,
            bad,
            rule,
            sit.out[bad],
            short(sit.x),
            short(sit.v),
            short(&sit.pb),
            short(&sit.pw),
            short(&sit.gb),
            short(&sit.gw)
        );
        Ok(())
    })?;
    // fair and independent
    let mut one = [[0u64; 2]; 8];
    let mut pair: HashMap<(usize, usize, usize), (u64, u64)> = HashMap::new();
    // within one coordinate, iteration or particle: (which, its number, term)
    let mut ones: HashMap<(usize, usize, usize), (u64, u64)> = HashMap::new();
    let mut within: HashMap<(usize, usize, usize, usize), (u64, u64)> = HashMap::new();
    // coordinates, iterations or particles at a distance: (which, distance, term, term)
    let mut apart: HashMap<(usize, usize, usize, usize), (u64, u64)> = HashMap::new();
    if big {
        for (at, (mask, val)) in &bits {
            let (run, iter, k, i) = *at;
            for d in 2..=32 {
                for (w, o) in [(0, (run, iter, k, i + d)), (1, (run, iter + d, k, i)), (2, (run, iter, k + d, i))] {
                    if let Some((m2, v2)) = bits.get(&o) {
                        for j in (0..6).filter(|j| mask >> j & 1 == 1) {
                            for l in (0..6).filter(|l| m2 >> l & 1 == 1) {
                                let e = apart.entry((w, d, j, l)).or_default();
                                e.0 += 1;
                                e.1 += (val >> j ^ v2 >> l) as u64 & 1;
                            }
                        }
                    }
                }
            }
        }
    }
    for (at, (mask, val)) in &bits {
        let (run, iter, k, i) = *at;
        for j in 0..6 {
            if mask >> j & 1 == 1 {
                one[j][(val >> j & 1) as usize] += 1;
                for (w, at) in [(0, i), (1, iter), (2, k)] {
                    let e = ones.entry((w, at, j)).or_default();
                    e.0 += 1;
                    e.1 += (val >> j) as u64 & 1;
                }
                for l in 0..j {
                    if mask >> l & 1 == 1 {
                        let e = pair.entry((0, j, l)).or_default();
                        e.0 += 1;
                        e.1 += (val >> j ^ val >> l) as u64 & 1;
                        for (w, at) in [(0, i), (1, iter), (2, k)] {
                            let e = within.entry((w, at, j, l)).or_default();
                            e.0 += 1;
                            e.1 += (val >> j ^ val >> l) as u64 & 1;
                        }
                    }
                }
                for (rel, o) in [(1, (run, iter, k, i + 1)), (2, (run, iter, k + 1, i)), (3, (run, iter + 1, k, i)), (4, (run + 1, iter, k, i))] {
                    if let Some((m2, v2)) = bits.get(&o) {
                        for l in 0..6 {
                            if m2 >> l & 1 == 1 {
                                let e = pair.entry((rel, j, l)).or_default();
                                e.0 += 1;
                                e.1 += (val >> j ^ v2 >> l) as u64 & 1;
                            }
                        }
                    }
                }
            }
        }
    }
    for j in 0..6 {
        let m = one[j][0] + one[j][1];
        ensure!(freq_ok(one[j][1], m, 0.5), "factor of term {} was 1 in {} of {} cases (0 or 1 with equal chance)", j, one[j][1], m);
    }
    let names = ["terms", "coordinates", "particles", "iterations", "runs"];
    let mut ks: Vec<_> = pair.iter().collect();
    ks.sort();
    for ((rel, j, l), (m, d)) in ks {
        ensure!(
            freq_ok(*d, *m, 0.5),
            "factors of terms {} and {} of neighbouring {} differ in {} of {} cases instead of half",
            j,
            l,
            names[*rel],
            d,
            m
        );
    }
    let kinds = ["coordinate", "iteration", "particle"];
    let mut ks: Vec<_> = ones.iter().collect();
    ks.sort();
    for ((w, at, j), (m, d)) in ks {
        ensure!(freq_ok(*d, *m, 0.5), "factor of term {} in {} {} was 1 in {} of {} cases (0 or 1 with equal chance)", j, kinds[*w], at, d, m);
    }
    let mut ks: Vec<_> = within.iter().collect();
    ks.sort();
    for ((w, at, j, l), (m, d)) in ks {
        ensure!(
            freq_ok(*d, *m, 0.5),
            "factors of terms {} and {} in {} {} differ in {} of {} cases instead of half",
            j,
            l,
            kinds[*w],
            at,
            d,
            m
        );
    }
    let mut ks: Vec<_> = apart.iter().collect();
    ks.sort();
    for ((w, at, j, l), (m, d)) in ks {
        ensure!(
            freq_ok(*d, *m, 0.5),
            "factors of terms {} and {} of a {} {} further on differ in {} of {} cases instead of half",
            j,
            l,
            kinds[*w],
            at,
            d,
            m
        );
    }
    c.count("coordinates with every factor known", n);
    if n > if big { 300 } else { 20 } {
        c.nontrivial();
    }
    Ok(())
}

pub fn c20_subset(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c20_subset_t::<f32>(s, c, false)
    } else {
        c20_subset_t::<f64>(s, c, false)
    }
}

pub fn c20_independent(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c20_subset_t::<f32>(s, c, true)
    } else {
        c20_subset_t::<f64>(s, c, true)
    }
}

/// Any random numbers: between the extremes of the equation.
fn c20_hull_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let sp = c20_spec::<T>(s, 16, 14);
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let rule = sp.vel.clone();
    let mut n = 0u64;
    walk(&t.evs, |sit| {
        ensure!(sit.out.len() == sit.x.len(), "velocity with {} components in {} dimensions", sit.out.len(), sit.x.len());
        let ch = choices(sit, &rule);
        if ch.is_empty() {
            return Ok(());
        }
        let mut why = None;
        for pts in &ch {
            let mut all = true;
            for i in 0..sit.x.len() {
                let e = equation(&rule, sit, pts, i);
                if !e.ok {
                    continue;
                }
                let out = sit.out[i].f();
                let lo: f64 = e.fixed + e.terms.iter().map(|t| t.min(0.0)).sum::<f64>();
                let hi: f64 = e.fixed + e.terms.iter().map(|t| t.max(0.0)).sum::<f64>();
                if !(out >= lo - e.tol && out <= hi + e.tol) {
                    all = false;
                    why = Some((i, lo, hi, out));
                    break;
                }
                if hi - lo > e.tol {
                    n += 1;
                }
            }
            if all {
                return Ok(());
            }
        }
        let (i, lo, hi, out) = why.unwrap();
        Err(format!(
            "run {} iteration {} particle {} coordinate {}: rule {:?} gave {:e}, the equation allows {:e} to {:e} \
             (x {}, v {}, personal best {}, swarm best {})",
            sit.run,
            sit.iter,
            sit.k,
            i,
            rule,
            out,
            lo,
            hi,
            short(sit.x),
            short(sit.v),
            short(&sit.pb),
            short(&sit.gb)
        ))
    })?;
    c.count("coordinates checked", n);
    if n > 20 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c20_hull(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c20_hull_t::<f32>(s, c)
    } else {
        c20_hull_t::<f64>(s, c)
    }
}

/// One active term: its factor can be read off and must be uniform.
fn c20_uniform_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let dim = if s.chance(5) { s.r(6, 60) } else { s.r(2, 5) };
    let (z, k) = (T::zero(), T::of(s.r(4, 24) as f64 / 8.0));
    let second = s.flag();
    let (a, b) = if second { (z, k) } else { (k, z) };
    let vel = match s.n(4) {
        0 => VelS::Classic(a, b),
        1 => {
            let (a, b) = if second { (z, k + T::of(4.0)) } else { (k + T::of(4.0), z) };
            VelS::Canon(a, b, T::of(0.5))
        }
        2 => VelS::Inertia(a, b, InertS::Const(T::of(0.5))),
        _ => {
            let mut p = [z; 7];
            p[s.n(6) as usize] = k;
            p[6] = T::of(0.75);
            VelS::Neg(p)
        }
    };
    let mut sp = c20_spec::<T>(s, 4, 4);
    sp.intervals = vec![(T::of(-10.0), T::of(10.0)); dim];
    sp.coords = CoordS::Lib(s.r(10, 20));
    sp.vels = pso::VelInitS::Zero;
    sp.vel = vel;
    // shakes keep the particles away from their bests
    sp.moves = vec![pso::MoveS::Boundary, pso::MoveS::Teleport(0.3)];
    sp.postv = vec![pso::PostVS::Abs(T::of(5.0))];
    sp.goal = if s.flag() { GoalS::Sphere } else { GoalS::Rastrigin };
    sp.stream = StreamS { mode: Mode::Seeded, seed: s.word() };
    sp.script = vec![POp::Find { iters: 30 }];
    sp.loggers = 0;
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let rule = sp.vel.clone();
    let mut one = Cells::new(16);
    let mut nb = Cells::new(16);
    let mut pt = Cells::new(16);
    let mut it = Cells::new(16);
    let mut seen: HashMap<(usize, usize, usize), usize> = HashMap::new();
    walk(&t.evs, |sit| {
        let ch = choices(sit, &rule);
        if ch.len() != 1 {
            return Ok(());
        }
        for i in 0..dim {
            let e = equation(&rule, sit, &ch[0], i);
            let d: f64 = e.terms.iter().sum();
            if !e.ok || d.abs() < 3e3 * e.tol {
                continue;
            }
            let r = (sit.out[i].f() - e.fixed) / d;
            ensure!(r > -1e-3 && r < 1.001, "random factor {} outside [0, 1]", r);
            let bin = ((r * 16.0) as usize).min(15);
            one.add(bin);
            if let Some(o) = seen.get(&(sit.iter, sit.k, i.wrapping_sub(1))) {
                nb.add(o / 4 * 4 + bin / 4);
            }
            if let Some(o) = seen.get(&(sit.iter, sit.k.wrapping_sub(1), i)) {
                pt.add(o / 4 * 4 + bin / 4);
            }
            if let Some(o) = seen.get(&(sit.iter.wrapping_sub(1), sit.k, i)) {
                it.add(o / 4 * 4 + bin / 4);
            }
            seen.insert((sit.iter, sit.k, i), bin);
        }
        Ok(())
    })?;
    // rounding moves at most a thousandth of the values into the next bin
    let tol = 2e-3;
    for (cells, what) in [
        (&one, "random factor (sixteenths of [0, 1])"),
        (&nb, "random factors of neighbouring coordinates (quarters)"),
        (&pt, "random factors of neighbouring particles (quarters)"),
        (&it, "random factors of successive iterations (quarters)"),
    ] {
        for (i, k) in cells.counts.iter().enumerate() {
            let p = 1.0 / 16.0;
            let q = *k as f64 / cells.n.max(1) as f64;
            let p = if q > p { p * (1.0 + tol) } else { p * (1.0 - tol) };
            ensure!(
                freq_ok(*k, cells.n, p),
                "{}: cell {} holds {} of {} factors instead of a sixteenth",
                what,
                i,
                k,
                cells.n
            );
        }
    }
    c.count("factors", one.n);
    if one.n > 300 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c20_uniform(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c20_uniform_t::<f32>(s, c)
    } else {
        c20_uniform_t::<f64>(s, c)
    }
}

fn c20_reject_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let four = T::of(4.0);
    let mut a = match s.n(4) {
        0 => T::of(2.0),
        1 => T::of(s.r(0, 32) as f64 / 8.0),
        2 => T::of(-(gen::unit(s))),
        _ => T::of(gen::unit(s) * 8.0),
    };
    let mut b = match s.n(6) {
        0 => four - a,
        1 => up_from(four) - a,
        2 => T::of(gen::unit(s) * 4.0),
        3 => T::of(4.0 + gen::unit(s)),
        4 => T::of(-gen::unit(s)),
        _ => T::nan(),
    };
    if s.flag() {
        std::mem::swap(&mut a, &mut b);
    }
    let al = match s.n(7) {
        0 => T::zero(),
        1 => T::one(),
        2 => gen::up(T::zero()),
        3 => gen::down(T::one()),
        4 => T::of(gen::unit(s) * 3.0 - 1.0),
        5 => gen::any(s),
        _ => T::of(s.r(1, 99) as f64 / 100.0),
    };
    c.desc(|| format!("canonical rule of {} with {:?}, {:?}, alpha {:?}", T::NAME, a, b, al));
    let ok = no_panic(|| {
        CanonicalVelocityCalculator::new(a, b, al);
    })
    .is_ok();
    let good = a + b > four && al > T::zero() && al < T::one();
    ensure!(
        ok == good,
        "canonical rule with phi {:?} + {:?} and alpha {:?} was {}",
        a,
        b,
        al,
        if ok { "accepted" } else { "rejected" }
    );
    if !good {
        c.nontrivial();
    }
    Ok(())
}

fn up_from<T: Fl>(x: T) -> T {
    x + x * T::of(T::EPS) * T::of(4.0)
}

pub fn c20_reject(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c20_reject_t::<f32>(s, c)
    } else {
        c20_reject_t::<f64>(s, c)
    }
}

// ================================================================ C21

fn c21_schedule_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R {
    let a = match s.n(4) {
        0 => T::of(s.r(0, 20) as f64 / 20.0),
        1 => gen::moderate(s),
        2 => T::of(0.4),
        _ => T::of(gen::unit(s)),
    };
    let b = match s.n(5) {
        0 => a,
        1 => a + T::of(gen::unit(s)),
        2 => gen::up(a),
        3 => T::of(0.9),
        _ => a + gen::moderate::<T>(s).abs(),
    };
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let h = match s.n(5) {
        0 => 1,
        1 => s.r(1, 10),
        2 => s.r(1, 5000),
        3 => s.r(1, 1 << 30),
        _ => 1usize << s.r(0, 40),
    };
    c.desc(|| format!("linear inertia of {} from {:?} to {:?} in {} iterations", T::NAME, hi, lo, h));
    let mut m = LinearInertia::new(lo, hi, h);
    let mut k = ConstInertia::new(hi);
    let mut ts: Vec<usize> = (0..s.r(1, 30))
        .map(|_| match s.n(7) {
            0 => 0,
            1 => h,
            2 => h - 1,
            3 => h + 1,
            4 => s.n(h as u64 * 2 + 2) as usize,
            5 => s.n(h as u64 + 1) as usize,
            _ => h.saturating_mul(s.r(1, 1000)),
        })
        .collect();
    if s.flag() {
        ts.sort();
    }
    let tol = 8.0 * T::EPS * (lo.f().abs() + hi.f().abs()) + 4.0 * T::from_b(1).f();
    let mut seen: Vec<(usize, f64)> = vec![];
    for t in &ts {
        let w = m.get(*t);
        let want = hi.f() - (hi.f() - lo.f()) * (*t).min(h) as f64 / h as f64;
        ensure!(
            (w.f() - want).abs() <= tol,
            "linear inertia from {:?} to {:?} over {} iterations is {:?} at iteration {} instead of {:e}",
            hi,
            lo,
            h,
            w,
            t,
            want
        );
        if *t == 0 {
            ensure!(w == hi, "linear inertia from {:?} starts at {:?}", hi, w);
        }
        seen.push((*t, w.f()));
        let w = k.get(*t);
        ensure!(same_f(w, hi), "constant inertia {:?} is {:?} at iteration {}", hi, w, t);
        if *t > 0 && *t < h && hi > lo {
            c.nontrivial();
        }
    }
    seen.sort_by(|a, b| a.0.cmp(&b.0));
    for w in seen.windows(2) {
        ensure!(
            w[1].1 <= w[0].1 + tol,
            "linear inertia rises from {:e} at iteration {} to {:e} at iteration {}",
            w[0].1,
            w[0].0,
            w[1].1,
            w[1].0
        );
    }
    Ok(())
}

fn same_f<T: Fl>(a: T, b: T) -> bool {
    gen::same(a, b)
}

pub fn c21_schedule(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c21_schedule_t::<f32>(s, c)
    } else {
        c21_schedule_t::<f64>(s, c)
    }
}

struct TableInertia<T> {
    table: Vec<T>,
    asked: Rc<RefCell<Vec<usize>>>,
}

impl<T: Fl> Inertia<T> for TableInertia<T> {
    fn get(&mut self, t: usize) -> T {
        self.asked.borrow_mut().push(t);
        self.table[t % self.table.len()]
    }
}

/// Running swarm without attraction: the velocity is multiplied by the inertia of the iteration.
fn c21_swarm_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let mut o = opts(12, 15);
    o.custom = true;
    let mut sp = pso::gen_spec::<T>(s, &o);
    let asked = Rc::new(RefCell::new(vec![]));
    let inert = match s.n(3) {
        0 => InertS::Const(T::of(gen::unit(s) * 1.5 - 0.25)),
        1 => {
            let a = gen::unit(s);
            InertS::Linear(T::of(a), T::of(a + gen::unit(s)), s.r(1, 30))
        }
        _ => InertS::Const(T::one()),
    };
    let own: Option<Vec<T>> = if s.n(3) == 0 { Some((0..s.r(5, 40)).map(|_| T::of(gen::unit(s) * 2.0 - 0.5)).collect()) } else { None };
    sp.vel = VelS::Inertia(T::zero(), T::zero(), inert.clone());
    c.desc(|| format!("{:?} own inertia {:?}", sp, own));
    let rec = new_rec();
    let r2 = rec.clone();
    let (a2, own2) = (asked.clone(), own.clone());
    let spc = sp.clone();
    no_panic(move || {
        spc.stream.install();
        let mut b = pso::PBuilder::new(r2, &spc.intervals);
        b.rule = own2.map(|table| {
            Box::new(InertiaVelocityCalculator::new(T::zero(), T::zero(), Box::new(TableInertia { table, asked: a2 })))
                as Box<dyn optlib::particleswarm::VelocityCalculator<T>>
        });
        let mut o = b.build(&spc);
        for op in &spc.script {
            b.exec(&mut o, op);
        }
    })?;
    let evs = std::mem::take(&mut rec.borrow_mut().evs);
    let mut n = 0u64;
    let mut iters = vec![];
    walk(&evs, |sit| {
        let w = match &own {
            Some(t) => t[sit.iter % t.len()].f(),
            None => inertia_of(&inert, sit.iter),
        };
        iters.push(sit.iter);
        for i in 0..sit.x.len() {
            let v = sit.v[i].f();
            let fin = [sit.pb, sit.gb].iter().all(|s| s.iter().all(|p| p[i].is_finite())) && sit.x[i].is_finite();
            if !fin || !v.is_finite() || v.abs() > T::max_value().f() / 8.0 {
                continue;
            }
            // zero times a huge distance
            if [sit.pb, sit.gb].iter().any(|s| s.iter().any(|p| !(p[i] - sit.x[i]).is_finite())) {
                continue;
            }
            let want = w * v;
            let tol = 12.0 * T::EPS * (v.abs() * 2.0) + T::from_b(1).f() * 4.0;
            ensure!(
                (sit.out[i].f() - want).abs() <= tol,
                "run {} iteration {} particle {}: velocity {:?} with inertia {} became {:?}",
                sit.run,
                sit.iter,
                sit.k,
                sit.v[i],
                w,
                sit.out[i]
            );
            if v != 0.0 && sit.iter > 0 {
                n += 1;
            }
        }
        Ok(())
    })?;
    if own.is_some() {
        let asked: HashSet<usize> = asked.borrow().iter().cloned().collect();
        let iters: HashSet<usize> = iters.into_iter().collect();
        ensure!(asked == iters, "inertia was asked for iterations {:?} instead of {:?}", asked, iters);
    }
    c.count("velocities checked", n);
    if n > 5 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c21_swarm(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c21_swarm_t::<f32>(s, c)
    } else {
        c21_swarm_t::<f64>(s, c)
    }
}
