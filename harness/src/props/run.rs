//! Properties decided on traces of running optimizers: C01-C07, C26, C31.

use crate::common::*;
use crate::engine::{clip, Ctx, Src, R};
use crate::ga::{
    self, gen_pairing, gen_setter, Builder, CreatorS, CrossKind, CrossS, GaOpts, GaPt, GaSpec, Op, PairS, PreS, SelS, StopS,
};
use crate::gen::Fl;
use crate::pso::{self, gen_moves, gen_postv, CoordS, MoveS, POp, PsoOpts, VelInitS, VelS};
use std::collections::{HashMap, HashSet};

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    clip(&format!("{:?}", t), 300)
}

// ================================================================ C01

/// `strict_start`: the best is already defined before the first iteration (swarm).
fn best_so_far<P: Pt>(evs: &[Ev<P>], strict_start: bool) -> Result<(u64, u64), String> {
    let mut checked = 0;
    let mut improved = 0;
    for run in runs(evs) {
        let mut min: Option<f64> = None;
        let mut points: HashMap<u64, HashSet<Key>> = HashMap::new();
        let mut iter = 0;
        let mut in_gen = false;
        for e in run {
            match e {
                Ev::Goal(p, v) => {
                    if v.is_finite() {
                        if in_gen && min.map_or(true, |m| *v < m) {
                            improved += 1;
                        }
                        min = Some(min.map_or(*v, |m: f64| if *v < m { *v } else { m }));
                        points.entry(vkey(*v)).or_default().insert(p.key());
                    }
                }
                Ev::Log { st, .. } | Ev::Stop { st, .. } => {
                    iter = st.iter;
                    if let Ev::Stop { ans, .. } = e {
                        in_gen = !*ans;
                    }
                    checked += 1;
                    best_ok(&st.best, min, &points, strict_start || iter > 0, &format!("state of iteration {}", iter))?;
                }
                Ev::Ret(r) => {
                    checked += 1;
                    best_ok(r, min, &points, strict_start || iter > 0, &format!("result after iteration {}", iter))?;
                }
                _ => {}
            }
        }
    }
    Ok((checked, improved))
}

fn best_ok<P: Pt>(
    best: &Option<(P, f64)>,
    min: Option<f64>,
    points: &HashMap<u64, HashSet<Key>>,
    required: bool,
    what: &str,
) -> R {
    match (best, min) {
        (None, None) => Ok(()),
        (None, Some(m)) => {
            if required {
                Err(format!("{}: no best reported although {} was evaluated", what, m))
            } else {
                Ok(())
            }
        }
        (Some((p, v)), None) => {
            if v.is_finite() {
                Err(format!("{}: reported {} at {} but nothing finite was evaluated in this run", what, v, short(p)))
            } else {
                Ok(())
            }
        }
        (Some((p, v)), Some(m)) => {
            if *v != m {
                return Err(format!("{}: reported best {} but the lowest value evaluated so far is {}", what, v, m));
            }
            let hit = points.get(&vkey(*v)).map_or(false, |s| s.contains(&p.key()));
            ensure!(hit, "{}: reported point {} never had the value {}", what, short(p), v);
            Ok(())
        }
    }
}

fn strip_neg_inf(g: &mut GoalS) {
    let fix = |v: &mut Vec<f64>| {
        for x in v.iter_mut() {
            if *x == f64::NEG_INFINITY {
                *x = f64::INFINITY;
            }
        }
    };
    match g {
        GoalS::Table { vals, .. } | GoalS::Noise { vals, .. } | GoalS::Holes { vals, .. } => fix(vals),
        GoalS::Late { vals, first, .. } => {
            fix(vals);
            if *first == f64::NEG_INFINITY {
                *first = f64::INFINITY;
            }
        }
        GoalS::Const(v) => {
            if *v == f64::NEG_INFINITY {
                *v = f64::INFINITY
            }
        }
        _ => {}
    }
}

fn c01_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, custom_sel: false, setters: true, max_iters: 25, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    let conform = |s: &mut Src, v: &mut Vec<SelS>| {
        for x in v.iter_mut() {
            match x {
                SelS::Limit(n) if *n == 0 => *n = 1,
                SelS::Interval | SelS::Script { .. } | SelS::All => *x = SelS::Limit(s.size(1, 40)),
                _ => {}
            }
        }
        if v.is_empty() && s.chance(60) {
            v.push(SelS::Limit(s.size(1, 12)));
        }
    };
    conform(s, &mut sp.sel);
    let mut script = std::mem::take(&mut sp.script);
    for op in &mut script {
        if let Op::SetSel(v) = op {
            conform(s, v);
        }
    }
    sp.script = script;
    strip_neg_inf(&mut sp.goal);
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let (n, imp) = best_so_far(&t.evs, false)?;
    if imp > 0 {
        c.nontrivial();
        c.label("best improved during a run");
    }
    c.count("states checked", n);
    Ok(())
}

pub fn c01_ga(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c01_ga_t::<Vec<f64>>(s, c, true),
        1 => c01_ga_t::<Vec<f32>>(s, c, true),
        _ => c01_ga_t::<Tok>(s, c, false),
    }
}

fn c01_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { setters: true, max_iters: 40, ..Default::default() };
    let sp = pso::gen_spec::<T>(s, &o);
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let (n, imp) = best_so_far(&t.evs, true)?;
    if imp > 0 {
        c.nontrivial();
        c.label("best improved during a run");
    }
    c.count("states checked", n);
    Ok(())
}

pub fn c01_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c01_pso_t::<f32>(s, c)
    } else {
        c01_pso_t::<f64>(s, c)
    }
}

// ================================================================ C02

struct Seen {
    set: HashSet<(Key, u64)>,
    checked: u64,
}

impl Seen {
    fn has<P: Pt>(&mut self, p: &P, v: f64, what: &str) -> R {
        self.checked += 1;
        if self.set.contains(&(p.key(), vkey(v))) {
            Ok(())
        } else {
            Err(format!("{}: the pair ({}, {}) was never evaluated in this run", what, short(p), v))
        }
    }
    fn opt<P: Pt>(&mut self, o: &Option<(P, f64)>, what: &str) -> R {
        match o {
            Some((p, v)) => self.has(p, *v, what),
            None => Ok(()),
        }
    }
    fn pop<P: Pt>(&mut self, p: &Pop<P>, what: &str) -> R {
        self.opt(&p.best, &format!("{} best", what))?;
        self.opt(&p.worst, &format!("{} worst", what))?;
        for (i, m) in p.members.iter().enumerate() {
            self.has(&m.0, m.1, &format!("{} member {}", what, i))?;
        }
        Ok(())
    }
}

fn own_values<P: Pt>(evs: &[Ev<P>]) -> Result<u64, String> {
    let mut total = 0;
    for run in runs(evs) {
        let mut seen = Seen { set: HashSet::new(), checked: 0 };
        let mut last: Option<&St<P>> = None;
        for e in run {
            match e {
                Ev::Goal(p, v) => {
                    seen.set.insert((p.key(), vkey(*v)));
                    last = None;
                }
                Ev::Log { st, .. } | Ev::Stop { st, .. } => {
                    seen.opt(&st.best, "state shown to an observer")?;
                    if let Some(l) = last {
                        ensure!(
                            l.iter != st.iter || st.same(l),
                            "two observers saw different states of iteration {}: {} versus {}",
                            st.iter,
                            short(l),
                            short(st)
                        );
                    }
                    last = Some(st);
                }
                Ev::Ret(r) => seen.opt(r, "result")?,
                Ev::Pair { pop, .. } => seen.pop(pop, "population at pairing")?,
                Ev::Pre { pop, .. } => seen.pop(pop, "population at pre-birth")?,
                Ev::Sel { before, after, .. } => {
                    seen.pop(before, "population before selection")?;
                    seen.pop(after, "population after selection")?;
                }
                Ev::Vel { sw, at, at_goal, .. } => {
                    seen.pop(sw, "swarm")?;
                    seen.has(at, *at_goal, "particle")?;
                }
                _ => {}
            }
        }
        total += seen.checked;
    }
    Ok(total)
}

fn c02_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, setters: true, max_pop: 30, max_iters: 15, ..Default::default() };
    let sp = ga::gen_spec::<P>(s, &o);
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let n = own_values(&t.evs)?;
    if n > 20 {
        c.nontrivial();
    }
    c.count("pairs checked", n);
    Ok(())
}

pub fn c02_ga(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c02_ga_t::<Vec<f64>>(s, c, true),
        1 => c02_ga_t::<Vec<f32>>(s, c, true),
        _ => c02_ga_t::<Tok>(s, c, false),
    }
}

fn c02_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { setters: true, max_pop: 20, max_iters: 15, ..Default::default() };
    let sp = pso::gen_spec::<T>(s, &o);
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let n = own_values(&t.evs)?;
    if n > 20 {
        c.nontrivial();
    }
    c.count("pairs checked", n);
    Ok(())
}

pub fn c02_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c02_pso_t::<f32>(s, c)
    } else {
        c02_pso_t::<f64>(s, c)
    }
}

/// Statistics recorded over several runs hold evaluated pairs of their own run.
fn c02_stats_t<P: GaPt>(s: &mut Src, c: &mut Ctx) -> R {
    use optlib::tools::statistics::{Statistics, StatisticsLogger};
    let o = GaOpts { max_pop: 20, max_iters: 8, ..Default::default() };
    let sp = ga::gen_spec::<P>(s, &o);
    c.desc(|| format!("statistics of {:?}", sp));
    let rec = new_rec();
    let mut stats: Statistics<P> = Statistics::new();
    {
        sp.stream.install();
        let mut b = Builder::new(rec.clone(), &sp.intervals);
        let mut opt: optlib::genetic::GeneticOptimizer<'_, P> = b.build(&sp);
        opt.set_loggers(vec![Box::new(StatisticsLogger::new(&mut stats))]);
        for op in &sp.script {
            b.exec(&mut opt, op);
        }
    }
    let r = rec.borrow();
    let rs = runs(&r.evs);
    let mut checked = 0;
    for (i, run) in rs.iter().enumerate() {
        let mut seen = Seen { set: goals(run).iter().map(|(p, v)| (p.key(), vkey(*v))).collect(), checked: 0 };
        if let Some(x) = stats.get_results().get(i) {
            seen.opt(x, "recorded result")?;
        }
        if let Some(x) = stats.get_convergence().get(i) {
            for y in x {
                seen.opt(y, "recorded convergence")?;
            }
        }
        checked += seen.checked;
    }
    if checked > 3 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c02_stats(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c02_stats_t::<Vec<f64>>(s, c)
    } else {
        c02_stats_t::<Vec<f32>>(s, c)
    }
}

// ================================================================ C03

fn inside<T: Fl>(p: &[T], iv: &[(T, T)]) -> bool {
    p.len() == iv.len() && p.iter().zip(iv).all(|(x, i)| x.is_finite() && *x >= i.0 && *x <= i.1)
}

trait InBox: GaPt {
    fn inside(&self, iv: &[(Self::G, Self::G)]) -> bool;
}
impl InBox for Vec<f64> {
    fn inside(&self, iv: &[(f64, f64)]) -> bool {
        inside(self, iv)
    }
}
impl InBox for Vec<f32> {
    fn inside(&self, iv: &[(f32, f32)]) -> bool {
        inside(self, iv)
    }
}

fn reported<P: Pt>(evs: &[Ev<P>]) -> Vec<P> {
    let mut v = vec![];
    for e in evs {
        match e {
            Ev::Log { st, .. } | Ev::Stop { st, .. } => v.extend(st.best.iter().map(|b| b.0.clone())),
            Ev::Ret(r) => v.extend(r.iter().map(|b| b.0.clone())),
            Ev::Pair { pop, .. } => v.extend(pop.members.iter().map(|m| m.0.clone())),
            Ev::Vel { sw, .. } => v.extend(sw.members.iter().map(|m| m.0.clone())),
            _ => {}
        }
    }
    v
}

fn c03_ga_t<P: InBox>(s: &mut Src, c: &mut Ctx) -> R {
    let o = GaOpts { setters: true, max_pop: 60, max_iters: 20, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    sp.creator = CreatorS::Lib(s.size(1, 60));
    // the filter comes last, whatever is before it
    let fix = |v: &mut Vec<PreS>| v.push(PreS::Interval);
    fix(&mut sp.pre);
    let mut lib_cross = matches!(sp.cross, CrossS::Lib(_));
    if s.chance(70) && !lib_cross {
        // mostly library crossing and mutation: their own reach matters
        sp.cross = CrossS::Lib(*s.pick(&[CrossKind::Mean, CrossKind::Bit, CrossKind::Exp, CrossKind::Geo]));
        sp.pairing = gen_pairing(s, &o, true);
        lib_cross = true;
        for op in &mut sp.script {
            match op {
                Op::SetCross(x) => *x = CrossS::Lib(CrossKind::Exp),
                Op::SetPairing(x) => *x = PairS::Random,
                _ => {}
            }
        }
    }
    let _ = lib_cross;
    for op in &mut sp.script {
        if let Op::SetPre(v) = op {
            fix(v);
        }
    }
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let mut out = 0;
    for (p, v) in goals(&t.evs) {
        ensure!(p.inside(&sp.intervals), "goal evaluated outside the intervals: {} (value {})", short(&p), v);
        out += 1;
    }
    for p in reported(&t.evs) {
        ensure!(p.inside(&sp.intervals), "point outside the intervals reported: {}", short(&p));
    }
    let mut rejected = 0;
    for e in &t.evs {
        if let Ev::Pre { before, after, .. } = e {
            rejected += before.len().saturating_sub(after.len()) as u64;
        }
    }
    c.count("evaluations", out);
    c.count("children filtered", rejected);
    if rejected > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c03_ga(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c03_ga_t::<Vec<f32>>(s, c)
    } else {
        c03_ga_t::<Vec<f64>>(s, c)
    }
}

fn c03_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { setters: true, max_pop: 40, max_iters: 30, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    sp.coords = CoordS::Lib(s.size(1, 40));
    if let VelInitS::Rand(_) = sp.vels {
        if s.flag() {
            sp.vels = VelInitS::Zero;
        }
    }
    let fix = |s: &mut Src, v: &mut Vec<MoveS>| {
        // corrections after the boundary must not leave the box: teleport may follow
        v.push(MoveS::Boundary);
        if s.chance(30) {
            v.push(MoveS::Teleport(*s.pick(&[0.1, 0.5, 1.0])));
        }
    };
    fix(s, &mut sp.moves);
    let mut script = std::mem::take(&mut sp.script);
    for op in &mut script {
        if let POp::SetMoves(v) = op {
            fix(s, v);
        }
    }
    sp.script = script;
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let mut n = 0;
    for (p, v) in goals(&t.evs) {
        n += 1;
        ensure!(inside(&p, &sp.intervals), "goal evaluated outside the intervals: {} (value {})", short(&p), v);
    }
    for p in reported(&t.evs) {
        ensure!(inside(&p, &sp.intervals), "point outside the intervals reported: {}", short(&p));
    }
    let moved = t
        .evs
        .iter()
        .filter(|e| match e {
            Ev::Move { inp, .. } => !inside(inp, &sp.intervals),
            _ => false,
        })
        .count() as u64;
    c.count("evaluations", n);
    c.count("corrected positions", moved);
    if moved > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c03_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c03_pso_t::<f32>(s, c)
    } else {
        c03_pso_t::<f64>(s, c)
    }
}

// ================================================================ C04 / C31: genetic flow

/// Values the goal returned for these points, matched to the points (any evaluation order).
/// Where a point occurs more than once with different values, the members shown next (`seen`)
/// tell which occurrence got which; they can only permute the values of equal points.
fn assign<P: Pt>(points: &[P], ev: &[(P, f64)], seen: Option<&[(P, f64, bool)]>, what: &str) -> Result<Vec<f64>, String> {
    ensure!(
        points.len() == ev.len(),
        "{}: {} points but {} goal evaluations",
        what,
        points.len(),
        ev.len()
    );
    let mut map: HashMap<Key, Vec<f64>> = HashMap::new();
    for (p, v) in ev {
        map.entry(p.key()).or_default().push(*v);
    }
    let mut left: HashMap<Key, usize> = HashMap::new();
    for p in points {
        *left.entry(p.key()).or_default() += 1;
    }
    for p in points {
        ensure!(
            map.get(&p.key()).map_or(0, |q| q.len()) == left[&p.key()],
            "{}: point {} was not evaluated (once per occurrence)",
            what,
            short(p)
        );
    }
    let seen = seen.filter(|m| m.len() == points.len() && m.iter().zip(points).all(|(m, p)| m.0.key() == p.key()));
    if let Some(m) = seen {
        let mut rest = map.clone();
        let fits = m.iter().all(|m| {
            let q = rest.get_mut(&m.0.key()).unwrap();
            match q.iter().position(|v| vkey(*v) == vkey(m.1)) {
                Some(n) => {
                    q.remove(n);
                    true
                }
                None => false,
            }
        });
        if fits {
            return Ok(m.iter().map(|m| m.1).collect());
        }
    }
    for q in map.values_mut() {
        q.reverse();
    }
    Ok(points.iter().map(|p| map.get_mut(&p.key()).unwrap().pop().unwrap()).collect())
}

/// The members at the first event that shows any.
fn next_members<P>(evs: &[Ev<P>]) -> Option<&[(P, f64, bool)]> {
    evs.iter()
        .take_while(|e| !matches!(e, Ev::Call("find_min")))
        .filter_map(|e| match e {
            Ev::Pair { pop, .. } => Some(&pop.members[..]),
            Ev::Sel { before, .. } => Some(&before.members[..]),
            Ev::Vel { sw, .. } => Some(&sw.members[..]),
            _ => None,
        })
        .next()
}

fn pop_is<P: Pt>(pop: &Pop<P>, want: &[(P, f64)], iter: usize, what: &str) -> R {
    ensure!(pop.iter == iter, "{}: iteration number {} instead of {}", what, pop.iter, iter);
    ensure!(
        pop.members.len() == want.len(),
        "{}: {} individuals instead of {}",
        what,
        pop.members.len(),
        want.len()
    );
    for (i, (m, w)) in pop.members.iter().zip(want).enumerate() {
        ensure!(
            m.0.key() == w.0.key() && vkey(m.1) == vkey(w.1),
            "{}: individual {} is ({}, {}) instead of ({}, {})",
            what,
            i,
            short(&m.0),
            m.1,
            short(&w.0),
            w.1
        );
        ensure!(m.2, "{}: individual {} is dead", what, i);
    }
    Ok(())
}

#[derive(Default)]
struct FlowStats {
    gens: u64,
    children: u64,
    killed: u64,
    resumed: u64,
    swaps: u64,
    odd_vel: u64,
}

/// Replays a genetic trace generation by generation.
fn ga_flow<P: Pt>(evs: &[Ev<P>]) -> Result<FlowStats, String> {
    let mut fs = FlowStats::default();
    let mut ids: HashMap<&'static str, Vec<u32>> = HashMap::new();
    let mut cur: Vec<(P, f64)> = vec![];
    let mut iter = 0usize;
    let mut i = 0;
    let mut swapped = false;
    while i < evs.len() {
        match &evs[i] {
            Ev::Set(k, v) => {
                ids.insert(k, v.clone());
                swapped = true;
                i += 1;
            }
            Ev::Call(kind) => {
                i += 1;
                if *kind == "find_min" {
                    // creation
                    let mut creates = vec![];
                    let mut ev = vec![];
                    while i < evs.len() {
                        match &evs[i] {
                            Ev::Create { out, .. } => creates.push(out.clone()),
                            Ev::Goal(p, v) => ev.push((p.clone(), *v)),
                            Ev::Log { .. } | Ev::Stop { .. } | Ev::Ret(_) => break,
                            _ => return Err("a genetic operator ran before the first population was complete".into()),
                        }
                        i += 1;
                    }
                    ensure!(creates.len() == 1, "the creator was called {} times for one run", creates.len());
                    let pts = &creates[0];
                    let vals = assign(pts, &ev, next_members(&evs[i..]), "first population")?;
                    cur = pts.iter().cloned().zip(vals).collect();
                    iter = 0;
                } else {
                    fs.resumed += 1;
                }
                // iterations
                while i < evs.len() {
                    match &evs[i] {
                        Ev::Ret(_) => {
                            i += 1;
                            break;
                        }
                        Ev::Log { .. } => i += 1,
                        Ev::Stop { ans: true, .. } => {
                            i += 1;
                            while i < evs.len() && !matches!(evs[i], Ev::Ret(_)) {
                                ensure!(
                                    matches!(evs[i], Ev::Log { .. } | Ev::Stop { .. }),
                                    "an operator or the goal ran after the stop criterion ended the call"
                                );
                                i += 1;
                            }
                        }
                        Ev::Stop { ans: false, .. } => {
                            let from = i + 1;
                            let mut to = from;
                            while to < evs.len() && !matches!(evs[to], Ev::Stop { .. } | Ev::Ret(_)) {
                                to += 1;
                            }
                            let (ch, k) = generation(&evs[from..to], &mut cur, iter, &ids, &evs[to..])?;
                            fs.gens += 1;
                            fs.children += ch;
                            fs.killed += k;
                            if swapped && fs.resumed > 0 {
                                fs.swaps += 1;
                            }
                            swapped = false;
                            iter += 1;
                            i = to;
                        }
                        Ev::Set(..) => return Err("harness: component replaced inside a call".into()),
                        _ => return Err("an operator or the goal ran outside a generation".into()),
                    }
                }
            }
            _ => return Err("harness: event outside a call".into()),
        }
    }
    Ok(fs)
}

fn generation<P: Pt>(
    evs: &[Ev<P>],
    cur: &mut Vec<(P, f64)>,
    iter: usize,
    ids: &HashMap<&'static str, Vec<u32>>,
    rest: &[Ev<P>],
) -> Result<(u64, u64), String> {
    let g = |k: &str| -> Vec<u32> { ids.get(k).cloned().unwrap_or_default() };
    let what = |s: &str| format!("generation {}: {}", iter + 1, s);
    // pairing
    let mut pairs: Option<(&Pop<P>, &Vec<Vec<usize>>)> = None;
    for e in evs {
        if let Ev::Pair { id, pop, out } = e {
            ensure!(pairs.is_none(), "{}", what("pairing ran more than once"));
            ensure!(vec![*id] == g("pairing"), "{}", what("a replaced pairing was used"));
            pairs = Some((pop, out));
        }
    }
    let (pop, fams) = pairs.ok_or_else(|| what("pairing did not run"))?;
    pop_is(pop, cur, iter, &what("population at pairing"))?;
    // crossing
    let mut k = 0;
    let mut children: Vec<P> = vec![];
    for e in evs {
        if let Ev::Cross { id, parents, out } = e {
            ensure!(vec![*id] == g("cross"), "{}", what("a replaced crossing was used"));
            ensure!(k < fams.len(), "{}", what("more crossings than families"));
            ensure!(
                parents.len() == fams[k].len(),
                "{} {}: {} parents for a family of {}",
                what("crossing"),
                k,
                parents.len(),
                fams[k].len()
            );
            for (j, p) in parents.iter().enumerate() {
                let want = &cur[fams[k][j]].0;
                ensure!(
                    p.key() == want.key(),
                    "{} {}: parent {} is {} but the family names {}",
                    what("crossing"),
                    k,
                    j,
                    short(p),
                    short(want)
                );
            }
            children.extend(out.iter().cloned());
            k += 1;
        }
    }
    ensure!(k == fams.len(), "{}: {} crossings for {} families", what("crossing"), k, fams.len());
    // mutation
    let mut m = 0;
    let mut mutants: Vec<P> = vec![];
    for e in evs {
        if let Ev::Mut { id, inp, out } = e {
            ensure!(vec![*id] == g("mutation"), "{}", what("a replaced mutation was used"));
            ensure!(m < children.len(), "{}", what("more mutations than children"));
            ensure!(
                inp.key() == children[m].key(),
                "{} {}: mutated {} instead of the child {}",
                what("mutation"),
                m,
                short(inp),
                short(&children[m])
            );
            mutants.push(out.clone());
            m += 1;
        }
    }
    ensure!(m == children.len(), "{}: {} mutations for {} children", what("mutation"), m, children.len());
    // pre-birth
    let mut list = mutants;
    let pre_ids = g("prebirth");
    let mut used = vec![];
    for e in evs {
        if let Ev::Pre { id, pop, before, after } = e {
            used.push(*id);
            pop_is(pop, cur, iter, &what("population at pre-birth"))?;
            ensure!(
                keys(before) == keys(&list),
                "{}: step {} received {} instead of {}",
                what("pre-birth"),
                used.len() - 1,
                short(before),
                short(&list)
            );
            list = after.clone();
        }
    }
    ensure!(used == pre_ids, "{}: steps {:?} ran instead of {:?}", what("pre-birth"), used, pre_ids);
    // birth
    let ev: Vec<(P, f64)> = goals(evs);
    // shown by the first selection step or, without one, by the next generation
    let shown = evs
        .iter()
        .find_map(|e| match e {
            Ev::Sel { before, .. } => Some(&before.members[..]),
            _ => None,
        })
        .or_else(|| next_members(rest))
        .and_then(|m| m.get(cur.len()..));
    let vals = assign(&list, &ev, shown, &what("newborns"))?;
    let n_children = list.len() as u64;
    let mut all = cur.clone();
    all.extend(list.into_iter().zip(vals));
    // selection
    let mut alive = vec![true; all.len()];
    let mut used = vec![];
    for e in evs {
        if let Ev::Sel { id, before, after, killed } = e {
            used.push(*id);
            for (v, name) in [(before, "before"), (after, "after")] {
                ensure!(v.iter == iter, "{}", what("iteration number changed during selection"));
                ensure!(
                    v.members.len() == all.len(),
                    "{}: {} individuals {} selection instead of {}",
                    what("selection"),
                    v.members.len(),
                    name,
                    all.len()
                );
                for (j, (a, w)) in v.members.iter().zip(&all).enumerate() {
                    ensure!(
                        a.0.key() == w.0.key() && vkey(a.1) == vkey(w.1),
                        "{}: individual {} is ({}, {}) instead of ({}, {}) {} selection",
                        what("selection"),
                        j,
                        short(&a.0),
                        a.1,
                        short(&w.0),
                        w.1,
                        name
                    );
                }
            }
            for (j, a) in before.members.iter().enumerate() {
                ensure!(a.2 == alive[j], "{}: life flag of {} changed between selections", what("selection"), j);
            }
            for (j, a) in after.members.iter().enumerate() {
                ensure!(!a.2 || alive[j], "{}: individual {} was revived", what("selection"), j);
                if let Some(ks) = killed {
                    let want = alive[j] && !ks.contains(&j);
                    ensure!(
                        a.2 == want,
                        "{}: killing {:?} left individual {} {}",
                        what("selection"),
                        clip(&format!("{:?}", ks), 80),
                        j,
                        if a.2 { "alive" } else { "dead" }
                    );
                }
                alive[j] = a.2;
            }
        }
    }
    ensure!(used == g("selection"), "{}: steps {:?} ran instead of {:?}", what("selection"), used, g("selection"));
    let killed = alive.iter().filter(|a| !**a).count() as u64;
    *cur = all.into_iter().zip(alive).filter(|x| x.1).map(|x| x.0).collect();
    Ok((n_children, killed))
}

fn flow_script<P: GaPt>(s: &mut Src, sp: &mut GaSpec<P>) {
    // one more generation shows what the last one left
    if s.chance(80) {
        sp.script.push(Op::Next { iters: 1 });
        sp.plan_evals = 2500;
    }
}

fn c04_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, max_pop: 60, max_iters: 15, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    flow_script(s, &mut sp);
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let f = ga_flow(&t.evs)?;
    c.count("generations", f.gens);
    c.count("children", f.children);
    c.count("killed", f.killed);
    if f.gens >= 2 && f.children >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c04(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c04_t::<Tok>(s, c, false),
        1 => c04_t::<Vec<f32>>(s, c, true),
        _ => c04_t::<Vec<f64>>(s, c, true),
    }
}

/// Large populations and families.
pub fn c04_big(s: &mut Src, c: &mut Ctx) -> R {
    let o = GaOpts { lib: false, max_pop: 60, max_iters: 4, ..Default::default() };
    let mut sp = ga::gen_spec::<Tok>(s, &o);
    sp.creator = CreatorS::Script { seed: s.word(), sizes: vec![s.r(500, 1500)], wild: false };
    sp.pairing = PairS::Script { seed: s.word(), max_fam: s.r(300, 900), max_par: s.r(1, 6) };
    sp.script = vec![Op::Find { iters: s.r(1, 3) as u64 }, Op::Next { iters: 1 }];
    sp.plan_evals = 20_000;
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let f = ga_flow(&t.evs)?;
    c.count("generations", f.gens);
    c.nontrivial();
    Ok(())
}

fn c31_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, max_pop: 30, max_iters: 6, setters: true, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    let lib_cross = matches!(sp.cross, CrossS::Lib(_));
    // make replacement before nearly every call
    let mut script = vec![];
    for (i, op) in sp.script.drain(..).enumerate() {
        if i > 0 && matches!(op, Op::Next { .. } | Op::Find { .. }) {
            for _ in 0..s.r(0, 3) {
                script.push(gen_setter(s, &o, lib_cross));
            }
        }
        script.push(op);
    }
    for _ in 0..s.r(1, 3) {
        script.push(gen_setter(s, &o, lib_cross));
    }
    script.push(Op::Next { iters: 1 + s.n(3) });
    for _ in 0..s.r(0, 2) {
        script.push(gen_setter(s, &o, lib_cross));
    }
    script.push(if s.flag() { Op::Next { iters: 1 } } else { Op::Find { iters: 2 } });
    sp.script = script;
    sp.plan_evals = 1000;
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let f = ga_flow(&t.evs)?;
    observers(&t.evs)?;
    c.count("generations after a replacement", f.swaps);
    if f.swaps > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c31_ga(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c31_ga_t::<Tok>(s, c, false),
        1 => c31_ga_t::<Vec<f32>>(s, c, true),
        _ => c31_ga_t::<Vec<f64>>(s, c, true),
    }
}

// ================================================================ C05 / C31: swarm flow

fn pso_flow<T: Fl>(evs: &[Ev<Vec<T>>]) -> Result<FlowStats, String>
where
    Vec<T>: Pt,
{
    let mut fs = FlowStats::default();
    let mut ids: HashMap<&'static str, Vec<u32>> = HashMap::new();
    let mut pos: Vec<(Vec<T>, f64)> = vec![];
    let mut vel: Vec<Vec<T>> = vec![];
    let mut iter = 0usize;
    let mut i = 0;
    let mut swapped = false;
    // all positions of the run so far are finite and moderate
    let mut tame = true;
    while i < evs.len() {
        match &evs[i] {
            Ev::Set(k, v) => {
                ids.insert(k, v.clone());
                swapped = true;
                i += 1;
            }
            Ev::Call(kind) => {
                i += 1;
                if *kind == "find_min" {
                    tame = true;
                    let from = i;
                    while i < evs.len() && !matches!(evs[i], Ev::Log { .. } | Ev::Stop { .. } | Ev::Ret(_)) {
                        i += 1;
                    }
                    let ini = &evs[from..i];
                    let mut coords = None;
                    let mut vels = None;
                    for e in ini {
                        match e {
                            Ev::Coords { out, .. } => {
                                ensure!(coords.is_none(), "initial positions were created twice");
                                coords = Some(out.clone());
                            }
                            Ev::Vels { out, .. } => {
                                ensure!(vels.is_none(), "initial velocities were created twice");
                                vels = Some(out.clone());
                            }
                            Ev::Vel { .. } | Ev::PostV { .. } => {
                                return Err("a velocity rule or correction ran before the first iteration".into())
                            }
                            _ => {}
                        }
                    }
                    let coords = coords.ok_or("initial positions were not created")?;
                    vel = vels.ok_or("initial velocities were not created")?;
                    let corrected = moves_chain(ini, coords, &ids, "initial positions")?;
                    let vals = assign(&corrected, &goals(ini), next_members(&evs[i..]), "initial positions")?;
                    pos = corrected.into_iter().zip(vals).collect();
                    ensure!(vel.len() == pos.len(), "harness: initial velocities and positions differ in number");
                    iter = 0;
                } else {
                    fs.resumed += 1;
                }
                while i < evs.len() {
                    match &evs[i] {
                        Ev::Ret(_) => {
                            i += 1;
                            break;
                        }
                        Ev::Log { .. } => i += 1,
                        Ev::Stop { ans: true, .. } => {
                            i += 1;
                            while i < evs.len() && !matches!(evs[i], Ev::Ret(_)) {
                                ensure!(
                                    matches!(evs[i], Ev::Log { .. } | Ev::Stop { .. }),
                                    "a component or the goal ran after the stop criterion ended the call"
                                );
                                i += 1;
                            }
                        }
                        Ev::Stop { ans: false, .. } => {
                            let from = i + 1;
                            let mut to = from;
                            while to < evs.len() && !matches!(evs[to], Ev::Stop { .. } | Ev::Ret(_)) {
                                to += 1;
                            }
                            tame &= pos.iter().all(|p| p.0.iter().all(|x| x.f().abs() < 1e17));
                            if tame && vel.iter().any(|v| v.iter().any(|x| !x.f().is_finite())) {
                                fs.odd_vel += 1;
                            }
                            swarm_iteration(&evs[from..to], &mut pos, &mut vel, iter, &ids, tame)?;
                            fs.gens += 1;
                            fs.children += pos.len() as u64;
                            if swapped && fs.resumed > 0 {
                                fs.swaps += 1;
                            }
                            swapped = false;
                            iter += 1;
                            i = to;
                        }
                        _ => return Err("a component or the goal ran outside an iteration".into()),
                    }
                }
            }
            _ => return Err("harness: event outside a call".into()),
        }
    }
    Ok(fs)
}

/// Positions after all position corrections; every correction must have run exactly
/// once per position, in order.
fn moves_chain<T: Fl>(
    evs: &[Ev<Vec<T>>],
    mut pts: Vec<Vec<T>>,
    ids: &HashMap<&'static str, Vec<u32>>,
    what: &str,
) -> Result<Vec<Vec<T>>, String>
where
    Vec<T>: Pt,
{
    let want = ids.get("moves").cloned().unwrap_or_default();
    for e in evs {
        if let Ev::Move { id, .. } = e {
            ensure!(want.contains(id), "{}: a replaced position correction was used", what);
        }
    }
    for (k, id) in want.iter().enumerate() {
        let mine: Vec<(&Vec<T>, &Vec<T>)> = evs
            .iter()
            .filter_map(|e| match e {
                Ev::Move { id: j, inp, out } if j == id => Some((inp, out)),
                _ => None,
            })
            .collect();
        ensure!(
            mine.len() == pts.len(),
            "{}: position correction {} ran {} times for {} positions",
            what,
            k,
            mine.len(),
            pts.len()
        );
        for (n, (inp, out)) in mine.iter().enumerate() {
            ensure!(
                inp.key() == pts[n].key(),
                "{}: correction {} of particle {} received {} instead of {}",
                what,
                k,
                n,
                short(inp),
                short(&pts[n])
            );
            pts[n] = (*out).clone();
        }
    }
    Ok(pts)
}

fn swarm_iteration<T: Fl>(
    evs: &[Ev<Vec<T>>],
    pos: &mut Vec<(Vec<T>, f64)>,
    vel: &mut Vec<Vec<T>>,
    iter: usize,
    ids: &HashMap<&'static str, Vec<u32>>,
    tame: bool,
) -> R
where
    Vec<T>: Pt,
{
    let what = format!("iteration {}", iter + 1);
    let n = pos.len();
    // velocity rule
    let rule: Vec<&Ev<Vec<T>>> = evs.iter().filter(|e| matches!(e, Ev::Vel { .. })).collect();
    ensure!(rule.len() == n, "{}: the velocity rule ran {} times for {} particles", what, rule.len(), n);
    let mut v: Vec<Vec<T>> = vec![];
    for (k, e) in rule.iter().enumerate() {
        if let Ev::Vel { sw, at, at_goal, remembered, out, .. } = e {
            ensure!(
                at.key() == pos[k].0.key() && vkey(*at_goal) == vkey(pos[k].1),
                "{}: the velocity rule was shown particle {} at ({}, {}) instead of ({}, {})",
                what,
                k,
                short(at),
                at_goal,
                short(&pos[k].0),
                pos[k].1
            );
            ensure!(sw.iter == iter, "{}: the swarm shows iteration {} instead of {}", what, sw.iter, iter);
            ensure!(sw.members.len() == n, "{}: the swarm shows {} of {} particles", what, sw.members.len(), n);
            ensure!(
                sw.members[k].0.key() == pos[k].0.key(),
                "{}: the swarm shows particle {} at {} instead of {}",
                what,
                k,
                short(&sw.members[k].0),
                short(&pos[k].0)
            );
            if let Some(r) = remembered {
                ensure!(r.len() == vel[k].len(), "{}: remembered velocity has another dimension", what);
                for (a, b) in r.iter().zip(&vel[k]) {
                    ensure!(
                        *a == *b || (a.is_nan() && b.is_nan()) || (!tame && (!a.is_finite() || !b.is_finite())),
                        "{}: particle {} remembers velocity {:?}, its last corrected velocity is {:?}",
                        what,
                        k,
                        r,
                        vel[k]
                    );
                }
            }
            v.push(out.clone());
        }
    }
    // velocity corrections
    let want = ids.get("postv").cloned().unwrap_or_default();
    for e in evs {
        if let Ev::PostV { id, .. } = e {
            ensure!(want.contains(id), "{}: a replaced velocity correction was used", what);
        }
    }
    for (j, id) in want.iter().enumerate() {
        let mine: Vec<(&Vec<T>, &Vec<T>)> = evs
            .iter()
            .filter_map(|e| match e {
                Ev::PostV { id: x, inp, out } if x == id => Some((inp, out)),
                _ => None,
            })
            .collect();
        ensure!(mine.len() == n, "{}: velocity correction {} ran {} times for {} particles", what, j, mine.len(), n);
        for (k, (inp, out)) in mine.iter().enumerate() {
            ensure!(
                inp.key() == v[k].key(),
                "{}: velocity correction {} of particle {} received {} instead of {}",
                what,
                j,
                k,
                short(inp),
                short(&v[k])
            );
            v[k] = (*out).clone();
        }
    }
    // move
    let raw: Vec<Vec<T>> = (0..n).map(|k| pos[k].0.iter().zip(&v[k]).map(|(x, d)| *x + *d).collect()).collect();
    let moved = moves_chain(evs, raw, ids, &what)?;
    let ev = goals(evs);
    ensure!(ev.len() == n, "{}: {} goal evaluations for {} particles", what, ev.len(), n);
    for k in 0..n {
        ensure!(
            ev[k].0.key() == moved[k].key(),
            "{}: particle {} was evaluated at {} instead of {} (position {}, velocity {})",
            what,
            k,
            short(&ev[k].0),
            short(&moved[k]),
            short(&pos[k].0),
            short(&v[k])
        );
        pos[k] = (moved[k].clone(), ev[k].1);
    }
    *vel = v;
    Ok(())
}

fn c05_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { max_pop: 40, max_iters: 15, lib: s.flag(), ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    if s.chance(80) {
        sp.script.push(POp::Next { iters: 1 });
    }
    // velocities that are not finite, positions that are
    if s.chance(15) {
        sp.moves.push(MoveS::Boundary);
        sp.vel = VelS::Script { seed: s.word(), wild: true };
    }
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let f = pso_flow(&t.evs)?;
    c.count("iterations", f.gens);
    c.count("moves", f.children);
    c.count("iterations with a remembered velocity that is not finite", f.odd_vel);
    if f.gens >= 2 && f.children > 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c05(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c05_t::<f32>(s, c)
    } else {
        c05_t::<f64>(s, c)
    }
}

pub fn c05_big(s: &mut Src, c: &mut Ctx) -> R {
    let o = PsoOpts { max_iters: 3, lib: false, ..Default::default() };
    let mut sp = pso::gen_spec::<f64>(s, &o);
    sp.coords = CoordS::Script { seed: s.word(), sizes: vec![s.r(200, 500)], wild: false };
    if !matches!(sp.vels, VelInitS::Script { .. }) {
        sp.vels = VelInitS::Script { seed: s.word(), wild: false };
    }
    sp.script = vec![POp::Find { iters: 2 }, POp::Next { iters: 1 }];
    sp.plan_evals = 100_000;
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let f = pso_flow(&t.evs)?;
    c.count("moves", f.children);
    c.nontrivial();
    Ok(())
}

fn c31_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { max_pop: 20, max_iters: 6, setters: true, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    let dim = sp.intervals.len();
    for _ in 0..2 {
        for _ in 0..s.r(1, 2) {
            sp.script.push(match s.n(4) {
                0 => POp::SetLoggers(s.few(0, 3, 12)),
                1 => POp::SetMoves(gen_moves(s, &o)),
                2 => POp::SetPostV(gen_postv(s, &o, dim)),
                _ => POp::SetStop(StopS::Plan),
            });
        }
        sp.script.push(if s.chance(30) { POp::Find { iters: 2 } } else { POp::Next { iters: 1 + s.n(3) } });
    }
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let f = pso_flow(&t.evs)?;
    observers(&t.evs)?;
    c.count("iterations after a replacement", f.swaps);
    if f.swaps > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c31_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c31_pso_t::<f32>(s, c)
    } else {
        c31_pso_t::<f64>(s, c)
    }
}

/// Replacing components by identical ones changes nothing.
fn c31_same_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx) -> R {
    let o = GaOpts { custom: false, custom_sel: false, stateful: false, max_pop: 30, max_iters: 8, multi_call: false, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    sp.sel.push(SelS::Limit(s.size(1, 40)));
    let mut a = vec![Op::Find { iters: s.n(6) }];
    let mut b = a.clone();
    for _ in 0..s.r(1, 3) {
        for _ in 0..s.few(1, 4, 40) {
            b.push(match s.n(7) {
                0 => Op::SetPairing(sp.pairing.clone()),
                1 => Op::SetCross(sp.cross.clone()),
                2 => Op::SetMutation(sp.muta.clone()),
                3 => Op::SetPre(sp.pre.clone()),
                4 => Op::SetSel(sp.sel.clone()),
                5 => Op::SetLoggers(s.r(0, 2)),
                _ => Op::SetStop(StopS::Plan),
            });
        }
        let op = Op::Next { iters: s.n(6) };
        a.push(op.clone());
        b.push(op);
    }
    sp.script = a;
    let ta = ga::run(&sp)?;
    sp.script = b;
    c.desc(|| format!("replaced by equal components: {:?}", sp));
    let tb = ga::run(&sp)?;
    compare_runs(&ta.evs, &tb.evs)?;
    if goals(&ta.evs).len() > 10 {
        c.nontrivial();
    }
    Ok(())
}

fn c31_same_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { custom: false, stateful: false, max_pop: 20, max_iters: 8, multi_call: false, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    let mut a = vec![POp::Find { iters: s.n(6) }];
    let mut b = a.clone();
    for _ in 0..s.r(1, 3) {
        for _ in 0..s.few(1, 4, 40) {
            b.push(match s.n(4) {
                0 => POp::SetMoves(sp.moves.clone()),
                1 => POp::SetPostV(sp.postv.clone()),
                2 => POp::SetLoggers(s.r(0, 2)),
                _ => POp::SetStop(StopS::Plan),
            });
        }
        let op = POp::Next { iters: s.n(6) };
        a.push(op.clone());
        b.push(op);
    }
    sp.script = a;
    let ta = pso::run(&sp)?;
    sp.script = b;
    c.desc(|| format!("replaced by equal components: {:?}", sp));
    let tb = pso::run(&sp)?;
    compare_runs(&ta.evs, &tb.evs)?;
    if goals(&ta.evs).len() > 10 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c31_same(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(4) {
        0 => c31_same_ga_t::<Vec<f32>>(s, c),
        1 => c31_same_ga_t::<Vec<f64>>(s, c),
        2 => c31_same_pso_t::<f32>(s, c),
        _ => c31_same_pso_t::<f64>(s, c),
    }
}

/// Equal goal calls, results.
pub fn compare_runs<P: Pt>(a: &[Ev<P>], b: &[Ev<P>]) -> R {
    if let Some(d) = diff_goals(a, b) {
        return Err(format!("different search: {}", d));
    }
    let (x, y) = (rets(a), rets(b));
    ensure!(x.len() == y.len(), "different number of results");
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        ensure!(same_opt(p, q), "result {}: {} versus {}", i, short(p), short(q));
    }
    Ok(())
}

// ================================================================ C06

fn extremes<P: Pt>(pop: &Pop<P>, what: &str) -> R {
    if pop.members.is_empty() {
        return Ok(());
    }
    let nums: Vec<f64> = pop.members.iter().map(|m| m.1).filter(|v| !v.is_nan()).collect();
    let (b, w) = match (&pop.best, &pop.worst) {
        (Some(b), Some(w)) => (b, w),
        _ => return Err(format!("{}: no best or worst although {} individuals live", what, pop.members.len())),
    };
    for (x, name) in [(b, "best"), (w, "worst")] {
        ensure!(
            pop.members.iter().any(|m| m.0.key() == x.0.key() && vkey(m.1) == vkey(x.1)),
            "{}: the {} ({}, {}) is not a member",
            what,
            name,
            short(&x.0),
            x.1
        );
    }
    if !nums.is_empty() {
        let lo = nums.iter().cloned().fold(f64::INFINITY, f64::min);
        let hi = nums.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        ensure!(b.1 == lo, "{}: best has value {} but the lowest is {}", what, b.1, lo);
        ensure!(w.1 == hi, "{}: worst has value {} but the highest is {}", what, w.1, hi);
    }
    Ok(())
}

fn c06_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, setters: true, max_pop: 60, max_iters: 15, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    flow_script(s, &mut sp);
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    if let Some(e) = t.view_err {
        return Err(e);
    }
    let mut views = 0;
    for run in runs(&t.evs) {
        let mut iter = 0;
        for e in run {
            match e {
                Ev::Stop { st, .. } => iter = st.iter,
                Ev::Pair { pop, .. } => {
                    ensure!(pop.iter == iter, "population shows iteration {}, observers saw {}", pop.iter, iter);
                    if pop.iter > 0 {
                        views += 1;
                        extremes(pop, &format!("after generation {}", pop.iter))?;
                    }
                }
                Ev::Sel { before, after, killed, .. } => {
                    ensure!(before.members.len() == after.members.len(), "selection changed the number of individuals");
                    for (j, (a, b)) in before.members.iter().zip(&after.members).enumerate() {
                        ensure!(
                            a.0.key() == b.0.key() && vkey(a.1) == vkey(b.1),
                            "marking members dead changed member {} from {} to {}",
                            j,
                            short(a),
                            short(b)
                        );
                        if let Some(ks) = killed {
                            ensure!(
                                b.2 == (a.2 && !ks.contains(&j)),
                                "after marking members dead, life flag of member {} is wrong",
                                j
                            );
                        }
                    }
                }
                _ => {}
            }
        }
    }
    c.count("populations checked", views);
    if views > 1 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c06_ga(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c06_ga_t::<Tok>(s, c, false),
        1 => c06_ga_t::<Vec<f32>>(s, c, true),
        _ => c06_ga_t::<Vec<f64>>(s, c, true),
    }
}

fn c06_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { max_pop: 40, max_iters: 15, setters: true, ..Default::default() };
    let sp = pso::gen_spec::<T>(s, &o);
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    if let Some(e) = t.view_err {
        return Err(e);
    }
    let mut n = 0;
    for run in runs(&t.evs) {
        let mut st0: Option<&St<Vec<T>>> = None;
        let mut cur: Option<Vec<(Vec<T>, f64)>> = None;
        let mut first = false;
        let mut size = None;
        for e in run {
            match e {
                Ev::Stop { st, ans, .. } => {
                    st0 = Some(st);
                    first = !*ans;
                }
                Ev::Vel { sw, .. } => {
                    n += 1;
                    if let Some(sz) = size {
                        ensure!(sw.members.len() == sz, "the swarm changed its size from {} to {}", sz, sw.members.len());
                    }
                    size = Some(sw.members.len());
                    if let Some(st) = st0 {
                        ensure!(sw.iter == st.iter, "swarm shows iteration {}, observers saw {}", sw.iter, st.iter);
                        if first {
                            ensure!(
                                same_opt(&sw.best, &st.best),
                                "swarm shows best {}, observers saw {}",
                                short(&sw.best),
                                short(&st.best)
                            );
                        }
                    }
                    // every member is shown where it was before or after its move
                    if let Some(old) = &cur {
                        let moved = sw
                            .members
                            .iter()
                            .zip(old)
                            .filter(|(a, b)| a.0.key() != b.0.key() || vkey(a.1) != vkey(b.1))
                            .count();
                        ensure!(moved <= old.len(), "views differ");
                    }
                    cur = Some(sw.members.iter().map(|m| (m.0.clone(), m.1)).collect());
                    first = false;
                }
                _ => {}
            }
        }
    }
    c.count("swarm views", n);
    if n > 4 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c06_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c06_pso_t::<f32>(s, c)
    } else {
        c06_pso_t::<f64>(s, c)
    }
}

// ================================================================ C07

pub struct ObsStats {
    pub iters: u64,
    pub resumes: u64,
}

/// Event grammar of loggers and stop polls.
pub fn observers<P: Pt>(evs: &[Ev<P>]) -> Result<ObsStats, String> {
    let mut os = ObsStats { iters: 0, resumes: 0 };
    let mut loggers: Vec<u32> = vec![];
    let mut stop: u32 = 0;
    let mut iter = 0usize;
    let mut last_state: Option<St<P>> = None;
    let mut i = 0;
    while i < evs.len() {
        match &evs[i] {
            Ev::Set("loggers", v) => {
                loggers = v.clone();
                i += 1;
            }
            Ev::Set("stop", v) => {
                stop = v[0];
                i += 1;
            }
            Ev::Set(..) => i += 1,
            Ev::Call(kind) => {
                let mut j = i + 1;
                while j < evs.len() && !matches!(evs[j], Ev::Ret(_)) {
                    j += 1;
                }
                ensure!(j < evs.len(), "harness: call without result");
                let ret = match &evs[j] {
                    Ev::Ret(r) => r,
                    _ => unreachable!(),
                };
                let body = &evs[i + 1..j];
                let mut pos = 0;
                // returns the state shown to the whole group
                let skip_work = |pos: &mut usize| {
                    while *pos < body.len() && !matches!(body[*pos], Ev::Log { .. } | Ev::Stop { .. }) {
                        *pos += 1;
                    }
                };
                let group = |pos: &mut usize, kind: LogKind, iter: usize, state: &mut Option<St<P>>| -> R {
                    for (n, id) in loggers.iter().enumerate() {
                        match body.get(*pos) {
                            Some(Ev::Log { id: x, kind: k, st }) if x == id && *k == kind => {
                                ensure!(
                                    st.iter == iter,
                                    "{:?} shown with iteration number {} instead of {}",
                                    kind,
                                    st.iter,
                                    iter
                                );
                                if let Some(s0) = state {
                                    ensure!(
                                        s0.same(st),
                                        "{:?}: logger {} saw {} but the state is {}",
                                        kind,
                                        n,
                                        short(st),
                                        short(s0)
                                    );
                                }
                                *state = Some(st.clone());
                                *pos += 1;
                            }
                            other => {
                                return Err(format!(
                                    "{:?} of iteration {} was not announced to logger {} in turn; next event: {}",
                                    kind,
                                    iter,
                                    n,
                                    clip(&format!("{:?}", other), 200)
                                ))
                            }
                        }
                    }
                    Ok(())
                };
                let mut state: Option<St<P>>;
                if *kind == "find_min" {
                    iter = 0;
                    state = None;
                    skip_work(&mut pos);
                    group(&mut pos, LogKind::Start, iter, &mut state)?;
                } else {
                    os.resumes += 1;
                    state = last_state.clone();
                }
                group(&mut pos, LogKind::Resume, iter, &mut state)?;
                loop {
                    match body.get(pos) {
                        Some(Ev::Stop { id, st, ans }) => {
                            ensure!(*id == stop, "a replaced stop criterion was consulted");
                            ensure!(
                                st.iter == iter,
                                "stop criterion shown iteration number {} instead of {}",
                                st.iter,
                                iter
                            );
                            if let Some(s0) = &state {
                                ensure!(s0.same(st), "stop criterion saw {} but the state is {}", short(st), short(s0));
                            }
                            state = Some(st.clone());
                            pos += 1;
                            if *ans {
                                break;
                            }
                        }
                        other => {
                            return Err(format!(
                                "the stop criterion was not consulted before iteration {}; next event: {}",
                                iter + 1,
                                clip(&format!("{:?}", other), 200)
                            ))
                        }
                    }
                    // the iteration itself
                    skip_work(&mut pos);
                    iter += 1;
                    os.iters += 1;
                    state = None;
                    group(&mut pos, LogKind::Next, iter, &mut state)?;
                    // population and swarm show the same state when the next iteration begins
                    if let Some(Ev::Stop { st, ans: false, .. }) = body.get(pos) {
                        match body.get(pos + 1) {
                            Some(Ev::Pair { pop, .. }) | Some(Ev::Vel { sw: pop, .. }) => {
                                let shown = St { iter: pop.iter, best: pop.best.clone() };
                                ensure!(
                                    shown.same(st),
                                    "observers saw {} but the algorithm is in state {}",
                                    short(st),
                                    short(&shown)
                                );
                            }
                            _ => {}
                        }
                    }
                }
                group(&mut pos, LogKind::Finish, iter, &mut state)?;
                ensure!(
                    pos == body.len(),
                    "after the stop criterion said stop: {}",
                    clip(&format!("{:?}", body.get(pos)), 200)
                );
                if let Some(s0) = &state {
                    ensure!(
                        same_opt(ret, &s0.best),
                        "find_min or next_iterations returned {} but the final state announced is {}",
                        short(ret),
                        short(&s0.best)
                    );
                }
                last_state = state;
                i = j + 1;
            }
            _ => return Err("harness: event outside a call".into()),
        }
    }
    Ok(os)
}

fn c07_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, setters: true, max_pop: 20, max_iters: 30, ..Default::default() };
    let mut sp = ga::gen_spec::<P>(s, &o);
    if s.flag() {
        sp.stop = StopS::Tree(StopTree::Any(vec![StopTree::Max(s.size(0, 12)), gen_stop_tree(s, 2, 12)]));
        if !sp.sel.iter().any(|x| matches!(x, SelS::Limit(_))) {
            sp.sel.push(SelS::Limit(s.size(0, 40)));
        }
        sp.script.retain(|o| !matches!(o, Op::SetSel(_)));
    }
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let os = observers(&t.evs)?;
    c.count("iterations", os.iters);
    c.count("resumes", os.resumes);
    if os.iters > 1 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c07_ga(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c07_ga_t::<Tok>(s, c, false),
        1 => c07_ga_t::<Vec<f32>>(s, c, true),
        _ => c07_ga_t::<Vec<f64>>(s, c, true),
    }
}

fn c07_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { setters: true, max_pop: 15, max_iters: 40, ..Default::default() };
    let mut sp = pso::gen_spec::<T>(s, &o);
    if s.flag() {
        sp.stop = StopS::Tree(StopTree::Any(vec![StopTree::Max(s.size(0, 12)), gen_stop_tree(s, 2, 12)]));
    }
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let os = observers(&t.evs)?;
    c.count("iterations", os.iters);
    c.count("resumes", os.resumes);
    if os.iters > 1 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c07_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c07_pso_t::<f32>(s, c)
    } else {
        c07_pso_t::<f64>(s, c)
    }
}

// ================================================================ C26

/// Number of goal calls in every phase equals the number of candidates.
fn eval_counts<P: Pt>(evs: &[Ev<P>]) -> Result<u64, String> {
    let mut phase_goals = 0usize;
    let mut expected: usize = 0;
    let mut swarm = 0usize;
    let mut gen_children: Option<usize> = None;
    let mut muts = 0usize;
    let mut in_gen = false;
    let mut total = 0;
    let mut is_swarm = false;
    for e in evs {
        match e {
            Ev::Call(_) => {
                ensure!(phase_goals == 0, "the goal was evaluated outside a run");
                expected = 0;
                in_gen = false;
            }
            Ev::Goal(..) => {
                phase_goals += 1;
                total += 1;
            }
            Ev::Create { out, .. } => expected += out.len(),
            Ev::Coords { out, .. } => {
                expected += out.len();
                swarm = out.len();
                is_swarm = true;
            }
            Ev::Mut { .. } => muts += 1,
            Ev::Pre { after, .. } => gen_children = Some(after.len()),
            Ev::Log { kind: LogKind::Resume, .. } | Ev::Stop { .. } | Ev::Ret(_) => {
                let want = if in_gen {
                    if is_swarm {
                        swarm
                    } else {
                        gen_children.unwrap_or(muts)
                    }
                } else {
                    expected
                };
                ensure!(
                    phase_goals == want,
                    "{} goal evaluations for {} candidates in {}",
                    phase_goals,
                    want,
                    if in_gen { "an iteration" } else { "the initial phase" }
                );
                phase_goals = 0;
                expected = 0;
                muts = 0;
                gen_children = None;
                in_gen = matches!(e, Ev::Stop { ans: false, .. });
            }
            _ => {}
        }
    }
    Ok(total)
}

fn c26_ga_t<P: GaPt>(s: &mut Src, c: &mut Ctx, lib: bool) -> R {
    let o = GaOpts { lib, setters: true, max_pop: 60, max_iters: 20, ..Default::default() };
    let sp = ga::gen_spec::<P>(s, &o);
    c.desc(|| format!("{:?}", sp));
    let t = ga::run(&sp)?;
    let n = eval_counts(&t.evs)?;
    c.count("evaluations", n);
    if n > 10 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c26_ga(s: &mut Src, c: &mut Ctx) -> R {
    match s.n(3) {
        0 => c26_ga_t::<Tok>(s, c, false),
        1 => c26_ga_t::<Vec<f32>>(s, c, true),
        _ => c26_ga_t::<Vec<f64>>(s, c, true),
    }
}

fn c26_pso_t<T: Fl>(s: &mut Src, c: &mut Ctx) -> R
where
    Vec<T>: Pt,
{
    let o = PsoOpts { setters: true, max_pop: 40, max_iters: 30, ..Default::default() };
    let sp = pso::gen_spec::<T>(s, &o);
    c.desc(|| format!("{:?}", sp));
    let t = pso::run(&sp)?;
    let n = eval_counts(&t.evs)?;
    c.count("evaluations", n);
    if n > 10 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c26_pso(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c26_pso_t::<f32>(s, c)
    } else {
        c26_pso_t::<f64>(s, c)
    }
}

/// The counting wrapper: forwarding and counting over several runs.
fn c26_wrapper_t<P: GaPt>(s: &mut Src, c: &mut Ctx) -> R {
    use optlib::tools::statistics::{CallCountData, GoalCalcStatistics};
    use optlib::Goal;
    let goal_spec = gen_goal(s, true, true);
    let iv: Vec<(P::G, P::G)> = (0..s.r(1, 4)).map(|_| crate::gen::plain_interval(s)).collect();
    let mut data = CallCountData::new();
    let mut model: Vec<usize> = vec![];
    let rec = new_rec::<P>();
    let mut desc = vec![];
    let segs = s.r(1, 6);
    let mut expect: Vec<(P, f64)> = vec![];
    let mut seen = vec![];
    let mut p = crate::engine::Prng(s.word());
    for _ in 0..segs {
        let marks = s.n(3);
        for _ in 0..marks {
            data.next_run();
            model.push(0);
        }
        let calls = s.size(0, 30);
        desc.push((marks, calls));
        let mut g = RecGoal { spec: goal_spec.clone(), rec: rec.clone(), map: None };
        let mut w = GoalCalcStatistics::new(&mut g, &mut data);
        for _ in 0..calls {
            let x = P::random(&mut p, &iv, true);
            let v = w.get(&x);
            seen.push((x.clone(), v));
            expect.push((x, v));
            if model.is_empty() {
                model.push(0);
            }
            *model.last_mut().unwrap() += 1;
        }
    }
    c.desc(|| format!("segments (next_run calls, evaluations): {:?}, goal {:?}", desc, goal_spec));
    let inner = goals(&rec.borrow().evs);
    ensure!(inner.len() == seen.len(), "{} evaluations forwarded as {}", seen.len(), inner.len());
    for (a, b) in inner.iter().zip(&seen) {
        ensure!(same_pv(a, b), "forwarded {} but the caller saw {}", short(a), short(b));
    }
    ensure!(data.get_call_count() == model, "call counts {:?}, counted {:?}", data.get_call_count(), model);
    if seen.len() > 2 && model.len() > 1 {
        c.nontrivial();
    }
    Ok(())
}

pub fn c26_wrapper(s: &mut Src, c: &mut Ctx) -> R {
    if s.flag() {
        c26_wrapper_t::<Vec<f32>>(s, c)
    } else {
        c26_wrapper_t::<Vec<f64>>(s, c)
    }
}

/// Runs with the counting wrapper around the goal: counts per run.
pub fn c26_runs(s: &mut Src, c: &mut Ctx) -> R {
    use optlib::tools::statistics::{CallCountData, GoalCalcStatistics};
    let swarm = s.flag();
    let n = s.size(1, 30);
    let iv: Vec<(f64, f64)> = (0..s.r(1, 4)).map(|_| crate::gen::plain_interval(s)).collect();
    let goal_spec = gen_goal(s, true, false);
    let st = gen_stream(s);
    let iters: Vec<usize> = (0..s.r(1, 4)).map(|_| s.size(0, 20)).collect();
    c.desc(|| format!("{} size {} iterations per run {:?} goal {:?}", if swarm { "swarm" } else { "genetic" }, n, iters, goal_spec));
    st.install();
    let rec = new_rec::<Vec<f64>>();
    let mut data = CallCountData::new();
    let mut want = vec![];
    for it in &iters {
        data.next_run();
        let before = rec.borrow().evals;
        let mut g = RecGoal { spec: goal_spec.clone(), rec: rec.clone(), map: None };
        let wrapped = GoalCalcStatistics::new(&mut g, &mut data);
        use optlib::Optimizer;
        if swarm {
            let mut o = optlib::particleswarm::ParticleSwarmOptimizer::new(
                Box::new(wrapped),
                lib_stop(&StopTree::Max(*it)),
                Box::new(optlib::particleswarm::initializing::RandomCoordinatesInitializer::new(iv.clone(), n)),
                Box::new(optlib::particleswarm::initializing::ZeroVelocityInitializer::new(iv.len(), n)),
                Box::new(optlib::particleswarm::velocitycalc::ClassicVelocityCalculator::new(1.0, 1.0)),
            );
            o.find_min();
            want.push(n * (it + 1));
        } else {
            let mut o = optlib::genetic::GeneticOptimizer::new(
                Box::new(wrapped),
                lib_stop(&StopTree::Max(*it)),
                Box::new(optlib::genetic::creation::vec_float::RandomCreator::new(n, iv.clone())),
                Box::new(optlib::genetic::pairing::Tournament::new(5)),
                <Vec<f64> as GaPt>::lib_cross(CrossKind::Mean),
                <Vec<f64> as GaPt>::lib_mut(0.0, 1),
                vec![Box::new(optlib::genetic::selection::LimitPopulation::new(n))],
                vec![],
            );
            o.find_min();
            want.push(n + 5 * it);
        }
        let done = (rec.borrow().evals - before) as usize;
        ensure!(
            done == *want.last().unwrap(),
            "a run evaluated the goal {} times instead of {}",
            done,
            want.last().unwrap()
        );
    }
    ensure!(data.get_call_count() == want, "call counts {:?} instead of {:?}", data.get_call_count(), want);
    let mean = want.iter().sum::<usize>() as f64 / want.len() as f64;
    let avg = data.get_average_call_count();
    ensure!(
        avg.map_or(false, |a| (a - mean).abs() <= 1e-9 * mean.max(1.0)),
        "average call count {:?} instead of {}",
        avg,
        mean
    );
    c.nontrivial();
    Ok(())
}
