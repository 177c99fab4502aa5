//! Traces, points, goal functions and state views shared by both optimizers.

use crate::engine::{hash_words, Prng, Src};
use crate::gen::{self, Fl};
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal};
use rand::rngs::thread::{control, Mode, Stream};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;

pub type Key = Vec<u64>;

/// A point of a search space.
pub trait Pt: Clone + Debug + 'static {
    fn key(&self) -> Key;
    /// Coordinates as f64 for ordinary goal functions.
    fn coords(&self) -> Vec<f64>;
}

impl Pt for Vec<f64> {
    fn key(&self) -> Key {
        self.iter().map(|x| norm((*x + 0.0).to_bits(), x.is_nan())).collect()
    }
    fn coords(&self) -> Vec<f64> {
        self.clone()
    }
}

impl Pt for Vec<f32> {
    fn key(&self) -> Key {
        self.iter().map(|x| norm((*x + 0.0).to_bits() as u64, x.is_nan())).collect()
    }
    fn coords(&self) -> Vec<f64> {
        self.iter().map(|x| *x as f64).collect()
    }
}

fn norm(b: u64, nan: bool) -> u64 {
    if nan {
        u64::MAX
    } else {
        b
    }
}

/// A point with identity only.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tok(pub u64);

impl Pt for Tok {
    fn key(&self) -> Key {
        vec![self.0]
    }
    fn coords(&self) -> Vec<f64> {
        vec![(self.0 % 1000) as f64]
    }
}

pub fn vkey(v: f64) -> u64 {
    norm((v + 0.0).to_bits(), v.is_nan())
}

pub fn same_pv<P: Pt>(a: &(P, f64), b: &(P, f64)) -> bool {
    a.0.key() == b.0.key() && vkey(a.1) == vkey(b.1)
}

pub fn same_opt<P: Pt>(a: &Option<(P, f64)>, b: &Option<(P, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => same_pv(x, y),
        _ => false,
    }
}

pub fn keys<P: Pt>(v: &[P]) -> Vec<Key> {
    v.iter().map(|p| p.key()).collect()
}

/// What observers see.
#[derive(Clone, Debug)]
pub struct St<P> {
    pub iter: usize,
    pub best: Option<(P, f64)>,
}

impl<P: Pt> St<P> {
    pub fn of(s: &dyn AlgorithmState<P>) -> Self {
        St { iter: s.get_iteration(), best: s.get_best_solution() }
    }
    pub fn same(&self, o: &St<P>) -> bool {
        self.iter == o.iter && same_opt(&self.best, &o.best)
    }
}

/// Population or swarm.
#[derive(Clone, Debug)]
pub struct Pop<P> {
    pub iter: usize,
    pub members: Vec<(P, f64, bool)>,
    pub best: Option<(P, f64)>,
    pub worst: Option<(P, f64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LogKind {
    Start,
    Resume,
    Next,
    Finish,
}

#[derive(Clone, Debug)]
pub enum Ev<P> {
    Call(&'static str),
    Ret(Option<(P, f64)>),
    Goal(P, f64),
    Log { id: u32, kind: LogKind, st: St<P> },
    Stop { id: u32, st: St<P>, ans: bool },
    // genetic
    Create { id: u32, out: Vec<P> },
    Pair { id: u32, pop: Pop<P>, out: Vec<Vec<usize>> },
    Cross { id: u32, parents: Vec<P>, out: Vec<P> },
    Mut { id: u32, inp: P, out: P },
    Pre { id: u32, pop: Pop<P>, before: Vec<P>, after: Vec<P> },
    Sel { id: u32, before: Pop<P>, after: Pop<P>, killed: Option<Vec<usize>> },
    // swarm
    Coords { id: u32, out: Vec<P> },
    Vels { id: u32, out: Vec<P> },
    Vel { id: u32, sw: Pop<P>, at: P, at_goal: f64, remembered: Option<P>, out: P },
    PostV { id: u32, inp: P, out: P },
    Move { id: u32, inp: P, out: P },
    // a component was replaced
    Set(&'static str, Vec<u32>),
}

pub struct Rec<P> {
    pub evs: Vec<Ev<P>>,
    pub evals: u64,
    pub polls: u64,
    pub eval_limit: u64,
    pub poll_limit: u64,
    /// record only goal calls and results
    pub light: bool,
    /// inconsistencies between the views of one state
    pub view_err: Option<String>,
    /// current call: iterations still wanted by the plan
    pub plan: u64,
    /// stop as soon as this many evaluations were made
    pub plan_evals: u64,
    /// fail after so many more component calls
    pub fault: Option<u64>,
}

/// The failure injected into a component.
pub const FAULT: &str = "injected failure";

/// Records what a component did; a planned failure happens here.
pub fn note<P>(rec: &RecRef<P>, ev: Ev<P>) {
    let mut r = rec.borrow_mut();
    r.evs.push(ev);
    if let Some(n) = &mut r.fault {
        if *n == 0 {
            r.fault = None;
            drop(r);
            panic!("{}", FAULT);
        }
        *n -= 1;
    }
}

pub type RecRef<P> = Rc<RefCell<Rec<P>>>;

pub fn new_rec<P>() -> RecRef<P> {
    Rc::new(RefCell::new(Rec {
        evs: vec![],
        evals: 0,
        polls: 0,
        eval_limit: 3_000_000,
        poll_limit: 200_000,
        light: false,
        view_err: None,
        plan: 0,
        plan_evals: u64::MAX,
        fault: None,
    }))
}

// ---------------------------------------------------------------- goal

#[derive(Clone, Debug)]
pub enum GoalS {
    Sphere,
    Paraboloid,
    Rastrigin,
    /// Value chosen from a table by a hash of the point.
    Table { seed: u64, vals: Vec<f64> },
    /// Value chosen from a table by the number of the call (the same point may get different values).
    Noise { seed: u64, vals: Vec<f64> },
    /// Sphere, replaced by table values for a share of points.
    Holes { seed: u64, percent: u64, vals: Vec<f64> },
    Const(f64),
    /// +1 for every call
    Worsening,
    /// -1 for every call
    Improving,
    /// First table value for the first n calls, then the hash table.
    Late { n: u64, first: f64, seed: u64, vals: Vec<f64> },
}

impl GoalS {
    pub fn value<P: Pt>(&self, x: &P, call: u64) -> f64 {
        match self {
            GoalS::Sphere => x.coords().iter().map(|v| v * v).sum(),
            GoalS::Paraboloid => x
                .coords()
                .iter()
                .enumerate()
                .map(|(i, v)| (v - (i as f64 + 1.0)) * (v - (i as f64 + 1.0)))
                .sum(),
            GoalS::Rastrigin => {
                let c = x.coords();
                10.0 * c.len() as f64 + c.iter().map(|v| v * v - 10.0 * (2.0 * std::f64::consts::PI * v).cos()).sum::<f64>()
            }
            GoalS::Table { seed, vals } => {
                let h = hash_words(&x.key()) ^ seed;
                vals[(crate::engine::mix(h) % vals.len() as u64) as usize]
            }
            GoalS::Noise { seed, vals } => vals[(crate::engine::mix(call ^ seed) % vals.len() as u64) as usize],
            GoalS::Holes { seed, percent, vals } => {
                let h = crate::engine::mix(hash_words(&x.key()) ^ seed);
                if h % 100 < *percent {
                    vals[((h >> 20) % vals.len() as u64) as usize]
                } else {
                    x.coords().iter().map(|v| v * v).sum()
                }
            }
            GoalS::Const(v) => *v,
            GoalS::Worsening => call as f64,
            GoalS::Improving => -(call as f64),
            GoalS::Late { n, first, seed, vals } => {
                if call < *n {
                    *first
                } else {
                    let h = hash_words(&x.key()) ^ seed;
                    vals[(crate::engine::mix(h) % vals.len() as u64) as usize]
                }
            }
        }
    }
}

/// Any goal. `hostile`: NaN and infinities; `stateful`: value may depend on the call number.
pub fn gen_goal(s: &mut Src, hostile: bool, stateful: bool) -> GoalS {
    let w: [u64; 10] = [
        3,
        1,
        1,
        6,
        if stateful { 2 } else { 0 },
        if hostile { 4 } else { 1 },
        1,
        if stateful { 1 } else { 0 },
        if stateful { 1 } else { 0 },
        if stateful && hostile { 2 } else { 0 },
    ];
    match s.weighted(&w) {
        0 => GoalS::Sphere,
        1 => GoalS::Paraboloid,
        2 => GoalS::Rastrigin,
        3 => GoalS::Table { seed: s.word(), vals: gen::goal_pool(s, hostile) },
        4 => GoalS::Noise { seed: s.word(), vals: gen::goal_pool(s, hostile) },
        5 => GoalS::Holes { seed: s.word(), percent: s.n(90) + 1, vals: gen::goal_pool(s, hostile) },
        6 => GoalS::Const(if hostile { gen::any(s) } else { gen::finite(s) }),
        7 => GoalS::Worsening,
        8 => GoalS::Improving,
        _ => GoalS::Late {
            n: s.n(60),
            first: *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
            seed: s.word(),
            vals: gen::goal_pool(s, hostile),
        },
    }
}

pub struct RecGoal<P> {
    pub spec: GoalS,
    pub rec: RecRef<P>,
    pub map: Option<fn(f64) -> f64>,
}

impl<P: Pt> Goal<P> for RecGoal<P> {
    fn get(&mut self, x: &P) -> f64 {
        let mut r = self.rec.borrow_mut();
        let n = r.evals;
        r.evals += 1;
        if r.evals > r.eval_limit {
            drop(r);
            panic!("more goal evaluations than any correct run makes");
        }
        let mut v = self.spec.value(x, n);
        if let Some(m) = self.map {
            v = m(v);
        }
        drop(r);
        note(&self.rec, Ev::Goal(x.clone(), v));
        v
    }
}

// ---------------------------------------------------------------- loggers and stop checkers

pub struct RecLogger<P> {
    pub id: u32,
    pub rec: RecRef<P>,
}

impl<P: Pt> RecLogger<P> {
    fn push(&self, kind: LogKind, s: &dyn AlgorithmState<P>) {
        let st = St::of(s);
        note(&self.rec, Ev::Log { id: self.id, kind, st });
    }
}

impl<P: Pt> Logger<P> for RecLogger<P> {
    fn start(&mut self, s: &dyn AlgorithmState<P>) {
        self.push(LogKind::Start, s);
    }
    fn resume(&mut self, s: &dyn AlgorithmState<P>) {
        self.push(LogKind::Resume, s);
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<P>) {
        self.push(LogKind::Next, s);
    }
    fn finish(&mut self, s: &dyn AlgorithmState<P>) {
        self.push(LogKind::Finish, s);
    }
}

/// Stops after the planned number of iterations of this call (or when enough was evaluated).
pub struct PlanStop<P> {
    pub id: u32,
    pub rec: RecRef<P>,
}

impl<P: Pt> StopChecker<P> for PlanStop<P> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<P>) -> bool {
        let st = St::of(s);
        let mut r = self.rec.borrow_mut();
        r.polls += 1;
        let ans = if r.plan == 0 || r.evals >= r.plan_evals {
            true
        } else {
            r.plan -= 1;
            false
        };
        if r.polls > r.poll_limit {
            drop(r);
            panic!("stop criterion consulted more often than in any correct run");
        }
        drop(r);
        note(&self.rec, Ev::Stop { id: self.id, st, ans });
        ans
    }
}

/// Records what a library stop criterion answers.
pub struct RecStop<P> {
    pub id: u32,
    pub inner: Box<dyn StopChecker<P>>,
    pub rec: RecRef<P>,
}

impl<P: Pt> StopChecker<P> for RecStop<P> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<P>) -> bool {
        let st = St::of(s);
        let ans = self.inner.can_stop(s);
        let mut r = self.rec.borrow_mut();
        r.polls += 1;
        if r.polls > r.poll_limit {
            drop(r);
            panic!("stop criterion consulted more often than in any correct run");
        }
        drop(r);
        note(&self.rec, Ev::Stop { id: self.id, st, ans });
        ans
    }
}

// ---------------------------------------------------------------- random streams

#[derive(Clone, Debug, PartialEq)]
pub struct StreamS {
    pub mode: Mode,
    pub seed: u64,
}

impl StreamS {
    pub fn install(&self) {
        control::swap(Stream::new(self.mode.clone(), self.seed));
    }
}

pub fn gen_stream(s: &mut Src) -> StreamS {
    let mode = match s.weighted(&[6, 2, 1]) {
        0 => Mode::Seeded,
        1 => Mode::Mixed(s.r(1, 60) as u8),
        _ => Mode::Mixed(200),
    };
    StreamS { mode, seed: s.word() }
}

// ---------------------------------------------------------------- points for custom creators

/// Random point for custom components, from a component's own generator.
pub fn rnd_coord<T: Fl>(p: &mut Prng, iv: (T, T), wild: bool) -> T {
    let k = p.below(if wild { 16 } else { 10 });
    match k {
        0 => iv.0,
        1 => iv.1,
        2 => T::of((iv.0.f() + iv.1.f()) / 2.0),
        3..=9 => {
            let v = iv.0 + (iv.1 - iv.0) * T::of(p.unit());
            if v >= iv.0 && v <= iv.1 {
                v
            } else {
                iv.0
            }
        }
        10 => gen::down(iv.0),
        11 => gen::up(iv.1),
        12 => iv.1 + (iv.1 - iv.0),
        13 => iv.0 - (iv.1 - iv.0),
        14 => T::of((p.unit() - 0.5) * 1e6),
        _ => match p.below(5) {
            0 => T::nan(),
            1 => T::infinity(),
            2 => T::neg_infinity(),
            3 => -T::nan(),
            _ => T::max_value(),
        },
    }
}

/// Splits of an event list into calls.
pub fn calls<P>(evs: &[Ev<P>]) -> Vec<&[Ev<P>]> {
    let mut out = vec![];
    let mut start = None;
    for (i, e) in evs.iter().enumerate() {
        if let Ev::Call(_) = e {
            if let Some(s) = start {
                out.push(&evs[s..i]);
            }
            start = Some(i);
        }
    }
    if let Some(s) = start {
        out.push(&evs[s..]);
    }
    out
}

/// Groups calls into runs: each run starts with find_min.
pub fn runs<P>(evs: &[Ev<P>]) -> Vec<&[Ev<P>]> {
    let mut out = vec![];
    let mut start: Option<usize> = None;
    for (i, e) in evs.iter().enumerate() {
        if let Ev::Call("find_min") = e {
            if let Some(s) = start {
                out.push(&evs[s..i]);
            }
            start = Some(i);
        }
    }
    if let Some(s) = start {
        out.push(&evs[s..]);
    }
    out
}

pub fn goals<P: Pt>(evs: &[Ev<P>]) -> Vec<(P, f64)> {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Goal(p, v) => Some((p.clone(), *v)),
            _ => None,
        })
        .collect()
}

pub fn states<P: Pt>(evs: &[Ev<P>]) -> Vec<&St<P>> {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Log { st, .. } | Ev::Stop { st, .. } => Some(st),
            _ => None,
        })
        .collect()
}

/// Fingerprint of the goal calls of a trace.
pub fn goal_fp<P: Pt>(evs: &[Ev<P>]) -> Vec<(Key, u64)> {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Goal(p, v) => Some((p.key(), vkey(*v))),
            _ => None,
        })
        .collect()
}

/// First difference between two goal traces.
pub fn diff_goals<P: Pt>(a: &[Ev<P>], b: &[Ev<P>]) -> Option<String> {
    let (x, y) = (goals(a), goals(b));
    for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
        if !same_pv(p, q) {
            return Some(format!("evaluation {}: {:?} versus {:?}", i, p, q));
        }
    }
    if x.len() != y.len() {
        return Some(format!("{} evaluations versus {}", x.len(), y.len()));
    }
    None
}

pub fn rets<P: Pt>(evs: &[Ev<P>]) -> Vec<Option<(P, f64)>> {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Ret(r) => Some(r.clone()),
            _ => None,
        })
        .collect()
}

// ---------------------------------------------------------------- stop criteria as data

#[derive(Clone, Debug)]
pub enum StopTree {
    Max(usize),
    NoChange(usize, f64),
    Thr(f64),
    Any(Vec<StopTree>),
    All(Vec<StopTree>),
}

pub fn lib_stop<P: 'static>(t: &StopTree) -> Box<dyn StopChecker<P>> {
    use optlib::tools::stopchecker::*;
    match t {
        StopTree::Max(n) => Box::new(MaxIterations::new(*n)),
        StopTree::NoChange(n, d) => Box::new(GoalNotChange::new(*n, *d)),
        StopTree::Thr(v) => Box::new(Threshold::new(*v)),
        StopTree::Any(v) => Box::new(CompositeAny::new(v.iter().map(lib_stop).collect())),
        StopTree::All(v) => Box::new(CompositeAll::new(v.iter().map(lib_stop).collect())),
    }
}

/// Reference model of a stop criterion following one run.
#[derive(Clone, Debug)]
pub enum StopModel {
    Max(usize),
    NoChange { n: usize, delta: f64, old: f64, at: usize },
    Thr(f64),
    Any(Vec<StopModel>),
    All(Vec<StopModel>),
}

impl StopModel {
    pub fn new(t: &StopTree) -> Self {
        match t {
            StopTree::Max(n) => StopModel::Max(*n),
            StopTree::NoChange(n, d) => StopModel::NoChange { n: *n, delta: *d, old: f64::MAX, at: 0 },
            StopTree::Thr(v) => StopModel::Thr(*v),
            StopTree::Any(v) => StopModel::Any(v.iter().map(StopModel::new).collect()),
            StopTree::All(v) => StopModel::All(v.iter().map(StopModel::new).collect()),
        }
    }
    pub fn see(&mut self, iter: usize, best: Option<f64>) -> bool {
        match self {
            StopModel::Max(n) => iter >= *n,
            StopModel::Thr(t) => match best {
                Some(b) => b <= *t,
                None => false,
            },
            StopModel::NoChange { n, delta, old, at } => match best {
                None => false,
                Some(b) => {
                    if (b - *old).abs() > *delta {
                        *old = b;
                        *at = iter;
                    }
                    iter - *at > *n
                }
            },
            StopModel::Any(v) => v.iter_mut().fold(false, |a, m| m.see(iter, best) | a),
            StopModel::All(v) => v.iter_mut().fold(true, |a, m| m.see(iter, best) & a),
        }
    }
}

pub fn gen_stop_tree(s: &mut Src, depth: usize, max_iter: usize) -> StopTree {
    let w: [u64; 5] = [4, 4, 3, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }];
    match s.weighted(&w) {
        0 => StopTree::Max(s.size(0, max_iter)),
        1 => StopTree::NoChange(s.size(0, max_iter), *s.pick(&[0.0, 1e-9, 0.5, 1.0, 3.0, 100.0])),
        2 => StopTree::Thr(match s.n(4) {
            0 => s.n(8) as f64 - 2.0,
            1 => gen::finite(s),
            2 => *s.pick(&[f64::NEG_INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NAN]),
            _ => 1e-3,
        }),
        k => {
            let n = if depth <= 1 { s.few(1, 4, 20) } else if depth <= 3 { s.r(1, 4) } else { s.r(1, 2) };
            let v = (0..n).map(|_| gen_stop_tree(s, depth - 1, max_iter)).collect();
            if k == 3 {
                StopTree::Any(v)
            } else {
                StopTree::All(v)
            }
        }
    }
}
