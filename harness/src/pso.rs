//! Particle swarm scenarios: specification as data, recording wrappers, runner.

use crate::common::*;
use crate::engine::{no_panic, Prng, Src};
use crate::gen::{self, Fl};
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};

pub use crate::ga::{gen_scale, Scale, StopS, Trace};

#[derive(Clone, Debug)]
pub enum CoordS {
    Lib(usize),
    Script { seed: u64, sizes: Vec<usize>, wild: bool },
}

#[derive(Clone, Debug)]
pub enum VelInitS<T> {
    Zero,
    Rand(Vec<(T, T)>),
    Script { seed: u64, wild: bool },
}

#[derive(Clone, Debug)]
pub enum InertS<T> {
    Const(T),
    Linear(T, T, usize),
}

#[derive(Clone, Debug)]
pub enum VelS<T> {
    Classic(T, T),
    Canon(T, T, T),
    Inertia(T, T, InertS<T>),
    Neg([T; 7]),
    /// Arbitrary velocities of a seeded generator
    Script { seed: u64, wild: bool },
}

#[derive(Clone, Debug)]
pub enum PostVS<T> {
    Dims(Vec<T>),
    Abs(T),
    Script { seed: u64, wild: bool },
}

#[derive(Clone, Debug)]
pub enum MoveS {
    Boundary,
    Teleport(f32),
    Script { seed: u64, wild: bool },
}

#[derive(Clone, Debug)]
pub enum POp<T> {
    Find { iters: u64 },
    Next { iters: u64 },
    SetMoves(Vec<MoveS>),
    SetPostV(Vec<PostVS<T>>),
    SetStop(StopS),
    SetLoggers(usize),
    Stream(StreamS),
}

#[derive(Clone, Debug)]
pub struct PsoSpec<T> {
    pub intervals: Vec<(T, T)>,
    pub coords: CoordS,
    pub vels: VelInitS<T>,
    pub vel: VelS<T>,
    pub postv: Vec<PostVS<T>>,
    pub moves: Vec<MoveS>,
    pub goal: GoalS,
    pub stop: StopS,
    pub loggers: usize,
    pub script: Vec<POp<T>>,
    pub stream: StreamS,
    pub plan_evals: u64,
}

/// Everything visible of a swarm; also compares the different views.
pub fn swarm_view<T: Fl>(sw: &Swarm<T>) -> (Pop<Vec<T>>, Option<String>)
where
    Vec<T>: Pt,
{
    let agents = sw.get_agents();
    let mut err = None;
    if agents.len() != sw.len() {
        err = Some(format!("len() is {} but get_agents() lists {}", sw.len(), agents.len()));
    }
    for (i, a) in agents.iter().enumerate().filter(|(i, _)| i % 8 == 0) {
        let copy: Particle<T> = (**a).clone();
        if copy.get_parameter().key() != a.get_parameter().key()
            || copy.get_goal().to_bits() != a.get_goal().to_bits() && !(copy.get_goal().is_nan() && a.get_goal().is_nan())
        {
            err = Some(format!("a clone of particle {} differs from it", i));
        }
    }
    let members = agents.iter().map(|a| (a.get_parameter().clone(), a.get_goal(), true)).collect();
    (
        Pop { iter: AlgorithmState::get_iteration(sw), members, best: sw.get_best_solution(), worst: None },
        err,
    )
}

// ---------------------------------------------------------------- components

struct CoordW<T: Fl>
where
    Vec<T>: Pt,
{
    id: u32,
    inner: Option<RandomCoordinatesInitializer<T>>,
    spec: CoordS,
    iv: Vec<(T, T)>,
    prng: Prng,
    call: usize,
    count: std::rc::Rc<std::cell::Cell<usize>>,
    rec: RecRef<Vec<T>>,
}

impl<T: Fl> CoordinatesInitializer<T> for CoordW<T>
where
    Vec<T>: Pt,
{
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        let out = match (&mut self.inner, &self.spec) {
            (Some(c), _) => c.get_coordinates(),
            (None, CoordS::Script { sizes, wild, .. }) => {
                let n = sizes[self.call % sizes.len()];
                let (p, iv) = (&mut self.prng, &self.iv);
                (0..n).map(|_| iv.iter().map(|i| rnd_coord(p, *i, *wild)).collect()).collect()
            }
            _ => unreachable!(),
        };
        self.call += 1;
        self.count.set(out.len());
        note(&self.rec, Ev::Coords { id: self.id, out: out.clone() });
        out
    }
}

struct VelInitW<T: Fl>
where
    Vec<T>: Pt,
{
    id: u32,
    inner: Option<Box<dyn VelocityInitializer<T>>>,
    spec: VelInitS<T>,
    iv: Vec<(T, T)>,
    prng: Prng,
    count: std::rc::Rc<std::cell::Cell<usize>>,
    rec: RecRef<Vec<T>>,
}

impl<T: Fl> VelocityInitializer<T> for VelInitW<T>
where
    Vec<T>: Pt,
{
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        let out = match (&mut self.inner, &self.spec) {
            (Some(c), _) => c.get_velocity(),
            (None, VelInitS::Script { wild, .. }) => {
                let n = self.count.get();
                let (p, iv) = (&mut self.prng, &self.iv);
                (0..n)
                    .map(|_| {
                        iv.iter()
                            .map(|i| {
                                let w = i.1 - i.0;
                                rnd_coord(p, (-w, w), *wild)
                            })
                            .collect()
                    })
                    .collect()
            }
            // custom sized zero / random velocities (library initializers have a fixed count)
            (None, VelInitS::Zero) => (0..self.count.get()).map(|_| vec![T::zero(); self.iv.len()]).collect(),
            (None, VelInitS::Rand(iv)) => {
                let p = &mut self.prng;
                (0..self.count.get()).map(|_| iv.iter().map(|i| rnd_coord(p, *i, false)).collect()).collect()
            }
        };
        note(&self.rec, Ev::Vels { id: self.id, out: out.clone() });
        out
    }
}

struct VelW<T: Fl>
where
    Vec<T>: Pt,
{
    id: u32,
    inner: Option<Box<dyn VelocityCalculator<T>>>,
    /// library rule with zero coefficients: returns the remembered velocity
    probe: ClassicVelocityCalculator<T>,
    spec: VelS<T>,
    prng: Prng,
    iv: Vec<(T, T)>,
    rec: RecRef<Vec<T>>,
}

impl<T: Fl> VelocityCalculator<T> for VelW<T>
where
    Vec<T>: Pt,
{
    fn calc_new_velocity(&mut self, swarm: &Swarm<T>, particle: &Particle<T>) -> Vec<T> {
        let light = self.rec.borrow().light;
        let out = match (&mut self.inner, &self.spec) {
            (Some(c), _) => c.calc_new_velocity(swarm, particle),
            (None, VelS::Script { wild, .. }) => {
                let (p, iv) = (&mut self.prng, &self.iv);
                iv.iter()
                    .map(|i| {
                        let w = i.1 - i.0;
                        rnd_coord(p, (-w, w), *wild)
                    })
                    .collect()
            }
            _ => unreachable!(),
        };
        if !light {
            let at = particle.get_parameter().clone();
            // with finite positions and bests, the probe reads the velocity exactly
            let remembered = if self.inner.is_none() {
                let v = self.probe.calc_new_velocity(swarm, particle);
                Some(v)
            } else {
                None
            };
            let (sw, e) = swarm_view(swarm);
            let mut r = self.rec.borrow_mut();
            if let (Some(e), true) = (e, r.view_err.is_none()) {
                r.view_err = Some(e);
            }
            drop(r);
            note(&self.rec, Ev::Vel { id: self.id, sw, at, at_goal: particle.get_goal(), remembered, out: out.clone() });
        }
        out
    }
}

struct PostVW<T: Fl>
where
    Vec<T>: Pt,
{
    id: u32,
    inner: Option<Box<dyn PostVelocityCalc<T>>>,
    prng: Prng,
    wild: bool,
    rec: RecRef<Vec<T>>,
}

impl<T: Fl> PostVelocityCalc<T> for PostVW<T>
where
    Vec<T>: Pt,
{
    fn correct_velocity(&mut self, velocity: Vec<T>) -> Vec<T> {
        let inp = velocity.clone();
        let out: Vec<T> = match &mut self.inner {
            Some(c) => c.correct_velocity(velocity),
            None => {
                let p = &mut self.prng;
                let wild = self.wild;
                velocity
                    .iter()
                    .map(|v| match p.below(6) {
                        0 => -*v,
                        1 => *v * T::of(0.5),
                        2 => T::of(p.unit() - 0.5),
                        3 if wild => rnd_coord(p, (-T::one(), T::one()), true),
                        _ => *v,
                    })
                    .collect()
            }
        };
        if !self.rec.borrow().light {
            note(&self.rec, Ev::PostV { id: self.id, inp, out: out.clone() });
        }
        out
    }
}

struct MoveW<T: Fl>
where
    Vec<T>: Pt,
{
    id: u32,
    inner: Option<Box<dyn PostMove<T>>>,
    prng: Prng,
    wild: bool,
    iv: Vec<(T, T)>,
    rec: RecRef<Vec<T>>,
}

impl<T: Fl> PostMove<T> for MoveW<T>
where
    Vec<T>: Pt,
{
    fn post_move(&mut self, c: &mut Vec<T>) {
        let inp = c.clone();
        match &mut self.inner {
            Some(m) => m.post_move(c),
            None => {
                let p = &mut self.prng;
                for i in 0..c.len().min(self.iv.len()) {
                    if p.below(4) == 0 {
                        c[i] = rnd_coord(p, self.iv[i], self.wild);
                    }
                }
            }
        }
        if !self.rec.borrow().light {
            note(&self.rec, Ev::Move { id: self.id, inp, out: c.clone() });
        }
    }
}

// ---------------------------------------------------------------- builder and runner

pub struct PBuilder<T: Fl>
where
    Vec<T>: Pt,
{
    pub rec: RecRef<Vec<T>>,
    next_id: u32,
    iv: Vec<(T, T)>,
    pub map: Option<fn(f64) -> f64>,
    plan_evals: u64,
    count: std::rc::Rc<std::cell::Cell<usize>>,
    /// used instead of the specified velocity rule
    pub rule: Option<Box<dyn VelocityCalculator<T>>>,
}

pub fn lib_rule<T: Fl>(v: &VelS<T>) -> Option<Box<dyn VelocityCalculator<T>>> {
    Some(match v {
        VelS::Classic(a, b) => Box::new(ClassicVelocityCalculator::new(*a, *b)),
        VelS::Canon(a, b, c) => Box::new(CanonicalVelocityCalculator::new(*a, *b, *c)),
        VelS::Inertia(a, b, i) => Box::new(InertiaVelocityCalculator::new(*a, *b, lib_inertia(i))),
        VelS::Neg(p) => Box::new(NegativeReinforcement::new(p[0], p[1], p[2], p[3], p[4], p[5], p[6])),
        VelS::Script { .. } => return None,
    })
}

pub fn lib_inertia<T: Fl>(i: &InertS<T>) -> Box<dyn Inertia<T>> {
    match i {
        InertS::Const(w) => Box::new(ConstInertia::new(*w)),
        InertS::Linear(a, b, t) => Box::new(LinearInertia::new(*a, *b, *t)),
    }
}

impl<T: Fl> PBuilder<T>
where
    Vec<T>: Pt,
{
    pub fn new(rec: RecRef<Vec<T>>, iv: &[(T, T)]) -> Self {
        PBuilder {
            rec,
            next_id: 0,
            iv: iv.to_vec(),
            map: None,
            plan_evals: u64::MAX,
            count: std::rc::Rc::new(std::cell::Cell::new(0)),
            rule: None,
        }
    }
    fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }
    pub fn moves(&mut self, cs: &[MoveS]) -> (Vec<u32>, Vec<Box<dyn PostMove<T>>>) {
        let mut ids = vec![];
        let mut v: Vec<Box<dyn PostMove<T>>> = vec![];
        for c in cs {
            let id = self.id();
            ids.push(id);
            let (inner, seed, wild): (Option<Box<dyn PostMove<T>>>, u64, bool) = match c {
                MoveS::Boundary => (Some(Box::new(MoveToBoundary::new(self.iv.clone()))), 0, false),
                MoveS::Teleport(p) => (Some(Box::new(RandomTeleport::new(self.iv.clone(), *p))), 0, false),
                MoveS::Script { seed, wild } => (None, *seed, *wild),
            };
            v.push(Box::new(MoveW { id, inner, prng: Prng(seed), wild, iv: self.iv.clone(), rec: self.rec.clone() }));
        }
        (ids, v)
    }
    pub fn postv(&mut self, cs: &[PostVS<T>]) -> (Vec<u32>, Vec<Box<dyn PostVelocityCalc<T>>>) {
        let mut ids = vec![];
        let mut v: Vec<Box<dyn PostVelocityCalc<T>>> = vec![];
        for c in cs {
            let id = self.id();
            ids.push(id);
            let (inner, seed, wild): (Option<Box<dyn PostVelocityCalc<T>>>, u64, bool) = match c {
                PostVS::Dims(m) => (Some(Box::new(MaxVelocityDimensions::new(m.clone()))), 0, false),
                PostVS::Abs(m) => (Some(Box::new(MaxVelocityAbs::new(*m))), 0, false),
                PostVS::Script { seed, wild } => (None, *seed, *wild),
            };
            v.push(Box::new(PostVW { id, inner, prng: Prng(seed), wild, rec: self.rec.clone() }));
        }
        (ids, v)
    }
    pub fn stop(&mut self, c: &StopS) -> (u32, Box<dyn StopChecker<Vec<T>>>) {
        let id = self.id();
        match c {
            StopS::Plan => (id, Box::new(PlanStop { id, rec: self.rec.clone() })),
            StopS::Max(n) => {
                (id, Box::new(RecStop { id, inner: lib_stop(&StopTree::Max(*n)), rec: self.rec.clone() }))
            }
            StopS::Tree(t) => (id, Box::new(RecStop { id, inner: lib_stop(t), rec: self.rec.clone() })),
        }
    }
    pub fn loggers(&mut self, n: usize) -> (Vec<u32>, Vec<Box<dyn Logger<Vec<T>>>>) {
        let mut ids = vec![];
        let mut v: Vec<Box<dyn Logger<Vec<T>>>> = vec![];
        for _ in 0..n {
            let id = self.id();
            ids.push(id);
            v.push(Box::new(RecLogger { id, rec: self.rec.clone() }));
        }
        (ids, v)
    }
    fn log_set(&self, what: &'static str, ids: Vec<u32>) {
        self.rec.borrow_mut().evs.push(Ev::Set(what, ids));
    }

    pub fn goal(&self, sp: &PsoSpec<T>) -> RecGoal<Vec<T>> {
        RecGoal { spec: sp.goal.clone(), rec: self.rec.clone(), map: self.map }
    }
    pub fn build(&mut self, sp: &PsoSpec<T>) -> ParticleSwarmOptimizer<'static, T> {
        let goal = Box::new(self.goal(sp));
        self.build_with(sp, goal)
    }
    pub fn build_with<'a>(&mut self, sp: &PsoSpec<T>, goal: Box<dyn Goal<Vec<T>> + 'a>) -> ParticleSwarmOptimizer<'a, T> {
        let (sid, stop) = self.stop(&sp.stop);
        let cid = self.id();
        let (inner, seed) = match &sp.coords {
            CoordS::Lib(n) => (Some(RandomCoordinatesInitializer::new(sp.intervals.clone(), *n)), 0),
            CoordS::Script { seed, .. } => (None, *seed),
        };
        let lib_count = match &sp.coords {
            CoordS::Lib(n) => Some(*n),
            _ => None,
        };
        let coords = Box::new(CoordW {
            id: cid,
            inner,
            spec: sp.coords.clone(),
            iv: sp.intervals.clone(),
            prng: Prng(seed),
            call: 0,
            count: self.count.clone(),
            rec: self.rec.clone(),
        });
        let vid = self.id();
        let dim = sp.intervals.len();
        let (inner, seed): (Option<Box<dyn VelocityInitializer<T>>>, u64) = match (&sp.vels, lib_count) {
            (VelInitS::Zero, Some(n)) => (Some(Box::new(ZeroVelocityInitializer::new(dim, n))), 0),
            (VelInitS::Rand(iv), Some(n)) => (Some(Box::new(RandomVelocityInitializer::new(iv.clone(), n))), 0),
            (VelInitS::Script { seed, .. }, _) => (None, *seed),
            _ => (None, 77),
        };
        let vels = Box::new(VelInitW {
            id: vid,
            inner,
            spec: sp.vels.clone(),
            iv: sp.intervals.clone(),
            prng: Prng(seed),
            count: self.count.clone(),
            rec: self.rec.clone(),
        });
        let wid = self.id();
        let seed = match &sp.vel {
            VelS::Script { seed, .. } => *seed,
            _ => 0,
        };
        let vel = Box::new(VelW {
            id: wid,
            inner: self.rule.take().or_else(|| lib_rule(&sp.vel)),
            probe: ClassicVelocityCalculator::new(T::zero(), T::zero()),
            spec: sp.vel.clone(),
            prng: Prng(seed),
            iv: sp.intervals.clone(),
            rec: self.rec.clone(),
        });
        let mut o = ParticleSwarmOptimizer::new(goal, stop, coords, vels, vel);
        self.log_set("stop", vec![sid]);
        let (ids, v) = self.postv(&sp.postv);
        if !sp.postv.is_empty() {
            o.set_post_velocity_calc(v);
        }
        self.log_set("postv", ids);
        let (ids, v) = self.moves(&sp.moves);
        if !sp.moves.is_empty() {
            o.set_post_moves(v);
        }
        self.log_set("moves", ids);
        let (ids, v) = self.loggers(sp.loggers);
        if sp.loggers > 0 {
            o.set_loggers(v);
        }
        self.log_set("loggers", ids);
        self.plan_evals = sp.plan_evals;
        o
    }

    pub fn exec(&mut self, o: &mut ParticleSwarmOptimizer<'_, T>, op: &POp<T>) {
        match op {
            POp::Find { iters } => {
                {
                    let mut r = self.rec.borrow_mut();
                    r.plan = *iters;
                    r.plan_evals = r.evals.saturating_add(self.plan_evals);
                    r.evs.push(Ev::Call("find_min"));
                }
                let res = o.find_min();
                self.rec.borrow_mut().evs.push(Ev::Ret(res));
            }
            POp::Next { iters } => {
                {
                    let mut r = self.rec.borrow_mut();
                    r.plan = *iters;
                    r.plan_evals = r.evals.saturating_add(self.plan_evals);
                    r.evs.push(Ev::Call("next_iterations"));
                }
                let res = o.next_iterations();
                self.rec.borrow_mut().evs.push(Ev::Ret(res));
            }
            POp::SetMoves(cs) => {
                let (ids, v) = self.moves(cs);
                o.set_post_moves(v);
                self.log_set("moves", ids);
            }
            POp::SetPostV(cs) => {
                let (ids, v) = self.postv(cs);
                o.set_post_velocity_calc(v);
                self.log_set("postv", ids);
            }
            POp::SetStop(c) => {
                let (i, b) = self.stop(c);
                o.set_stop_checker(b);
                self.log_set("stop", vec![i]);
            }
            POp::SetLoggers(n) => {
                let (ids, v) = self.loggers(*n);
                o.set_loggers(v);
                self.log_set("loggers", ids);
            }
            POp::Stream(st) => st.install(),
        }
    }
}

pub fn run<T: Fl>(sp: &PsoSpec<T>) -> Result<Trace<Vec<T>>, String>
where
    Vec<T>: Pt,
{
    run_with(sp, None, false)
}

pub fn run_with<T: Fl>(sp: &PsoSpec<T>, map: Option<fn(f64) -> f64>, light: bool) -> Result<Trace<Vec<T>>, String>
where
    Vec<T>: Pt,
{
    let rec = new_rec();
    rec.borrow_mut().light = light;
    let r2 = rec.clone();
    let res = no_panic(move || {
        sp.stream.install();
        let mut b = PBuilder::new(r2, &sp.intervals);
        b.map = map;
        let mut o = b.build(sp);
        for op in &sp.script {
            b.exec(&mut o, op);
        }
    });
    let mut r = match rec.try_borrow_mut() {
        Ok(r) => r,
        Err(_) => return Err(format!("run failed: {:?}", res.err())),
    };
    let t = Trace { evs: std::mem::take(&mut r.evs), view_err: r.view_err.take() };
    match res {
        Ok(()) => Ok(t),
        Err(m) => Err(format!("run failed: {}", m)),
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Debug)]
pub struct PsoOpts {
    pub hostile: bool,
    pub stateful: bool,
    pub custom: bool,
    pub lib: bool,
    pub wild: bool,
    pub setters: bool,
    pub max_pop: usize,
    pub max_iters: usize,
    pub plain_intervals: bool,
    pub multi_call: bool,
    pub teleport: bool,
    /// allow empty swarms (custom rules only)
    pub empty: bool,
}

impl Default for PsoOpts {
    fn default() -> Self {
        PsoOpts {
            hostile: true,
            stateful: true,
            custom: true,
            lib: true,
            wild: true,
            setters: false,
            max_pop: 40,
            max_iters: 25,
            plain_intervals: false,
            multi_call: true,
            teleport: true,
            empty: true,
        }
    }
}

pub fn gen_coef<T: Fl>(s: &mut Src) -> T {
    match s.weighted(&[3, 3, 1, 1]) {
        0 => T::of(s.r(0, 12) as f64 / 4.0),
        1 => T::of(gen::unit(s) * 3.0),
        2 => T::of(-(gen::unit(s) * 2.0)),
        _ => T::zero(),
    }
}

pub fn gen_inertia<T: Fl>(s: &mut Src, max_iters: usize) -> InertS<T> {
    if s.flag() {
        InertS::Const(T::of(gen::unit(s) * 1.5))
    } else {
        let a = gen::unit(s);
        let b = a + gen::unit(s);
        InertS::Linear(T::of(a), T::of(b), s.r(1, 2 * max_iters.max(1)))
    }
}

pub fn gen_rule<T: Fl>(s: &mut Src, max_iters: usize) -> VelS<T> {
    match s.n(4) {
        0 => VelS::Classic(gen_coef(s), gen_coef(s)),
        1 => {
            let a = 2.0 + gen::unit(s) * 3.0;
            let b = 2.05 + gen::unit(s) * 3.0;
            let al = (s.r(1, 99) as f64) / 100.0;
            VelS::Canon(T::of(a), T::of(b), T::of(al))
        }
        2 => VelS::Inertia(gen_coef(s), gen_coef(s), gen_inertia(s, max_iters)),
        _ => VelS::Neg([
            gen_coef(s),
            gen_coef(s),
            gen_coef(s),
            gen_coef(s),
            gen_coef(s),
            gen_coef(s),
            T::of(gen::unit(s) * 1.2),
        ]),
    }
}

pub fn gen_moves(s: &mut Src, o: &PsoOpts) -> Vec<MoveS> {
    let n = s.few(0, 3, 12);
    (0..n)
        .map(|_| match s.weighted(&[4, if o.teleport { 2 } else { 0 }, if o.custom { 2 } else { 0 }]) {
            0 => MoveS::Boundary,
            1 => MoveS::Teleport(*s.pick(&[0.0f32, 0.05, 0.3, 0.7, 1.0])),
            _ => MoveS::Script { seed: s.word(), wild: o.wild && s.flag() },
        })
        .collect()
}

pub fn gen_postv<T: Fl>(s: &mut Src, o: &PsoOpts, dim: usize) -> Vec<PostVS<T>> {
    let n = s.few(0, 3, 12);
    (0..n)
        .map(|_| match s.weighted(&[3, 3, if o.custom { 2 } else { 0 }]) {
            0 => PostVS::Dims((0..dim).map(|_| T::of(s.r(1, 400) as f64 / 16.0)).collect()),
            1 => PostVS::Abs(T::of(s.r(1, 400) as f64 / 8.0)),
            _ => PostVS::Script { seed: s.word(), wild: o.wild && s.flag() },
        })
        .collect()
}

pub fn gen_spec<T: Fl>(s: &mut Src, o: &PsoOpts) -> PsoSpec<T>
where
    Vec<T>: Pt,
{
    let scale = gen_scale(s);
    let o = &match scale {
        Scale::Deep => PsoOpts { max_pop: o.max_pop.min(12), max_iters: o.max_iters.min(5), ..o.clone() },
        _ => o.clone(),
    };
    let dim = if scale == Scale::Deep { s.r(30, 300) } else { s.size(1, 12) };
    let intervals: Vec<(T, T)> = (0..dim)
        .map(|_| if o.plain_intervals || s.chance(70) { gen::plain_interval(s) } else { gen::interval(s) })
        .collect();
    let custom_rule = o.custom && (!o.lib || s.chance(35));
    let vel = if custom_rule {
        VelS::Script { seed: s.word(), wild: o.wild && s.chance(30) }
    } else {
        gen_rule(s, o.max_iters)
    };
    let lo = if o.empty && s.chance(5) { 0 } else { 1 };
    let coords = if !o.custom || s.flag() {
        CoordS::Lib(s.size(lo, o.max_pop))
    } else {
        let k = s.r(1, 2);
        CoordS::Script {
            seed: s.word(),
            sizes: (0..k).map(|_| s.size(lo, o.max_pop)).collect(),
            wild: o.wild && s.chance(30),
        }
    };
    let vels = match s.weighted(&[3, 3, if o.custom { 2 } else { 0 }]) {
        0 => VelInitS::Zero,
        1 => VelInitS::Rand((0..dim).map(|_| gen::plain_interval(s)).collect()),
        _ => VelInitS::Script { seed: s.word(), wild: o.wild && s.chance(30) },
    };
    let postv = gen_postv(s, o, dim);
    let moves = gen_moves(s, o);
    let goal = gen_goal(s, o.hostile, o.stateful);
    let loggers = s.few(0, 3, 12);
    let mut script = vec![POp::Find { iters: s.size(0, o.max_iters) as u64 }];
    if o.multi_call && scale == Scale::Calls {
        // more calls than fit into a byte
        let n = s.r(200, 320);
        let resumed = *s.pick(&[0, 10, 50, 90, 100]);
        for _ in 0..n {
            let iters = s.n(3) as u64;
            script.push(if s.chance(resumed) { POp::Next { iters } } else { POp::Find { iters } });
        }
    } else if o.multi_call {
        let n = s.r(0, 4);
        for _ in 0..n {
            if o.setters {
                let k = s.r(0, 2);
                for _ in 0..k {
                    script.push(match s.n(4) {
                        0 => POp::SetLoggers(s.few(0, 3, 12)),
                        1 => POp::SetMoves(gen_moves(s, o)),
                        2 => POp::SetPostV(gen_postv(s, o, dim)),
                        _ => POp::SetStop(StopS::Plan),
                    });
                }
            }
            script.push(match s.weighted(&[3, 2]) {
                0 => POp::Next { iters: s.size(0, o.max_iters) as u64 },
                _ => POp::Find { iters: s.size(0, o.max_iters) as u64 },
            });
        }
    }
    let stream = gen_stream(s);
    let mut sp = PsoSpec {
        intervals,
        coords,
        vels,
        vel,
        postv,
        moves,
        goal,
        stop: StopS::Plan,
        loggers,
        script,
        stream,
        plan_evals: 3000,
    };
    let resize = |c: &mut CoordS, n: usize| match c {
        CoordS::Lib(k) => *k = n,
        CoordS::Script { sizes, .. } => sizes[0] = n,
    };
    match scale {
        Scale::Long | Scale::Calls => {
            resize(&mut sp.coords, s.r(1, 4));
            if scale == Scale::Long {
                let iters = s.r(200, 1500) as u64;
                if let Some(POp::Find { iters: k }) = sp.script.first_mut() {
                    *k = iters;
                }
            }
            sp.plan_evals = 5000;
        }
        Scale::Wide => {
            resize(&mut sp.coords, s.r(130, 400));
            for op in sp.script.iter_mut() {
                if let POp::Find { iters } | POp::Next { iters } = op {
                    *iters = (*iters).min(2);
                }
            }
        }
        _ => {}
    }
    sp
}
