//! Genetic optimizer scenarios: specification as data, recording wrappers, runner.

use crate::common::*;
use crate::engine::{no_panic, Prng, Src};
use crate::gen::{self, Fl};
use optlib::genetic::{creation, cross, mutation, pairing, pre_birth, selection};
use optlib::genetic::{Creator, Cross, GeneticOptimizer, Mutation, Pairing, Population, PreBirth, Selection};
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};

#[derive(Clone, Debug)]
pub enum CreatorS {
    Lib(usize),
    /// sizes[k % len] points at the k-th call
    Script { seed: u64, sizes: Vec<usize>, wild: bool },
}

#[derive(Clone, Debug)]
pub enum PairS {
    Random,
    Tour { fam: usize, partners: usize, rounds: usize },
    Script { seed: u64, max_fam: usize, max_par: usize },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CrossKind {
    Mean,
    Geo,
    Bit,
    Exp,
}

#[derive(Clone, Debug)]
pub enum CrossS {
    Lib(CrossKind),
    Script { seed: u64, max_children: usize, wild: bool },
}

#[derive(Clone, Debug)]
pub enum MutS {
    Lib { prob: f64, flips: usize },
    Script { seed: u64, wild: bool },
    Identity,
}

#[derive(Clone, Debug)]
pub enum PreS {
    Interval,
    Script { seed: u64 },
}

#[derive(Clone, Debug)]
pub enum SelS {
    NaN,
    Limit(usize),
    Interval,
    Script { seed: u64, percent: u64 },
    /// kills everybody
    All,
}

#[derive(Clone, Debug)]
pub enum StopS {
    Plan,
    Max(usize),
    Tree(StopTree),
}

#[derive(Clone, Debug)]
pub enum Op {
    Find { iters: u64 },
    Next { iters: u64 },
    SetPairing(PairS),
    SetCross(CrossS),
    SetMutation(MutS),
    SetPre(Vec<PreS>),
    SetSel(Vec<SelS>),
    SetStop(StopS),
    SetLoggers(usize),
    /// install a random stream
    Stream(StreamS),
}

#[derive(Clone, Debug)]
pub struct GaSpec<P: GaPt> {
    pub intervals: Vec<(P::G, P::G)>,
    pub creator: CreatorS,
    pub pairing: PairS,
    pub cross: CrossS,
    pub muta: MutS,
    pub pre: Vec<PreS>,
    pub sel: Vec<SelS>,
    pub goal: GoalS,
    pub stop: StopS,
    pub loggers: usize,
    pub script: Vec<Op>,
    pub stream: StreamS,
    pub plan_evals: u64,
}

/// Points the genetic scenarios run on.
pub trait GaPt: Pt {
    type G: Fl;
    fn lib_creator(n: usize, iv: &[(Self::G, Self::G)]) -> Box<dyn Creator<Self>>;
    fn lib_cross(k: CrossKind) -> Box<dyn Cross<Self>>;
    fn lib_mut(prob: f64, flips: usize) -> Box<dyn Mutation<Self>>;
    fn lib_pre(iv: &[(Self::G, Self::G)]) -> Box<dyn PreBirth<Self>>;
    fn lib_sel_interval(iv: &[(Self::G, Self::G)]) -> Box<dyn Selection<Self>>;
    fn random(p: &mut Prng, iv: &[(Self::G, Self::G)], wild: bool) -> Self;
    /// a child of these parents
    fn blend(p: &mut Prng, parents: &[&Self], iv: &[(Self::G, Self::G)], wild: bool) -> Self;
}

macro_rules! vec_pt {
    ($g:ty) => {
        impl GaPt for Vec<$g> {
            type G = $g;
            fn lib_creator(n: usize, iv: &[($g, $g)]) -> Box<dyn Creator<Self>> {
                Box::new(creation::vec_float::RandomCreator::new(n, iv.to_vec()))
            }
            fn lib_cross(k: CrossKind) -> Box<dyn Cross<Self>> {
                let single: Box<dyn Cross<$g>> = match k {
                    CrossKind::Mean => Box::new(cross::CrossMean::new()),
                    CrossKind::Geo => Box::new(cross::FloatCrossGeometricMean::new()),
                    CrossKind::Bit => Box::new(cross::CrossBitwise::new()),
                    CrossKind::Exp => Box::new(cross::FloatCrossExp::new()),
                };
                Box::new(cross::VecCrossAllGenes::new(single))
            }
            fn lib_mut(prob: f64, flips: usize) -> Box<dyn Mutation<Self>> {
                let single: Box<dyn Mutation<$g>> = Box::new(mutation::BitwiseMutation::new(flips));
                Box::new(mutation::VecMutation::new(prob, single))
            }
            fn lib_pre(iv: &[($g, $g)]) -> Box<dyn PreBirth<Self>> {
                Box::new(pre_birth::vec_float::CheckChromoInterval::new(iv.to_vec()))
            }
            fn lib_sel_interval(iv: &[($g, $g)]) -> Box<dyn Selection<Self>> {
                Box::new(selection::vec_float::CheckChromoInterval::new(iv.to_vec()))
            }
            fn random(p: &mut Prng, iv: &[($g, $g)], wild: bool) -> Self {
                iv.iter().map(|i| rnd_coord::<$g>(p, *i, wild)).collect()
            }
            fn blend(p: &mut Prng, parents: &[&Self], iv: &[($g, $g)], wild: bool) -> Self {
                (0..iv.len())
                    .map(|i| {
                        if parents.is_empty() || p.below(5) == 0 {
                            rnd_coord::<$g>(p, iv[i], wild)
                        } else {
                            parents[p.below(parents.len() as u64) as usize][i]
                        }
                    })
                    .collect()
            }
        }
    };
}
vec_pt!(f32);
vec_pt!(f64);

impl GaPt for Tok {
    type G = f64;
    fn lib_creator(_: usize, _: &[(f64, f64)]) -> Box<dyn Creator<Self>> {
        unreachable!()
    }
    fn lib_cross(_: CrossKind) -> Box<dyn Cross<Self>> {
        unreachable!()
    }
    fn lib_mut(_: f64, _: usize) -> Box<dyn Mutation<Self>> {
        unreachable!()
    }
    fn lib_pre(_: &[(f64, f64)]) -> Box<dyn PreBirth<Self>> {
        unreachable!()
    }
    fn lib_sel_interval(_: &[(f64, f64)]) -> Box<dyn Selection<Self>> {
        unreachable!()
    }
    fn random(p: &mut Prng, _: &[(f64, f64)], wild: bool) -> Self {
        Tok(if wild { p.below(20) } else { p.next() })
    }
    fn blend(p: &mut Prng, _: &[&Self], iv: &[(f64, f64)], wild: bool) -> Self {
        Self::random(p, iv, wild)
    }
}

/// Everything visible of a population; also compares the different views.
pub fn pop_view<P: Pt>(pop: &Population<P>) -> (Pop<P>, Option<String>) {
    let members: Vec<(P, f64, bool)> =
        pop.iter().map(|i| (i.get_chromosomes().clone(), i.get_fitness(), i.is_alive())).collect();
    let mut err = None;
    let n = members.len();
    if pop.len() != n {
        err = Some(format!("len() is {} but iter() gives {}", pop.len(), n));
    }
    let alive = members.iter().filter(|m| m.2).count();
    if pop.len_alive() != alive {
        err = Some(format!("len_alive() is {} but {} individuals are alive", pop.len_alive(), alive));
    }
    if pop.get_iteration() != AlgorithmState::get_iteration(pop) {
        err = Some("two different iteration numbers".into());
    }
    let agents = pop.get_agents();
    if agents.len() != n {
        err = Some(format!("get_agents() lists {} of {} individuals", agents.len(), n));
    } else {
        for (i, a) in agents.iter().enumerate() {
            if a.get_parameter().key() != members[i].0.key()
                || vkey(a.get_goal()) != vkey(members[i].1)
                || vkey(pop[i].get_fitness()) != vkey(members[i].1)
                || vkey(pop[i].get_goal()) != vkey(members[i].1)
                || pop[i].get_chromosomes().key() != members[i].0.key()
                || pop[i].is_alive() != members[i].2
                || a.is_alive() != members[i].2
            {
                err = Some(format!("views of individual {} differ", i));
            }
            if i < 16 || i % 16 == 0 {
                let copy = pop[i].clone();
                if copy.get_chromosomes().key() != members[i].0.key()
                    || vkey(copy.get_fitness()) != vkey(members[i].1)
                    || copy.is_alive() != members[i].2
                {
                    err = Some(format!("a clone of individual {} differs from it", i));
                }
            }
        }
    }
    let best = pop.get_best().as_ref().map(|b| (b.get_chromosomes().clone(), b.get_fitness()));
    let worst = pop.get_worst().as_ref().map(|b| (b.get_chromosomes().clone(), b.get_fitness()));
    if !same_opt(&best, &pop.get_best_solution()) {
        err = Some(format!("get_best() {:?} but get_best_solution() {:?}", best, pop.get_best_solution()));
    }
    (Pop { iter: pop.get_iteration(), members, best, worst }, err)
}

fn view<P: Pt>(rec: &RecRef<P>, pop: &Population<P>) -> Pop<P> {
    let (v, e) = pop_view(pop);
    if let Some(e) = e {
        let mut r = rec.borrow_mut();
        if r.view_err.is_none() {
            r.view_err = Some(e);
        }
    }
    v
}

// ---------------------------------------------------------------- components

pub struct CreatorW<P: GaPt> {
    id: u32,
    inner: Option<Box<dyn Creator<P>>>,
    spec: CreatorS,
    iv: Vec<(P::G, P::G)>,
    prng: Prng,
    call: usize,
    rec: RecRef<P>,
}

impl<P: GaPt> Creator<P> for CreatorW<P> {
    fn create(&mut self) -> Vec<P> {
        let out = match (&mut self.inner, &self.spec) {
            (Some(c), _) => c.create(),
            (None, CreatorS::Script { sizes, wild, .. }) => {
                let n = sizes[self.call % sizes.len()];
                (0..n).map(|_| P::random(&mut self.prng, &self.iv, *wild)).collect()
            }
            _ => unreachable!(),
        };
        self.call += 1;
        note(&self.rec, Ev::Create { id: self.id, out: out.clone() });
        out
    }
}

pub struct PairW<P: GaPt> {
    id: u32,
    inner: Option<Box<dyn Pairing<P>>>,
    spec: PairS,
    prng: Prng,
    rec: RecRef<P>,
}

impl<P: GaPt> Pairing<P> for PairW<P> {
    fn get_pairs(&mut self, population: &Population<P>) -> Vec<Vec<usize>> {
        let out = match (&mut self.inner, &self.spec) {
            (Some(c), _) => c.get_pairs(population),
            (None, PairS::Script { max_fam, max_par, .. }) => {
                let n = population.len() as u64;
                if n == 0 && (*max_par == 0 || self.prng.below(2) == 0) {
                    vec![]
                } else {
                    let f = self.prng.below(*max_fam as u64 + 1);
                    (0..f)
                        .map(|_| {
                            // 0: exactly two parents; else sometimes a family without parents
                            let k = if *max_par == 0 {
                                2
                            } else if n == 0 || self.prng.below(10) == 0 {
                                0
                            } else {
                                1 + self.prng.below(*max_par as u64)
                            };
                            (0..k).map(|_| self.prng.below(n) as usize).collect()
                        })
                        .collect()
                }
            }
            _ => unreachable!(),
        };
        if !self.rec.borrow().light {
            let pop = view(&self.rec, population);
            note(&self.rec, Ev::Pair { id: self.id, pop, out: out.clone() });
        }
        out
    }
}

pub struct CrossW<P: GaPt> {
    id: u32,
    inner: Option<Box<dyn Cross<P>>>,
    spec: CrossS,
    iv: Vec<(P::G, P::G)>,
    prng: Prng,
    rec: RecRef<P>,
}

impl<P: GaPt> Cross<P> for CrossW<P> {
    fn cross(&mut self, parents: &[&P]) -> Vec<P> {
        let out = match (&mut self.inner, &self.spec) {
            (Some(c), _) => c.cross(parents),
            (None, CrossS::Script { max_children, wild, .. }) => {
                let k = self.prng.below(*max_children as u64 + 1);
                (0..k).map(|_| P::blend(&mut self.prng, parents, &self.iv, *wild)).collect()
            }
            _ => unreachable!(),
        };
        if !self.rec.borrow().light {
            note(&self.rec, Ev::Cross {
                id: self.id,
                parents: parents.iter().map(|p| (*p).clone()).collect(),
                out: out.clone(),
            });
        }
        out
    }
}

pub struct MutW<P: GaPt> {
    id: u32,
    inner: Option<Box<dyn Mutation<P>>>,
    spec: MutS,
    iv: Vec<(P::G, P::G)>,
    prng: Prng,
    rec: RecRef<P>,
}

impl<P: GaPt> Mutation<P> for MutW<P> {
    fn mutation(&mut self, c: &P) -> P {
        let out = match (&mut self.inner, &self.spec) {
            (Some(m), _) => m.mutation(c),
            (None, MutS::Script { wild, .. }) => {
                if self.prng.below(3) == 0 {
                    c.clone()
                } else {
                    P::blend(&mut self.prng, &[c], &self.iv, *wild)
                }
            }
            _ => c.clone(),
        };
        if !self.rec.borrow().light {
            note(&self.rec, Ev::Mut { id: self.id, inp: c.clone(), out: out.clone() });
        }
        out
    }
}

pub struct PreW<P: GaPt> {
    id: u32,
    inner: Option<Box<dyn PreBirth<P>>>,
    iv: Vec<(P::G, P::G)>,
    prng: Prng,
    rec: RecRef<P>,
}

impl<P: GaPt> PreBirth<P> for PreW<P> {
    fn pre_birth(&mut self, population: &Population<P>, ch: &mut Vec<P>) {
        let before = ch.clone();
        match &mut self.inner {
            Some(c) => c.pre_birth(population, ch),
            None => match self.prng.below(5) {
                0 => {
                    let mut p = self.prng.clone();
                    ch.retain(|_| p.below(2) == 0);
                    self.prng = p;
                }
                1 => ch.reverse(),
                2 => {
                    let x = P::random(&mut self.prng, &self.iv, false);
                    ch.push(x);
                }
                3 => {
                    if !ch.is_empty() {
                        let i = self.prng.below(ch.len() as u64) as usize;
                        let c = ch[i].clone();
                        ch.insert(0, c);
                    }
                }
                _ => {
                    if self.prng.below(4) == 0 {
                        ch.clear();
                    }
                }
            },
        }
        if !self.rec.borrow().light {
            let pop = view(&self.rec, population);
            note(&self.rec, Ev::Pre { id: self.id, pop, before, after: ch.clone() });
        }
    }
}

pub struct SelW<P: GaPt> {
    id: u32,
    inner: Option<Box<dyn Selection<P>>>,
    spec: SelS,
    prng: Prng,
    rec: RecRef<P>,
}

impl<P: GaPt> Selection<P> for SelW<P> {
    fn kill(&mut self, population: &mut Population<P>) {
        let light = self.rec.borrow().light;
        let before = if light { None } else { Some(view(&self.rec, population)) };
        let mut killed = None;
        match (&mut self.inner, &self.spec) {
            (Some(c), _) => c.kill(population),
            (None, SelS::All) => {
                population.iter_mut().for_each(|i| i.kill());
                killed = Some((0..population.len()).collect());
            }
            (None, SelS::Script { percent, .. }) => {
                // through both mutable accesses
                let mut list = vec![];
                if self.prng.below(2) == 0 {
                    for (n, i) in population.iter_mut().enumerate() {
                        if self.prng.below(100) < *percent {
                            i.kill();
                            list.push(n);
                        }
                    }
                } else {
                    for n in (0..population.len()).rev() {
                        if self.prng.below(100) < *percent {
                            population[n].kill();
                            list.push(n);
                        }
                    }
                }
                killed = Some(list);
            }
            _ => unreachable!(),
        }
        if let Some(before) = before {
            let after = view(&self.rec, population);
            note(&self.rec, Ev::Sel { id: self.id, before, after, killed });
        }
    }
}

// ---------------------------------------------------------------- builder and runner

pub struct Builder<P: GaPt> {
    pub rec: RecRef<P>,
    next_id: u32,
    iv: Vec<(P::G, P::G)>,
    pub map: Option<fn(f64) -> f64>,
    plan_evals: u64,
}

impl<P: GaPt> Builder<P> {
    pub fn new(rec: RecRef<P>, iv: &[(P::G, P::G)]) -> Self {
        Builder { rec, next_id: 0, iv: iv.to_vec(), map: None, plan_evals: u64::MAX }
    }
    fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }
    pub fn creator(&mut self, c: &CreatorS) -> Box<dyn Creator<P>> {
        let (inner, seed) = match c {
            CreatorS::Lib(n) => (Some(P::lib_creator(*n, &self.iv)), 0),
            CreatorS::Script { seed, .. } => (None, *seed),
        };
        Box::new(CreatorW {
            id: self.id(),
            inner,
            spec: c.clone(),
            iv: self.iv.clone(),
            prng: Prng(seed),
            call: 0,
            rec: self.rec.clone(),
        })
    }
    pub fn pairing(&mut self, c: &PairS) -> (u32, Box<dyn Pairing<P>>) {
        let (inner, seed): (Option<Box<dyn Pairing<P>>>, u64) = match c {
            PairS::Random => (Some(Box::new(pairing::RandomPairing::new())), 0),
            PairS::Tour { fam, partners, rounds } => (
                Some(Box::new(
                    pairing::Tournament::new(*fam).partners_count(*partners).rounds_count(*rounds),
                )),
                0,
            ),
            PairS::Script { seed, .. } => (None, *seed),
        };
        let id = self.id();
        (id, Box::new(PairW { id, inner, spec: c.clone(), prng: Prng(seed), rec: self.rec.clone() }))
    }
    pub fn cross(&mut self, c: &CrossS) -> (u32, Box<dyn Cross<P>>) {
        let (inner, seed) = match c {
            CrossS::Lib(k) => (Some(P::lib_cross(*k)), 0),
            CrossS::Script { seed, .. } => (None, *seed),
        };
        let id = self.id();
        (
            id,
            Box::new(CrossW { id, inner, spec: c.clone(), iv: self.iv.clone(), prng: Prng(seed), rec: self.rec.clone() }),
        )
    }
    pub fn muta(&mut self, c: &MutS) -> (u32, Box<dyn Mutation<P>>) {
        let (inner, seed) = match c {
            MutS::Lib { prob, flips } => (Some(P::lib_mut(*prob, *flips)), 0),
            MutS::Script { seed, .. } => (None, *seed),
            MutS::Identity => (None, 0),
        };
        let id = self.id();
        (
            id,
            Box::new(MutW { id, inner, spec: c.clone(), iv: self.iv.clone(), prng: Prng(seed), rec: self.rec.clone() }),
        )
    }
    pub fn pre(&mut self, c: &PreS) -> (u32, Box<dyn PreBirth<P>>) {
        let (inner, seed) = match c {
            PreS::Interval => (Some(P::lib_pre(&self.iv)), 0),
            PreS::Script { seed } => (None, *seed),
        };
        let id = self.id();
        (id, Box::new(PreW { id, inner, iv: self.iv.clone(), prng: Prng(seed), rec: self.rec.clone() }))
    }
    pub fn sel(&mut self, c: &SelS) -> (u32, Box<dyn Selection<P>>) {
        let (inner, seed): (Option<Box<dyn Selection<P>>>, u64) = match c {
            SelS::NaN => (Some(Box::new(selection::KillFitnessNaN::new())), 0),
            SelS::Limit(n) => (Some(Box::new(selection::LimitPopulation::new(*n))), 0),
            SelS::Interval => (Some(P::lib_sel_interval(&self.iv)), 0),
            SelS::Script { seed, .. } => (None, *seed),
            SelS::All => (None, 0),
        };
        let id = self.id();
        (id, Box::new(SelW { id, inner, spec: c.clone(), prng: Prng(seed), rec: self.rec.clone() }))
    }
    pub fn stop(&mut self, c: &StopS) -> (u32, Box<dyn StopChecker<P>>) {
        let id = self.id();
        match c {
            StopS::Plan => (id, Box::new(PlanStop { id, rec: self.rec.clone() })),
            StopS::Max(n) => {
                (id, Box::new(RecStop { id, inner: lib_stop(&StopTree::Max(*n)), rec: self.rec.clone() }))
            }
            StopS::Tree(t) => (id, Box::new(RecStop { id, inner: lib_stop(t), rec: self.rec.clone() })),
        }
    }
    pub fn loggers(&mut self, n: usize) -> (Vec<u32>, Vec<Box<dyn Logger<P>>>) {
        let mut ids = vec![];
        let mut v: Vec<Box<dyn Logger<P>>> = vec![];
        for _ in 0..n {
            let id = self.id();
            ids.push(id);
            v.push(Box::new(RecLogger { id, rec: self.rec.clone() }));
        }
        (ids, v)
    }
    fn log_set(&self, what: &'static str, ids: Vec<u32>) {
        self.rec.borrow_mut().evs.push(Ev::Set(what, ids));
    }

    pub fn goal(&self, sp: &GaSpec<P>) -> RecGoal<P> {
        RecGoal { spec: sp.goal.clone(), rec: self.rec.clone(), map: self.map }
    }
    pub fn build(&mut self, sp: &GaSpec<P>) -> GeneticOptimizer<'static, P> {
        let goal = Box::new(self.goal(sp));
        self.build_with(sp, goal)
    }
    pub fn build_with<'a>(&mut self, sp: &GaSpec<P>, goal: Box<dyn Goal<P> + 'a>) -> GeneticOptimizer<'a, P> {
        let (sid, stop) = self.stop(&sp.stop);
        let creator = self.creator(&sp.creator);
        let (pid, pairing) = self.pairing(&sp.pairing);
        let (cid, cross) = self.cross(&sp.cross);
        let (mid, muta) = self.muta(&sp.muta);
        let mut sel_ids = vec![];
        let mut sels = vec![];
        for x in &sp.sel {
            let (i, b) = self.sel(x);
            sel_ids.push(i);
            sels.push(b);
        }
        let mut pre_ids = vec![];
        let mut pres = vec![];
        for x in &sp.pre {
            let (i, b) = self.pre(x);
            pre_ids.push(i);
            pres.push(b);
        }
        let mut o = GeneticOptimizer::new(goal, stop, creator, pairing, cross, muta, sels, pres);
        self.log_set("stop", vec![sid]);
        self.log_set("pairing", vec![pid]);
        self.log_set("cross", vec![cid]);
        self.log_set("mutation", vec![mid]);
        self.log_set("selection", sel_ids);
        self.log_set("prebirth", pre_ids);
        let (ids, lg) = self.loggers(sp.loggers);
        if sp.loggers > 0 {
            o.set_loggers(lg);
        }
        self.log_set("loggers", ids);
        self.plan_evals = sp.plan_evals;
        o
    }

    pub fn exec(&mut self, o: &mut GeneticOptimizer<'_, P>, op: &Op) {
        match op {
            Op::Find { iters } => {
                {
                    let mut r = self.rec.borrow_mut();
                    r.plan = *iters;
                    r.plan_evals = r.evals.saturating_add(self.plan_evals);
                    r.evs.push(Ev::Call("find_min"));
                }
                let res = o.find_min();
                self.rec.borrow_mut().evs.push(Ev::Ret(res));
            }
            Op::Next { iters } => {
                {
                    let mut r = self.rec.borrow_mut();
                    r.plan = *iters;
                    r.plan_evals = r.evals.saturating_add(self.plan_evals);
                    r.evs.push(Ev::Call("next_iterations"));
                }
                let res = o.next_iterations();
                self.rec.borrow_mut().evs.push(Ev::Ret(res));
            }
            Op::SetPairing(c) => {
                let (i, b) = self.pairing(c);
                o.set_pairing(b);
                self.log_set("pairing", vec![i]);
            }
            Op::SetCross(c) => {
                let (i, b) = self.cross(c);
                o.set_cross(b);
                self.log_set("cross", vec![i]);
            }
            Op::SetMutation(c) => {
                let (i, b) = self.muta(c);
                o.set_mutation(b);
                self.log_set("mutation", vec![i]);
            }
            Op::SetPre(cs) => {
                let mut ids = vec![];
                let mut v = vec![];
                for c in cs {
                    let (i, b) = self.pre(c);
                    ids.push(i);
                    v.push(b);
                }
                o.set_pre_birth(v);
                self.log_set("prebirth", ids);
            }
            Op::SetSel(cs) => {
                let mut ids = vec![];
                let mut v = vec![];
                for c in cs {
                    let (i, b) = self.sel(c);
                    ids.push(i);
                    v.push(b);
                }
                o.set_selection(v);
                self.log_set("selection", ids);
            }
            Op::SetStop(c) => {
                let (i, b) = self.stop(c);
                o.set_stop_checker(b);
                self.log_set("stop", vec![i]);
            }
            Op::SetLoggers(n) => {
                let (ids, v) = self.loggers(*n);
                o.set_loggers(v);
                self.log_set("loggers", ids);
            }
            Op::Stream(st) => st.install(),
        }
    }
}

pub struct Trace<P> {
    pub evs: Vec<Ev<P>>,
    pub view_err: Option<String>,
}

/// Build the optimizer of the specification and run its script.
pub fn run<P: GaPt>(sp: &GaSpec<P>) -> Result<Trace<P>, String> {
    run_with(sp, None, false)
}

pub fn run_with<P: GaPt>(sp: &GaSpec<P>, map: Option<fn(f64) -> f64>, light: bool) -> Result<Trace<P>, String> {
    let rec = new_rec();
    rec.borrow_mut().light = light;
    let r2 = rec.clone();
    let res = no_panic(move || {
        sp.stream.install();
        let mut b = Builder::new(r2, &sp.intervals);
        b.map = map;
        let mut o = b.build(sp);
        for op in &sp.script {
            b.exec(&mut o, op);
        }
    });
    let mut r = match rec.try_borrow_mut() {
        Ok(r) => r,
        Err(_) => return Err(format!("run failed: {:?}", res.err())),
    };
    let t = Trace { evs: std::mem::take(&mut r.evs), view_err: r.view_err.take() };
    match res {
        Ok(()) => Ok(t),
        Err(m) => Err(format!("run failed: {}", m)),
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Debug)]
pub struct GaOpts {
    /// NaN and infinite goal values
    pub hostile: bool,
    pub stateful: bool,
    /// custom pairing, crossing, mutation, pre-birth, creators
    pub custom: bool,
    pub lib: bool,
    /// custom selections
    pub custom_sel: bool,
    /// allow coordinates outside intervals and non-finite from custom components
    pub wild: bool,
    /// ops that replace components
    pub setters: bool,
    pub max_pop: usize,
    pub max_iters: usize,
    pub plain_intervals: bool,
    pub multi_call: bool,
}

impl Default for GaOpts {
    fn default() -> Self {
        GaOpts {
            hostile: true,
            stateful: true,
            custom: true,
            lib: true,
            custom_sel: true,
            wild: true,
            setters: false,
            max_pop: 60,
            max_iters: 20,
            plain_intervals: false,
            multi_call: true,
        }
    }
}

pub fn gen_pairing(s: &mut Src, o: &GaOpts, lib_cross: bool) -> PairS {
    let custom = o.custom && s.flag();
    if custom || !o.lib {
        PairS::Script { seed: s.word(), max_fam: s.size(0, 30), max_par: if lib_cross { 0 } else { s.few(1, 4, 20) } }
    } else if s.flag() {
        PairS::Random
    } else {
        PairS::Tour {
            fam: s.size(0, 40),
            partners: if lib_cross { 2 } else { s.few(1, 4, 20) },
            rounds: s.few(0, 5, 30),
        }
    }
}

pub fn gen_cross(s: &mut Src, o: &GaOpts) -> CrossS {
    if o.lib && (!o.custom || s.chance(60)) {
        CrossS::Lib(*s.pick(&[CrossKind::Mean, CrossKind::Bit, CrossKind::Exp, CrossKind::Geo]))
    } else {
        CrossS::Script { seed: s.word(), max_children: s.few(0, 3, 12), wild: o.wild && s.flag() }
    }
}

pub fn gen_muta(s: &mut Src, o: &GaOpts) -> MutS {
    if o.lib && (!o.custom || s.chance(60)) {
        MutS::Lib {
            prob: *s.pick(&[0.0, 5.0, 15.0, 50.0, 100.0, 80.0]),
            flips: s.r(0, 4),
        }
    } else if s.flag() {
        MutS::Script { seed: s.word(), wild: o.wild && s.flag() }
    } else {
        MutS::Identity
    }
}

pub fn gen_pre(s: &mut Src, o: &GaOpts) -> Vec<PreS> {
    let n = s.few(0, 3, 12);
    (0..n)
        .map(|_| {
            if o.lib && (!o.custom || s.flag()) {
                PreS::Interval
            } else {
                PreS::Script { seed: s.word() }
            }
        })
        .collect()
}

pub fn gen_sel(s: &mut Src, o: &GaOpts) -> Vec<SelS> {
    let n = s.few(0, 3, 12);
    (0..n)
        .map(|_| match s.weighted(&[4, 3, if o.lib { 2 } else { 0 }, if o.custom_sel { 3 } else { 0 }, if o.custom_sel { 1 } else { 0 }]) {
            0 => SelS::Limit(s.size(0, o.max_pop)),
            1 => SelS::NaN,
            2 => SelS::Interval,
            3 => SelS::Script { seed: s.word(), percent: s.n(80) },
            _ => {
                if s.chance(30) {
                    SelS::All
                } else {
                    SelS::NaN
                }
            }
        })
        .collect()
}

pub fn gen_script(s: &mut Src, o: &GaOpts) -> Vec<Op> {
    let mut v = vec![Op::Find { iters: s.size(0, o.max_iters) as u64 }];
    if o.multi_call {
        let n = s.r(0, 4);
        for _ in 0..n {
            v.push(match s.weighted(&[3, 2]) {
                0 => Op::Next { iters: s.size(0, o.max_iters) as u64 },
                _ => Op::Find { iters: s.size(0, o.max_iters) as u64 },
            });
        }
    }
    v
}

/// More calls than fit into a byte, of a few iterations each.
fn many_calls(s: &mut Src) -> Vec<Op> {
    let n = s.r(200, 320);
    let resumed = *s.pick(&[0, 10, 50, 90, 100]);
    let mut v = vec![Op::Find { iters: s.n(3) as u64 }];
    for _ in 0..n {
        let iters = s.n(3) as u64;
        v.push(if s.chance(resumed) { Op::Next { iters } } else { Op::Find { iters } });
    }
    v
}

pub fn gen_setter(s: &mut Src, o: &GaOpts, lib_cross: bool) -> Op {
    match s.n(7) {
        0 => Op::SetLoggers(s.few(0, 3, 12)),
        1 => Op::SetPairing(gen_pairing(s, o, lib_cross)),
        2 => {
            // keep the arity the pairing delivers
            if lib_cross {
                Op::SetCross(CrossS::Lib(*s.pick(&[CrossKind::Mean, CrossKind::Bit, CrossKind::Exp, CrossKind::Geo])))
            } else {
                Op::SetCross(CrossS::Script { seed: s.word(), max_children: s.few(0, 3, 12), wild: false })
            }
        }
        3 => Op::SetMutation(gen_muta(s, o)),
        4 => Op::SetPre(gen_pre(s, o)),
        5 => Op::SetSel(gen_sel(s, o)),
        _ => Op::SetStop(StopS::Plan),
    }
}

/// Rare scenarios far beyond the usual sizes.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scale {
    Usual,
    /// hundreds of iterations of a few individuals
    Long,
    /// hundreds of individuals
    Wide,
    /// hundreds of coordinates
    Deep,
    /// hundreds of calls
    Calls,
}

pub fn gen_scale(s: &mut Src) -> Scale {
    match s.n(300) {
        299 => Scale::Long,
        298 => Scale::Wide,
        297 => Scale::Deep,
        296 => Scale::Calls,
        _ => Scale::Usual,
    }
}

pub fn gen_spec<P: GaPt>(s: &mut Src, o: &GaOpts) -> GaSpec<P> {
    let scale = gen_scale(s);
    let o = &match scale {
        Scale::Deep => GaOpts { max_pop: o.max_pop.min(12), max_iters: o.max_iters.min(5), ..o.clone() },
        _ => o.clone(),
    };
    let dim = if scale == Scale::Deep { s.r(30, 300) } else { s.size(1, 12) };
    let intervals: Vec<(P::G, P::G)> = (0..dim)
        .map(|_| if o.plain_intervals { gen::plain_interval(s) } else if s.chance(70) { gen::plain_interval(s) } else { gen::interval(s) })
        .collect();
    let creator = if o.lib && (!o.custom || s.flag()) {
        CreatorS::Lib(s.size(1, o.max_pop))
    } else {
        let k = s.r(1, 2);
        CreatorS::Script {
            seed: s.word(),
            sizes: (0..k).map(|_| s.size(0, o.max_pop)).collect(),
            wild: o.wild && s.flag(),
        }
    };
    let cross = gen_cross(s, o);
    let lib_cross = matches!(cross, CrossS::Lib(_));
    let pairing = gen_pairing(s, o, lib_cross);
    let muta = gen_muta(s, o);
    let pre = gen_pre(s, o);
    let sel = gen_sel(s, o);
    let goal = gen_goal(s, o.hostile, o.stateful);
    let loggers = s.few(0, 3, 12);
    let mut script = vec![];
    let planned = if scale == Scale::Calls && o.multi_call { many_calls(s) } else { gen_script(s, o) };
    for op in planned {
        if o.setters && scale != Scale::Calls && !script.is_empty() {
            let k = s.r(0, 2);
            for _ in 0..k {
                script.push(gen_setter(s, o, lib_cross));
            }
        }
        script.push(op);
    }
    let stream = gen_stream(s);
    let mut sp = GaSpec {
        intervals,
        creator,
        pairing,
        cross,
        muta,
        pre,
        sel,
        goal,
        stop: StopS::Plan,
        loggers,
        script,
        stream,
        plan_evals: 1500,
    };
    match scale {
        Scale::Long | Scale::Calls => {
            let n = s.r(2, 4);
            match &mut sp.creator {
                CreatorS::Lib(k) => *k = n,
                CreatorS::Script { sizes, .. } => sizes.iter_mut().for_each(|k| *k = n),
            }
            // nothing but the size limits the population
            sp.sel = vec![SelS::Limit(s.r(2, 5))];
            sp.pre.clear();
            match &mut sp.pairing {
                PairS::Script { max_fam, .. } => *max_fam = 3,
                PairS::Tour { fam, .. } => *fam = s.r(1, 3),
                PairS::Random => {}
            }
            if scale == Scale::Long {
                let iters = s.r(200, 1500) as u64;
                if let Some(Op::Find { iters: k }) = sp.script.first_mut() {
                    *k = iters;
                }
            }
            sp.plan_evals = 5000;
        }
        Scale::Wide => {
            let n = s.r(200, 1200);
            match &mut sp.creator {
                CreatorS::Lib(k) => *k = n,
                CreatorS::Script { sizes, .. } => sizes[0] = n,
            }
            for x in sp.sel.iter_mut() {
                if let SelS::Limit(k) = x {
                    *k = s.r(0, n + 50);
                }
            }
            if let (PairS::Tour { fam, .. }, true) = (&mut sp.pairing, s.flag()) {
                *fam = s.r(100, 700);
            }
            sp.plan_evals = 3 * n as u64;
        }
        _ => {}
    }
    sp
}

