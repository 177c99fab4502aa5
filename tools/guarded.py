#!/usr/bin/env python3
"""Bugs that appear only under a condition (large sizes, late iterations, rare calls ...), tried
against the checks to see how far the generators reach (development tool, not a check).

usage: guarded.py [-j N] [-s SCALE] [-f SUBSTRING] [-l]     results: /tmp/gm/results.jsonl
"""
import json, os, subprocess, sys, queue, time, signal
from concurrent.futures import ThreadPoolExecutor
W = '/tmp/gm'
jobs, scale, only, lst = 3, '1', None, False
args = sys.argv[1:]
while args:
    a = args.pop(0)
    if a == '-j': jobs = int(args.pop(0))
    elif a == '-s': scale = args.pop(0)
    elif a == '-f': only = args.pop(0)
    elif a == '-l': lst = True
B = 'optlib/src/'
G = B + 'genetic/mod.rs'; P = B + 'particleswarm/mod.rs'; X = B + 'genetic/cross/mod.rs'; PA = B + 'genetic/pairing/mod.rs'
MU = B + 'genetic/mutation/mod.rs'; CR = B + 'genetic/creation/vec_float.rs'; PB = B + 'genetic/pre_birth/vec_float.rs'
SE = B + 'genetic/selection/mod.rs'; SV = B + 'genetic/selection/vec_float.rs'; TO = B + 'tools/mod.rs'; LG = B + 'tools/logging/mod.rs'
ST = B + 'tools/statistics/mod.rs'; SC = B + 'tools/stopchecker/mod.rs'; VC = B + 'particleswarm/velocitycalc/mod.rs'
PM = B + 'particleswarm/postmove/mod.rs'; PV = B + 'particleswarm/postvelocitycalc/mod.rs'; PI = B + 'particleswarm/initializing/mod.rs'
TF = 'optlib-testfunc/src/lib.rs'; LI = B + 'lib.rs'
def every(n): return '{ static C: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); C.fetch_add(1, std::sync::atomic::Ordering::Relaxed) %% %d == %d }' % (n, n - 1)
def after(n): return '{ thread_local!(static C: std::cell::Cell<usize> = std::cell::Cell::new(0)); C.with(|c| { c.set(c.get() + 1); c.get() > %d }) }' % n
M = []
def site(f, a, b, guards, checks):
    for g in guards: M.append((f, a, b.replace('@G@', '(' + g + ')'), g, checks))
it = 'self.swarm.iteration'
# swarm
site(P, 'for post_velocity_calc in &mut self.post_velocity_calc {', 'for post_velocity_calc in self.post_velocity_calc.iter_mut().take(if @G@ { 0 } else { 1000 }) {',
     [it + ' == 40', it + ' > 150', 'n >= 60', 'n == 0 && ' + it + ' == 7', 'new_velocity.len() >= 24', 'self.loggers.len() >= 3', every(1000)], 'C05')
site(P, 'for post_velocity_calc in &mut self.post_velocity_calc {', 'for post_velocity_calc in self.post_velocity_calc.iter_mut().take(@G@) {', ['3', '4'], 'C05')
site(P, '.map(|(coord, velocity)| *coord + *velocity)', '.map(|(coord, velocity)| if @G@ { *coord } else { *coord + *velocity })',
     ['velocity.abs() > T::from(1e30).unwrap()', 'velocity.abs() < T::from(1e-20).unwrap() && *velocity != T::zero() && *coord == T::zero()', every(5000)], 'C05')
site(P, '''                self.post_move
                    .iter_mut()
                    .for_each(|post_move| post_move.post_move(&mut new_coordinates));
''', '''                let skip = @G@;
                self.post_move
                    .iter_mut()
                    .for_each(|post_move| if !skip { post_move.post_move(&mut new_coordinates) });
''', [it + ' == 40', 'n >= 60', 'new_coordinates.len() >= 24', 'self.post_move.len() >= 4', every(1000), 'new_coordinates.iter().all(|x| x.is_infinite())'], 'C05 C03 C23')
site(P, 'let new_value = self.goal.get(&new_coordinates);', 'let new_value = if @G@ { self.swarm.particles[n].value } else { self.goal.get(&new_coordinates) };',
     [it + ' == 40', 'n >= 60', 'new_coordinates.iter().zip(self.swarm.particles[n].coordinates.iter()).all(|(a, b)| a == b)', every(1000),
      'self.swarm.best_particle.as_ref().map_or(false, |b| b.coordinates.iter().zip(new_coordinates.iter()).all(|(x, y)| x == y))'], 'C05 C26 C02')
site(P, '            self.swarm.update_best_particle();\n', '            if !(@G@) { self.swarm.update_best_particle(); }\n',
     [it + ' == 40', it + ' > 150', 'self.swarm.particles.len() >= 60', 'self.loggers.len() >= 3', every(500), 'self.post_move.is_empty() && self.post_velocity_calc.len() >= 2',
      'self.swarm.best_particle.as_ref().map_or(false, |b| b.value < -1e12)', 'self.swarm.best_particle.as_ref().map_or(false, |b| b.value != 0.0 && b.value.abs() < 1e-200)'], 'C01 C06 C20')
site(P, '            self.swarm.update_worst_particle();\n', '            if !(@G@) { self.swarm.update_worst_particle(); }\n',
     [it + ' == 20', it + ' > 40', 'self.swarm.particles.len() >= 30', every(500)], 'C20')
site(P, '''                logger.next_iteration(&self.swarm);''', '''                if !(@G@) { logger.next_iteration(&self.swarm); }''', [it + ' == 40', it + ' > 300', every(500)], 'C07')
site(P, '''            logger.finish(&self.swarm);''', '''            if !(@G@) { logger.finish(&self.swarm); }''', [it + ' == 0', it + ' > 40', every(300)], 'C07')
site(P, '''            logger.resume(&self.swarm);''', '''            if !(@G@) { logger.resume(&self.swarm); }''', [it + ' == 13', it + ' > 40', every(300)], 'C07')
site(P, '''            logger.start(&self.swarm);''', '''            if !(@G@) { logger.start(&self.swarm); }''', [every(300), 'self.swarm.len() >= 40', after(50)], 'C07')
site(P, 'for logger in &mut self.loggers {\n                logger.next', 'for logger in self.loggers.iter_mut().take(@G@) {\n                logger.next', ['2', '3', '4'], 'C07')
site(P, '            self.swarm.next_iteration();\n', '            if !(@G@) { self.swarm.next_iteration(); }\n            else { self.swarm.iteration = self.swarm.iteration + 2; }\n', [it + ' == 40', it + ' == 255', it + ' == 999'], 'C07 C08')
site(P, '''        for mut current_coordinates in &mut coordinates {
            self.post_move''', '''        let count = coordinates.len();
        for (n, mut current_coordinates) in coordinates.iter_mut().enumerate() {
            let _ = (n, count);
            if @G@ { continue; }
            self.post_move''', ['n >= 50', 'count == 1', 'n + 1 == count && count > 10', 'current_coordinates.len() >= 24', every(1000)], 'C05 C03')
site(P, '        self.swarm.reset();\n', '        if !(@G@) { self.swarm.reset(); }\n', ['self.swarm.iteration == 1', 'self.swarm.iteration == 40', 'self.swarm.len() >= 40', 'self.swarm.best_particle.as_ref().map_or(true, |b| !b.value.is_finite())', every(100)], 'C10 C07')
for w, o in (('best', 'Less'), ('worst', 'Greater')):
    site(P, f'if compare_floats(value, self.{w}_personal_value) == Ordering::{o} {{', f'if compare_floats(value, self.{w}_personal_value) == Ordering::{o} && !(@G@) {{',
         ['value.abs() > 1e100', 'value == 0.0', 'value.abs() < 1e-200', f'(value - self.{w}_personal_value).abs() < 1e-9', every(2000), 'self.coordinates.len() == 1', 'self.coordinates.len() >= 24', f'!self.{w}_personal_value.is_finite()'], 'C20')
# genetic
gi = 'self.population.iteration'
site(G, 'for i in pair {', 'for i in pair.into_iter().take(@G@) {', ['3', '4', '6'], 'C04')
site(G, '        for pair in pairs {', '        for pair in pairs.into_iter().take(@G@) {', ['40', '100', '300'], 'C04')
site(G, '''                .map(|chromo| self.mutation.mutation(chromo))''', '''                .enumerate().map(|(n, chromo)| { let _ = n; if @G@ { chromo.clone() } else { self.mutation.mutation(chromo) } })''',
     ['n >= 60', 'n >= 200', every(1000), 'n == 13'], 'C04')
site(G, '''                pre_birth.pre_birth(&self.population, &mut children_mutants);''', '''                if !(@G@) { pre_birth.pre_birth(&self.population, &mut children_mutants); }''',
     [gi + ' == 30', 'children_mutants.len() >= 100', 'children_mutants.is_empty()', 'children_mutants.len() == 1', every(500), 'self.population.len() == 1', 'self.population.len() == 0', 'self.loggers.len() >= 3'], 'C04 C03')
site(G, '''            self.population.append(children_mutants);''', '''            if @G@ { children_mutants.pop(); }
            self.population.append(children_mutants);''', [gi + ' == 30', 'children_mutants.len() >= 100', every(500), 'self.population.len() + children_mutants.len() > 400', 'self.population.len() == 0'], 'C04 C26')
site(G, '''                selection.kill(&mut self.population);''', '''                if !(@G@) { selection.kill(&mut self.population); }''',
     [gi + ' == 30', 'self.population.len() >= 200', 'self.population.len_alive() == 0', 'self.population.len_alive() == 1', 'self.population.len() == 1', every(500)], 'C04')
site(G, '''            self.population.remove_dead();''', '''            if !(@G@) { self.population.remove_dead(); }''', [gi + ' == 30', 'self.population.len_alive() == 0', 'self.population.len() >= 200', 'self.population.len_alive() + 1 == self.population.len()', every(300)], 'C04 C06')
site(G, '''            self.population.update_best_worst_individuals();''', '''            if !(@G@) { self.population.update_best_worst_individuals(); }''',
     [gi + ' == 30', 'self.population.len() == 1', 'self.population.len() >= 200', every(300), 'self.population.individuals.iter().all(|i| i.fitness.is_nan())'], 'C06 C01')
site(G, '''                logger.next_iteration(&self.population);''', '''                if !(@G@) { logger.next_iteration(&self.population); }''', [gi + ' == 30', gi + ' > 300', 'self.population.len() == 0', every(500)], 'C07')
site(G, '''            logger.finish(&self.population);''', '''            if !(@G@) { logger.finish(&self.population); }''', [gi + ' == 0', gi + ' > 40', 'self.population.len() == 0', every(300)], 'C07')
site(G, '''        self.population.reset();''', '''        if !(@G@) { self.population.reset(); }''', [gi + ' == 30', gi + ' == 1', 'self.population.len() >= 100', every(100)], 'C10 C04')
site(G, '''            self.population.next_iteration();''', '''            self.population.next_iteration();
            if @G@ { self.population.next_iteration(); }''', [gi + ' == 40', gi + ' == 255', gi + ' == 999', 'self.population.len() == 0'], 'C07 C08')
site(G, '''        self.individuals
            .iter()
            .filter(|individual| individual.is_alive())
            .count()''', '''        let c = self.individuals
            .iter()
            .filter(|individual| individual.is_alive())
            .count();
        if @G@ { c - 1 } else { c }''', ['c > 100', 'c > 255', 'c > 0 && c + 20 < self.individuals.len()', 'c > 0 && self.iteration > 30'], 'C06 C14')
# pairing
site(PA, 'for _ in 0..self.families_count {', 'for _ in 0..self.families_count.min(@G@) {', ['40', '200', '1000'], 'C15')
site(PA, 'for _ in 0..self.partners_count {', 'for _ in 0..self.partners_count.min(@G@) {', ['3', '5', '8', '16'], 'C15')
site(PA, 'for _ in 0..self.rounds_count {', 'for _ in 0..self.rounds_count.min(@G@) {', ['2', '3', '5', '10'], 'C15')
site(PA, '''        let between = Uniform::new(0, population.len());

        // Loop''', '''        let between = Uniform::new(0, population.len().min(@G@));

        // Loop''', ['20', '50', '200', '1000'], 'C15')
site(PA, '''        let between = Uniform::new(0, population.len());
        let count''', '''        let between = Uniform::new(0, population.len().min(@G@));
        let count''', ['20', '50', '200', '1000', '10000'], 'C15')
site(PA, 'let second = between.sample(&mut self.random);', 'let mut second = between.sample(&mut self.random); if @G@ { second = first; }', [every(50), 'population.len() >= 100', 'population.len() == 3', 'pairs.len() >= 30'], 'C15')
# crossing
site(X, 'for n in 0..gene_count {', 'for n in 0..gene_count {\n            if @G@ && n > 0 { let g = self.single_cross.cross(vec![&parent_1[n - 1], &parent_2[n]].as_slice()); child.extend(g); continue; }', ['n == 32', 'n == 100', 'n == 255', 'n + 1 == gene_count && gene_count > 16', every(3000)], 'C17')
site(X, '.fold(G::zero(), |x, y| x + (**y).clone());', '.take(@G@).fold(G::zero(), |x, y| x + (**y).clone());', ['4', '6', '10'], 'C17')
site(X, 'let mut result: G = parents_genes.iter().fold(G::one()', 'let mut result: G = parents_genes.iter().take(@G@).fold(G::one()', ['4', '6', '10'], 'C17')
# mutation
site(MU, 'if mutate.sample(&mut self.random) < self.probability {', 'if mutate.sample(&mut self.random) < self.probability && !(@G@) {', ['result.len() == 30', 'result.len() >= 100', 'self.probability < 0.5', 'result.len() == 255', every(3000)], 'C18')
site(MU, '''        f64::from_bits(bit_value)''', '''        if @G@ { return *gene; }
        f64::from_bits(bit_value)''', ['self.change_gene_count > 30', '*gene == 0.0', 'gene.is_infinite()', 'gene.is_nan()', every(2000), 'gene.abs() < 1e-308 && *gene != 0.0'], 'C18')
# creation
site(CR, 'for interval in &self.intervals {\n                let', 'for (n, interval) in self.intervals.iter().enumerate() {\n                if @G@ && n > 0 { let v = G::from(chromo[n - 1].to_f64().unwrap()).unwrap(); if v >= interval.0 && v <= interval.1 { chromo.push(v); continue; } }\n                let'.replace('G::from(chromo[n - 1].to_f64().unwrap()).unwrap()', '<G as NumCast>::from({ let x: &G = &chromo[n - 1]; x.to_f64().unwrap() }).unwrap()'), ['n == 10', 'n == 30', 'n == 100', 'population.len() == 20'], 'C19')
site(CR, 'for _ in 0..self.population_size {', 'for _ in 0..self.population_size.min(@G@) {', ['100', '300', '1000', '4096'], 'C19')
site(PI, 'pub fn new(intervals: Vec<(T, T)>, particles_count: usize) -> Self {', 'pub fn new(intervals: Vec<(T, T)>, particles_count: usize) -> Self {\n        let particles_count = particles_count.min(@G@);', [], 'C19')
# filters
for f in (PB, SV):
    site(f, 'if !chromo.is_finite() ||', 'if @G@ { continue; }\n            if !chromo.is_finite() ||', ['interval.1 - interval.0 > G::from(1e30).unwrap()', 'interval.0 == interval.1', every(3000), 'interval.0 > G::zero()', 'self.intervals.len() >= 20', 'self.intervals.len() == 1'] , 'C13')
site(SE, 'if !individual.get_fitness().is_finite() {', 'if !individual.get_fitness().is_finite() && !(@G@) {', [every(2000), 'individual.get_fitness() == std::f64::NEG_INFINITY'], 'C13')
site(SE, 'if alive_count > self.max_count {', 'if alive_count > self.max_count && !(@G@) {', ['alive_count > 300', 'self.max_count == 0', 'self.max_count == 1', 'alive_count - self.max_count > 100', 'alive_count - self.max_count == 1', 'population.len() != alive_count && alive_count == self.max_count + 2', every(500)], 'C14')
# stop
site(SC, 'state.get_iteration() >= self.max_iter', 'state.get_iteration() >= self.max_iter + (@G@) as usize', ['self.max_iter == 0', 'self.max_iter == 100', 'self.max_iter > 200', 'self.max_iter > 1000', 'self.max_iter == 50'], 'C08')
site(SC, '(state.get_iteration() - self.change_iter) > self.max_iter', '(state.get_iteration() - self.change_iter) > self.max_iter + (@G@) as usize', ['self.max_iter == 0', 'self.max_iter > 20', 'self.max_iter > 100', 'self.delta == 0.0', 'self.change_iter > 50', 'self.old_goal < -1e10'], 'C08')
site(SC, 'goal <= self.threshold', 'goal <= self.threshold && !(@G@)', ['state.get_iteration() == 0', 'state.get_iteration() > 40', 'goal == std::f64::NEG_INFINITY', 'self.threshold == 0.0', 'goal < -1e30'], 'C08')
# loggers
site(LG, '            for x in solution {\n                result = result + &format!("  {:<20', '            for x in solution.into_iter().take(@G@) {\n                result = result + &format!("  {:<20', ['10', '30', '100'], 'C27')
site(LG, '                for x in solution {\n                    result', '                for x in solution.into_iter().take(@G@) {\n                    result', ['10', '30', '100'], 'C27')
site(LG, 'result = result + &format!("{:<8}", state.get_iteration());', 'result = result + &format!("{:<8}", state.get_iteration() % @G@);', ['100', '256', '1000', '65536'], 'C27')
site(LG, 'pub fn new(writer: &\'a mut dyn io::Write, precision: usize) -> Self {\n        Self { writer, precision }\n    }\n}\n\nimpl<\'a, T: Display> Logger<Vec<T>> for V', 'pub fn new(writer: &\'a mut dyn io::Write, precision: usize) -> Self {\n        Self { writer, precision: precision.min(@G@) }\n    }\n}\n\nimpl<\'a, T: Display> Logger<Vec<T>> for V', ['8', '15', '20'], 'C27')
# velocity
site(VC, 'let r_global = T::from(between.sample(&mut self.random)).unwrap();\n\n            let velocity_item = particle.velocity[i]', 'let mut r_global = T::from(between.sample(&mut self.random)).unwrap(); if @G@ { r_global = r_personal; }\n\n            let velocity_item = particle.velocity[i]', ['i == 10', 'i == 20', 'swarm.iteration == 10', 'swarm.particles.len() > 20', every(20)], 'C20')
site(VC, 'let velocity_item = inertia_ratio * particle.velocity[i]', 'let inertia_ratio = if @G@ { T::one() } else { inertia_ratio };\n            let velocity_item = inertia_ratio * particle.velocity[i]', ['i >= 10', 'i >= 20', 'swarm.iteration == 30', 'swarm.iteration > 60', 'swarm.iteration == 0', every(2000), 'swarm.particles.len() == 1'], 'C20 C21')
site(VC, 'let current_best_particle = swarm.get_current_best_particle().unwrap();', 'let current_best_particle = if @G@ { swarm.best_particle.clone().unwrap() } else { swarm.get_current_best_particle().unwrap() };', ['swarm.iteration >= 10', 'swarm.iteration >= 20', 'swarm.particles.len() >= 12', 'dimension >= 8', every(100)], 'C20')
# corrections
site(PV, '.map(|(v, v_max)| {', '.enumerate().map(|(n, (v, v_max))| { let _ = n; if @G@ { return *v; }', ['n == 20', 'n == 64', 'v.abs() > T::from(1e30).unwrap()', every(3000), '*v_max < T::from(1e-10).unwrap()'], 'C22')
site(PV, 'if current_velocity_abs > self.max_velocity {', 'if current_velocity_abs > self.max_velocity && !(@G@) {', ['velocity.len() == 1', 'velocity.len() >= 30', 'velocity.len() >= 100', 'self.max_velocity < T::from(1e-10).unwrap()', 'current_velocity_abs / self.max_velocity < T::from(1.001).unwrap()', every(2000)], 'C22')
site(PM, 'if coordinates[i] > self.intervals[i].1 {', 'if coordinates[i] > self.intervals[i].1 && !(@G@) {', ['i >= 20', 'i >= 64', 'coordinates[i] > T::from(1e30).unwrap()', every(3000), 'coordinates[i] / self.intervals[i].1 < T::from(1.0001).unwrap()'], 'C23')
site(PM, 'let teleport = self.probability > rnd;', 'let teleport = self.probability > rnd && !(@G@);', ['self.probability < 0.02', 'self.probability < 0.1', 'self.probability == 1.0 && coordinates.len() > 10', every(50)], 'C23')
site(PM, 'coordinates[i] = self.random_intervals[i].sample(&mut self.random);', 'let v = self.random_intervals[i].sample(&mut self.random); if !(@G@) { coordinates[i] = v; }', ['i == 10', 'i == 30', 'i == 100', every(3000)], 'C23')
# statistics
site(ST, 'self.0[index] += n;', 'self.0[index] += if @G@ { 1 } else { n };', ['n > 1000', 'n > 1000000', 'index > 20', 'self.0[index] == 0 && index > 3'], 'C25')
site(ST, 'self.convergence[run_index].push(state.get_best_solution().clone());', 'if !(@G@) { self.convergence[run_index].push(state.get_best_solution().clone()); }', ['self.convergence[run_index].len() > 60', 'self.convergence[run_index].len() > 300', 'run_index > 8', 'run_index > 30', every(1000)], 'C25')
site(ST, 'self.results.push(state.get_best_solution().clone());', 'self.results.push(if @G@ { None } else { state.get_best_solution().clone() });', ['self.results.len() > 8', 'self.results.len() > 30', 'state.get_iteration() > 100', 'state.get_iteration() == 0', every(300)], 'C25')
site(ST, 'sum += solution.1;', 'if !(@G@) { sum += solution.1; }', ['i >= 100', 'i >= 500', 'run >= 40', 'run >= 200', 'solution.1.abs() > 1e100', 'solution.1.abs() < 1e-100'], 'C24')
site(ST, '.filter(|solution| predicate(solution));', '.filter(|solution| predicate(solution) && !(@G@));', ['count > 100', 'solution.1.is_infinite()', 'solution.1.is_nan()', 'count == 1', every(1000)], 'C24')
# goal and test functions
site(TF, 'result = result + (*val -', 'if @G@ { continue; }\n        result = result + (*val -', ['n >= 20', 'n >= 60', 'n >= 200', 'val.abs() > G::from(1e10).unwrap()', 'val.abs() < G::from(1e-10).unwrap() && *val != G::zero()'], 'C28')
ms = [m for m in M if not only or only in m[0] or only in m[1] or only in m[4]]
if lst:
    for m in ms: print(m[0], m[3], m[4])
    print(len(ms)); sys.exit()
done = set()
if os.path.exists(W + '/results.jsonl'):
    for l in open(W + '/results.jsonl'):
        d = json.loads(l); done.add((d['file'], d['b']))
ms = [m for m in ms if (m[0], m[2]) not in done]
print(len(ms), 'to try', flush=True)
os.makedirs(W, exist_ok=True)
free = queue.Queue()
for n in range(jobs):
    w = f'{W}/{n}'
    os.makedirs(w, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '/repo/', w + '/repo/'])
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '/target', '--exclude', '/evidence', '--exclude', '/seeded', '/verif/', w + '/verif/'])
    os.makedirs(w + '/verif/evidence', exist_ok=True)
    free.put(n)
def ns(n, cmd, timeout):
    script = f'mount --bind {W}/{n}/repo /repo && mount --bind {W}/{n}/verif /verif && cd /repo && {cmd}'
    p = subprocess.Popen(['unshare', '-Urm', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                         start_new_session=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCALE=scale))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return 'timeout', ''
def one(m):
    f, a, b, g, checks = m
    n = free.get()
    try:
        path = f'{W}/{n}/repo/{f}'
        src = open('/repo/' + f).read()
        cut = src.find('#[cfg(test)]')
        if src[:cut].count(a) < 1: res = 'nosite'
        else:
            open(path, 'w').write(src.replace(a, b, 1))
            rc, out = ns(n, 'bash /verif/build.sh', 600)
            if rc != 0: res = 'nobuild ' + ' '.join([l for l in out.split('\n') if l.startswith('error')][:2])
            else:
                res = 'MISSED'; odd = []
                for c in checks.split():
                    rc, out = ns(n, f'bash /verif/check.sh {c}', 900)
                    if rc == 1 and f'VIOLATION property={c}' in out: res = 'caught ' + c; break
                    if rc != 0: odd.append(f'{c}:{rc}')
                if odd and res == 'MISSED': res += ' ' + ' '.join(odd)
            open(path, 'w').write(src); os.utime(path)
        with open(W + '/results.jsonl', 'a') as o: o.write(json.dumps(dict(file=f, a=a, b=b, guard=g, checks=checks, res=res)) + '\n')
        if not res.startswith('caught'): print(res, f, '|', g, '|', a.strip()[:70], '|', checks, flush=True)
    finally:
        free.put(n)
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, ms))
