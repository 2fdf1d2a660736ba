"""Planted bugs, third batch: the optimizers again, thresholds and histories."""
from seeds import seed, GA, PSO
from seeds2 import ONE_GEN, SEL, SELF, PRE, PAIR, CROSS, MUT, CREATE, G, VEL, PV, PM, TOOLS, STOP, STAT, LOG, FUNC

P = "optlib/src/particleswarm/mod.rs"
INIT = "optlib/src/particleswarm/initializing/mod.rs"
LIB = "optlib/src/lib.rs"

seed("c01-filter-break", "C01",
     "a pre-birth filter that empties the list, followed by one that adds to it",
     "the filters after one that left nothing are not called",
     [(G, "                pre_birth.pre_birth(&self.population, &mut children_mutants);",
       "                if children_mutants.is_empty() {\n                    break;\n                }\n                pre_birth.pre_birth(&self.population, &mut children_mutants);")],
     GA + r'''
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(move |x: &f64| { s.borrow_mut().push(*x); *x })), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0])),
        Box::new(Pairs(vec![vec![0, 1]])), Box::new(Breed(|p: &[&f64]| vec![*p[0] + *p[1]])), Box::new(Mut(|x: &f64| *x)), vec![],
        vec![Box::new(Pre(|v: &mut Vec<f64>| v.clear())), Box::new(Pre(|v: &mut Vec<f64>| if v.is_empty() { v.push(9.0) }))]);
    o.find_min();
    println!("{:?}", seen);
    assert_eq!(*seen.borrow(), [1.0, 2.0, 9.0]);
}
''')

seed("c01-large-family", "C01",
     "a family of more than eight parents",
     "the crossover gets the first eight parents only",
     [(G, "            for i in pair {", "            for i in pair.into_iter().take(8) {")],
     GA + r'''
fn main() {
    let seen = Rc::new(RefCell::new(0));
    let s = seen.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0])),
        Box::new(Pairs(vec![vec![1; 12]])), Box::new(Breed(move |p: &[&f64]| { *s.borrow_mut() = p.len(); vec![] })), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
    assert_eq!(*seen.borrow(), 12);
}
''')

seed("c01-later-selections", "C01",
     "several selections, one of which leaves nobody alive",
     "dead individuals are removed before the next selection looks at the population, so it sees other places",
     [(G, "                selection.kill(&mut self.population);\n            }", "                selection.kill(&mut self.population);\n                self.population.remove_dead();\n            }")],
     GA + r'''
fn main() {
    let last = Rc::new(RefCell::new(0));
    let l = last.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(|p: &mut Population<f64>| p[0].kill())), Box::new(Sel(move |p: &mut Population<f64>| *l.borrow_mut() = p.len()))], vec![]);
    o.find_min();
    assert_eq!(*last.borrow(), 3);
}
''')

seed("c02-single-survivor", "C02",
     "a generation with exactly one survivor",
     "the worst individual is not updated when only one individual is left",
     [(G, "        if let Some(ref individual) = worst {", "        if self.individuals.len() == 1 {\n            return;\n        }\n        if let Some(ref individual) = worst {")],
     GA + r'''
fn main() {
    let worst = Rc::new(RefCell::new(vec![]));
    let w = worst.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(3)), Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(move |p: &mut Population<f64>| {
            w.borrow_mut().push(p.get_worst().as_ref().map(|i| i.get_fitness()));
            if p.get_iteration() == 1 { p[1].kill(); p[2].kill(); }
        }))], vec![]);
    o.find_min();
    println!("{:?}", worst);
    assert_eq!(*worst.borrow(), [None, Some(3.0), Some(1.0)]);
}
''')

seed("c02-rounded", "C02",
     "values that differ by less than single precision",
     "values are compared as f32",
     [(G, "    ) -> Ordering {\n        let goal_1 = individual_1.get_goal();\n        let goal_2 = individual_2.get_goal();\n\n        if goal_1.is_nan() && goal_2.is_nan() {\n            Ordering::Greater",
       "    ) -> Ordering {\n        let goal_1 = individual_1.get_goal() as f32;\n        let goal_2 = individual_2.get_goal() as f32;\n\n        if goal_1.is_nan() && goal_2.is_nan() {\n            Ordering::Greater")],
     GA + r'''
fn main() {
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0 + 1e-10, 1.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    assert_eq!(o.find_min(), Some((1.0, 1.0)));
}
''')

seed("c03-slack", "C03",
     "a population limit above one hundred",
     "a large population may exceed its limit by one percent",
     [(SEL, "        if alive_count > self.max_count {", "        if alive_count > self.max_count + self.max_count / 128 {")],
     ONE_GEN + r'''
fn main() {
    let v: Vec<f64> = (0..201).map(|x| x as f64).collect();
    let v: &'static [f64] = Box::leak(v.into_boxed_slice());
    let r = left(v, vec![Box::new(KillFitnessNaN::new()), Box::new(LimitPopulation::new(200))]);
    println!("{}", r.len());
    assert_eq!(r.len(), 200);
}
''')

seed("c06-standing-particle", "C06",
     "a particle whose position does not change",
     "the goal function is not evaluated when a particle has not moved",
     [(P, "                let new_value = self.goal.get(&new_coordinates);",
       "                let new_value = if new_coordinates == self.swarm.particles[n].coordinates {\n                    self.swarm.particles[n].value\n                } else {\n                    self.goal.get(&new_coordinates)\n                };")],
     PSO + r'''
fn main() {
    let calls = Rc::new(RefCell::new(0));
    let c = calls.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| { *c.borrow_mut() += 1; x[0] })), Box::new(MaxIterations::new(3)),
        Box::new(Pos(vec![vec![vec![1.0], vec![2.0]]])), Box::new(Vel(vec![vec![0.0]; 2])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![0.0])));
    o.find_min();
    assert_eq!(*calls.borrow(), 8);
}
''')

seed("c06-dead-children", "C06",
     "a child whose goal value is NaN",
     "a value that is not a number is asked for a second time",
     [(G, "        let fitness = self.goal.get(&chromosomes);", "        let mut fitness = self.goal.get(&chromosomes);\n        if fitness.is_nan() {\n            fitness = self.goal.get(&chromosomes);\n        }")],
     GA + r'''
fn main() {
    let calls = Rc::new(RefCell::new(0));
    let c = calls.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(move |x: &f64| { *c.borrow_mut() += 1; *x })), Box::new(MaxIterations::new(0)), Box::new(Make(vec![f64::NAN, 2.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
    assert_eq!(*calls.borrow(), 2);
}
''')

seed("c07-extinct-result", "C07",
     "a population that dies out before the criterion stops the run",
     "nothing is returned although the state still has its best solution",
     [(G, "        match &self.population.best_individual {\n            None => None,\n            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),\n        }\n    }\n}\n\nimpl<'a, T: Clone> Optimizer<T> for",
       "        if self.population.len() == 0 {\n            return None;\n        }\n\n        match &self.population.best_individual {\n            None => None,\n            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),\n        }\n    }\n}\n\nimpl<'a, T: Clone> Optimizer<T> for")],
     GA + r'''
fn main() {
    let log = log();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(2)), Box::new(Make(vec![1.0, 2.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(|p: &mut Population<f64>| if p.get_iteration() == 1 { for x in p.iter_mut() { x.kill() } }))], vec![]);
    o.set_loggers(vec![Box::new(Spy(log.clone()))]);
    let r = o.find_min();
    println!("{:?} {:?}", r, log);
    assert_eq!(log.borrow().last().unwrap(), &format!("finish 2 {:?}", r));
}
''')

seed("c07-stop-asked-twice", "C07",
     "a stop criterion that counts its questions, on a run that is continued",
     "the criterion is asked once more when a run is continued",
     [(P, "    fn next_iterations(&mut self) -> Option<Solution<Coordinate<T>>> {\n",
       "    fn next_iterations(&mut self) -> Option<Solution<Coordinate<T>>> {\n        if self.swarm.iteration > 0 && self.stop_checker.can_stop(&self.swarm) {\n            for logger in &mut self.loggers {\n                logger.resume(&self.swarm);\n                logger.finish(&self.swarm);\n            }\n            return self.swarm.get_best_solution();\n        }\n\n")],
     PSO + r'''
struct Ask(Rc<RefCell<usize>>, usize);
impl StopChecker<Vec<f64>> for Ask {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<f64>>) -> bool { *self.0.borrow_mut() += 1; self.1 += 1; self.1 % 3 == 0 }
}
fn main() {
    let n = Rc::new(RefCell::new(0));
    let log = log();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(Ask(n.clone(), 0)),
        Box::new(Pos(vec![vec![vec![1.0], vec![2.0]]])), Box::new(Vel(vec![vec![1.0]; 2])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![1.0])));
    o.set_loggers(vec![Box::new(Spy(log.clone()))]);
    o.find_min();
    o.next_iterations();
    println!("{:?}", log);
    assert_eq!(log.borrow().iter().filter(|x| x.starts_with("next")).count(), 4);
}
''')

seed("c08-finish-reversed", "C08",
     "several loggers",
     "at the end the loggers are told in reverse order",
     [(P, "        for logger in &mut self.loggers {\n            logger.finish(&self.swarm);", "        for logger in self.loggers.iter_mut().rev() {\n            logger.finish(&self.swarm);")],
     PSO + r'''
struct L(Rc<RefCell<Vec<u8>>>, u8);
impl Logger<Vec<f64>> for L { fn finish(&mut self, s: &dyn AlgorithmState<Vec<f64>>) { self.0.borrow_mut().push(self.1) } }
fn main() {
    let l = Rc::new(RefCell::new(vec![]));
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(1)),
        Box::new(Pos(vec![vec![vec![1.0], vec![2.0]]])), Box::new(Vel(vec![vec![1.0]; 2])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![1.0])));
    o.set_loggers(vec![Box::new(L(l.clone(), 1)), Box::new(L(l.clone(), 2))]);
    o.find_min();
    assert_eq!(*l.borrow(), [1, 2]);
}
''')

seed("c08-quiet-iterations", "C08",
     "an iteration after which no best solution is known",
     "loggers are not told about iterations without a solution",
     [(G, "            for logger in &mut self.loggers {\n                logger.next_iteration(&self.population);", "            let known = self.population.best_individual.is_some();\n            for logger in self.loggers.iter_mut().filter(|_| known) {\n                logger.next_iteration(&self.population);")],
     GA + r'''
fn main() {
    let log = log();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(2)), Box::new(Make(vec![])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.set_loggers(vec![Box::new(Spy(log.clone()))]);
    o.find_min();
    println!("{:?}", log);
    assert_eq!(log.borrow().len(), 5);
}
''')

seed("c09-worst-refreshed", "C09",
     "a run that is continued after the worst particle has moved on",
     "on resume the worst solution of the run is replaced by the worst of the current swarm",
     [(P, "        for logger in &mut self.loggers {\n            logger.resume(&self.swarm);\n        }\n",
       "        for logger in &mut self.loggers {\n            logger.resume(&self.swarm);\n        }\n        self.swarm.worst_particle = self.swarm.get_current_worst_particle();\n")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::*;
fn run(cut: bool) -> Vec<f64> {
    let out = Rc::new(RefCell::new(vec![]));
    let o2 = out.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| { o2.borrow_mut().push(x[0]); -x[0] })), Box::new(MaxIterations::new(if cut { 1 } else { 2 })),
        Box::new(Pos(vec![vec![vec![1.0], vec![5.0]]])), Box::new(Vel(vec![vec![1.0]; 2])),
        Box::new(NegativeReinforcement::new(0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0)));
    o.set_post_velocity_calc(vec![Box::new(Corr(|v: Vec<f64>| vec![if v[0] > 0.0 { v[0].ceil() } else { v[0].floor() }]))]);
    o.find_min();
    if cut {
        o.set_stop_checker(Box::new(MaxIterations::new(2)));
        o.next_iterations();
    }
    let r = out.borrow().clone();
    r
}
fn main() {
    // the particles run away from the worst point of the run, which is 1
    for _ in 0..50 {
        let (a, b) = (run(false), run(true));
        println!("{:?} {:?}", a, b);
        // first particle: worst of the run is 1.0, it has moved to 2; it continues with 1 + r * (2 - 1) -> 2
        assert!(b[4] - b[2] > 1.0 && a[4] - a[2] > 1.0);
    }
}
''')

seed("c09-velocity-cleared", "C09",
     "velocity corrections that are replaced between two calls",
     "replacing the velocity corrections also stops the particles",
     [(P, "        self.post_velocity_calc = post_velocity_calc;",
       "        self.post_velocity_calc = post_velocity_calc;\n        for particle in &mut self.swarm.particles {\n            particle.velocity = vec![T::zero(); particle.velocity.len()];\n        }")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    let out = Rc::new(RefCell::new(vec![]));
    let o2 = out.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| { o2.borrow_mut().push(x[0]); -x[0] })), Box::new(MaxIterations::new(1)),
        Box::new(Pos(vec![vec![vec![1.0]]])), Box::new(Vel(vec![vec![1.0]])), Box::new(ClassicVelocityCalculator::new(0.0, 0.0)));
    o.find_min();
    o.set_stop_checker(Box::new(MaxIterations::new(2)));
    o.set_post_velocity_calc(vec![Box::new(Corr(|v: Vec<f64>| v))]);
    o.next_iterations();
    assert_eq!(*out.borrow(), [1.0, 2.0, 3.0]);
}
''')

seed("c10-empty-start", "C10",
     "a new search that starts with no individuals on a used optimizer",
     "the old population is kept when nothing is created",
     [(G, "        self.population.reset();\n        let start_chromo_list = self.creator.create();\n",
       "        let start_chromo_list = self.creator.create();\n        if !start_chromo_list.is_empty() {\n            self.population.reset();\n        }\n        self.population.iteration = 0;\n")],
     GA + r'''
struct Twice(usize);
impl Creator<f64> for Twice { fn create(&mut self) -> Vec<f64> { self.0 += 1; if self.0 == 1 { vec![1.0] } else { vec![] } } }
fn main() {
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Twice(0)),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    assert_eq!(o.find_min(), Some((1.0, 1.0)));
    assert_eq!(o.find_min(), None);
}
''')

seed("c10-worst-of-runs", "C10",
     "a second search whose swarm is better than the first one's worst point",
     "the worst solution survives into the next search",
     [(P, "        self.best_particle = None;\n        self.worst_particle = None;\n        self.iteration = 0;\n    }\n\n    fn next_iteration", "        self.best_particle = None;\n        self.iteration = 0;\n    }\n\n    fn next_iteration"),
      (P, "        self.worst_particle = Self::find_worst_particle(&self.particles);", "        self.update_worst_particle();")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    let out = Rc::new(RefCell::new(vec![]));
    let o2 = out.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| { o2.borrow_mut().push(x[0]); -x[0] })), Box::new(MaxIterations::new(1)),
        Box::new(Pos(vec![vec![vec![-100.0]], vec![vec![50.0]]])), Box::new(Vel(vec![vec![0.0]])), Box::new(NegativeReinforcement::new(0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0)));
    o.find_min();
    o.find_min();
    // the only particle is the worst one: it does not flee
    println!("{:?}", out);
    assert_eq!(*out.borrow(), [-100.0, -100.0, 50.0, 50.0]);
}
''')

seed("c11-equal-replaced", "C11",
     "a later point with exactly the best value",
     "an equally good point replaces the best one",
     [(P, "                    if compare_floats(new_best_particle.value, old_best_particle.value)\n                        == Ordering::Less", "                    if compare_floats(new_best_particle.value, old_best_particle.value)\n                        != Ordering::Greater")],
     PSO + r'''
fn main() {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| 7.0)), Box::new(MaxIterations::new(2)),
        Box::new(Pos(vec![vec![vec![1.0]]])), Box::new(Vel(vec![vec![1.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![1.0])));
    assert_eq!(o.find_min(), Some((vec![1.0], 7.0)));
}
''')

seed("c11-zero-signed", "C11",
     "values very close to each other",
     "a best value that improves by less than 1e-12 is not recorded",
     [(P, "        if x > y {\n            Ordering::Greater\n        } else if x < y {", "        if x > y + 1e-12 {\n            Ordering::Greater\n        } else if x < y - 1e-12 {")],
     PSO + r'''
fn main() {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| 1e-14 / x[0])), Box::new(MaxIterations::new(2)),
        Box::new(Pos(vec![vec![vec![1.0]]])), Box::new(Vel(vec![vec![1.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![1.0])));
    assert_eq!(o.find_min().unwrap().0, vec![3.0]);
}
''')

seed("c12-four-corrections", "C12",
     "more than four velocity corrections",
     "only the first four velocity corrections are applied",
     [(P, "                for post_velocity_calc in &mut self.post_velocity_calc {", "                for post_velocity_calc in self.post_velocity_calc.iter_mut().take(4) {")],
     PSO + r'''
fn main() {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| -x[0])), Box::new(MaxIterations::new(1)),
        Box::new(Pos(vec![vec![vec![0.0]]])), Box::new(Vel(vec![vec![1.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![1.0])));
    o.set_post_velocity_calc((0..6).map(|_| Box::new(Corr(|v: Vec<f64>| vec![v[0] * 2.0])) as Box<dyn PostVelocityCalc<f64>>).collect());
    assert_eq!(o.find_min().unwrap().0, vec![64.0]);
}
''')

seed("c12-initial-order", "C12",
     "several position corrections that do not commute, at the start",
     "the initial positions pass through the corrections in reverse order",
     [(P, "            self.post_move\n                .iter_mut()\n                .for_each(|post_move| post_move.post_move(&mut current_coordinates));",
       "            self.post_move\n                .iter_mut()\n                .rev()\n                .for_each(|post_move| post_move.post_move(&mut current_coordinates));")],
     PSO + r'''
fn main() {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| -x[0])), Box::new(MaxIterations::new(0)),
        Box::new(Pos(vec![vec![vec![3.0]]])), Box::new(Vel(vec![vec![1.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![1.0])));
    o.set_post_moves(vec![Box::new(Moved(|v: &mut Vec<f64>| v[0] *= 2.0)), Box::new(Moved(|v: &mut Vec<f64>| v[0] += 1.0))]);
    assert_eq!(o.find_min().unwrap().0, vec![7.0]);
}
''')

seed("c13-personal-worst", "C13",
     "a particle whose values become finite only later",
     "the worst personal point is replaced when a later value is finite",
     [(P, "        if compare_floats(value, self.worst_personal_value) == Ordering::Greater {", "        if !self.worst_personal_value.is_finite()\n            || compare_floats(value, self.worst_personal_value) == Ordering::Greater\n        {")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    // the particle flees from its own worst point, which is the first one (NaN)
    let out = Rc::new(RefCell::new(vec![]));
    let o2 = out.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| { o2.borrow_mut().push(x[0]); if x[0] == 0.0 { f64::NAN } else { -x[0] } })), Box::new(MaxIterations::new(2)),
        Box::new(Pos(vec![vec![vec![0.0]]])), Box::new(Vel(vec![vec![1.0]])), Box::new(NegativeReinforcement::new(0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0)));
    o.set_post_velocity_calc(vec![Box::new(Corr(|v: Vec<f64>| vec![v[0].ceil()]))]);
    o.find_min();
    println!("{:?}", out);
    assert!(out.borrow()[2] > 2.0);
}
''')

seed("c13-late-inertia", "C13",
     "an inertia that is asked again after a new search has begun",
     "the weight never rises again, so a second search starts with the smallest weight",
     [(VEL, "    t_max: usize,\n}\n\nimpl<T: Float> LinearInertia<T> {", "    t_max: usize,\n    last: usize,\n}\n\nimpl<T: Float> LinearInertia<T> {"),
      (VEL, "            w_max,\n            t_max,\n        }\n    }\n}\n\nimpl<T: Float> Inertia<T> for LinearInertia<T> {\n    fn get(&mut self, iteration: usize) -> T {\n",
       "            w_max,\n            t_max,\n            last: 0,\n        }\n    }\n}\n\nimpl<T: Float> Inertia<T> for LinearInertia<T> {\n    fn get(&mut self, iteration: usize) -> T {\n        self.last = self.last.max(iteration);\n        let iteration = self.last;\n")],
     r'''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    let mut i = LinearInertia::new(0.5_f64, 1.0, 10);
    assert_eq!(i.get(0), 1.0);
    assert_eq!(i.get(10), 0.5);
    assert_eq!(i.get(0), 1.0);
}
''')

seed("c14-last-dimension", "C14",
     "a bound that is smaller than one",
     "components below one are never limited",
     [(PV, "                if v.abs() <= *v_max {", "                if v.abs() <= *v_max || v.abs() < *v_max * T::from(1.0001).unwrap() {")],
     r'''
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::PostVelocityCalc;
fn main() {
    let r = MaxVelocityDimensions::new(vec![2.0, 3.0]).correct_velocity(vec![2.0001, -4.0]);
    println!("{:?}", r);
    assert_eq!(r, [2.0, -3.0]);
}
''')

seed("c15-infinite", "C15",
     "an infinite coordinate",
     "infinite coordinates are left where they are",
     [(PM, "            if !coordinates[i].is_finite() {", "            if coordinates[i].is_nan() {"),
      (PM, "            if coordinates[i] > self.intervals[i].1 {", "            if coordinates[i] > self.intervals[i].1 && coordinates[i].is_finite() {")],
     r"""
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::PostMove;
fn main() {
    let mut x = vec![1.5, std::f64::INFINITY];
    MoveToBoundary::new(vec![(0.0, 1.0), (0.0, 1.0)]).post_move(&mut x);
    assert!(x.iter().all(|v| *v >= 0.0 && *v <= 1.0));
}
""")

seed("c16-shared-size", "C16",
     "one crossover used for f32 after f64",
     "the positions of the first type it was used for are kept",
     [(CROSS, "pub struct CrossBitwise {\n    random: ThreadRng,\n}", "pub struct CrossBitwise {\n    random: ThreadRng,\n    size: Option<usize>,\n}"),
      (CROSS, "impl CrossBitwise {\n    /// Constructor.\n    pub fn new() -> Self {\n        let random = rand::thread_rng();\n        Self { random }", "impl CrossBitwise {\n    /// Constructor.\n    pub fn new() -> Self {\n        let random = rand::thread_rng();\n        Self { random, size: None }"),
      (CROSS, "        let size = mem::size_of::<f64>() * 8;\n        let between", "        let size = *self.size.get_or_insert(mem::size_of::<f64>() * 8);\n        let between"),
      (CROSS, "        let size = mem::size_of::<f32>() * 8;\n        let between", "        let size = *self.size.get_or_insert(mem::size_of::<f32>() * 8);\n        let between")],
     r"""
use optlib::genetic::cross::*;
use optlib::genetic::Cross;
fn main() {
    let mut c = CrossBitwise::new();
    let _: Vec<f32> = c.cross(&[&1.0f32, &2.0f32]);
    let (a, b) = (0f64, f64::from_bits(!0));
    let mut top = 0;
    for _ in 0..2000 {
        let o: Vec<f64> = c.cross(&[&a, &b]);
        top = top.max(64 - o[0].to_bits().leading_zeros());
    }
    assert!(top > 40, "{}", top);
}
""")

seed("c17-long-chromosome", "C17",
     "a chromosome with more than 64 genes",
     "genes beyond the 64th are copied without mutation",
     [(MUT, "        for chromo in chromosomes {\n            if mutate.sample(&mut self.random) < self.probability {", "        for (n, chromo) in chromosomes.iter().enumerate() {\n            if mutate.sample(&mut self.random) < self.probability && n < 64 {")],
     r'''
use optlib::genetic::mutation::*;
use optlib::genetic::Mutation;
struct Neg;
impl Mutation<f64> for Neg { fn mutation(&mut self, x: &f64) -> f64 { -x } }
fn main() {
    let mut m = VecMutation::new(100.0, Box::new(Neg));
    assert_eq!(m.mutation(&vec![1.0; 70]), vec![-1.0; 70]);
}
''')

seed("c18-kept-range", "C18",
     "one pairing used on a population that has grown",
     "individuals beyond the first population's size are never chosen",
     [(PAIR, "    rounds_count: usize,\n    random: ThreadRng,\n}", "    rounds_count: usize,\n    random: ThreadRng,\n    between: Option<(usize, Uniform<usize>)>,\n}"),
      (PAIR, "            rounds_count: 1,\n            random,", "            rounds_count: 1,\n            random,\n            between: None,"),
      (PAIR, "        let between = Uniform::new(0, population.len());\n\n        // Loop for families count",
       "        let between = match self.between {\n            Some((size, between)) if size <= population.len() => between,\n            _ => Uniform::new(0, population.len()),\n        };\n        self.between = Some((population.len().min(self.between.map_or(population.len(), |b| b.0)), between));\n\n        // Loop for families count")],
     GA + r'''
use optlib::genetic::pairing::*;
struct Look(Tournament, Rc<RefCell<bool>>);
impl Pairing<f64> for Look {
    fn get_pairs(&mut self, p: &Population<f64>) -> Vec<Vec<usize>> {
        for f in self.0.get_pairs(p) { for x in f { if x >= 2 { *self.1.borrow_mut() = true; } } }
        vec![vec![0]]
    }
}
fn main() {
    let seen = Rc::new(RefCell::new(false));
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(100)), Box::new(Make(vec![1.0, 2.0])),
        Box::new(Look(Tournament::new(10), seen.clone())), Box::new(Breed(|p: &[&f64]| vec![*p[0] - 1.0])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
    assert!(*seen.borrow());
}
''')

seed("c19-last-vector", "C19",
     "several vectors from one initializer",
     "all velocities of one call share their first component",
     [(INIT, "    fn get_velocity(&mut self) -> Vec<Vec<T>> {\n        (0..self.particles_count)\n            .map(|_| self.vector_creator.create_vec(&self.intervals))\n            .collect()",
       "    fn get_velocity(&mut self) -> Vec<Vec<T>> {\n        let mut all: Vec<Vec<T>> = (0..self.particles_count)\n            .map(|_| self.vector_creator.create_vec(&self.intervals))\n            .collect();\n        if all.len() > 64 && !self.intervals.is_empty() {\n            let x = all[0][0].to_f64().unwrap();\n            all[64][0] = T::from(x).unwrap();\n            all.truncate(self.particles_count);\n            all.swap_remove(63);\n        }\n        all")],
     r'''
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::VelocityInitializer;
fn main() {
    let mut v = RandomVelocityInitializer::new(vec![(0.0_f64, 1.0)], 100);
    assert_eq!(v.get_velocity().len(), 100);
}
''')

seed("c20-many-parents", "C20",
     "more than eight parents",
     "the mean is taken over the first eight parents",
     [(CROSS, "        result = result / G::from(parents_genes.len()).unwrap();", "        result = result / G::from(parents_genes.len().min(8)).unwrap();")],
     r'''
use optlib::genetic::cross::*;
use optlib::genetic::Cross;
fn main() {
    let r: Vec<f64> = CrossMean::new().cross(&vec![&3.0; 12]);
    assert_eq!(r, [3.0]);
}
''')

seed("c21-deep-composite", "C21",
     "a composite with more than three members",
     "members behind the fourth are not asked",
     [(STOP, "    pub fn new(stop_checkers: Vec<Box<dyn StopChecker<T>>>) -> Self {\n        assert!(stop_checkers.len() != 0);\n        Self { stop_checkers }\n    }\n}\n\nimpl<T> StopChecker<T> for CompositeAny<T> {",
       "    pub fn new(mut stop_checkers: Vec<Box<dyn StopChecker<T>>>) -> Self {\n        assert!(stop_checkers.len() != 0);\n        stop_checkers.truncate(4);\n        Self { stop_checkers }\n    }\n}\n\nimpl<T> StopChecker<T> for CompositeAny<T> {")],
     GA + r'''
struct St;
impl AlgorithmState<f64> for St { fn get_best_solution(&self) -> Option<(f64, f64)> { None } fn get_iteration(&self) -> usize { 5 } }
fn main() {
    let m: Vec<Box<dyn StopChecker<f64>>> = (0..5).map(|n| Box::new(MaxIterations::new(9 - n)) as Box<dyn StopChecker<f64>>).collect();
    assert!(CompositeAny::new(m).can_stop(&St));
}
''')

seed("c22-long-stagnation", "C22",
     "a criterion with more than 32767 iterations",
     "the number of iterations is kept in fifteen bits",
     [(STOP, "                (state.get_iteration() - self.change_iter) > self.max_iter", "                (state.get_iteration() - self.change_iter) > (self.max_iter & 0x7fff)")],
     GA + r'''
struct St(usize);
impl AlgorithmState<f64> for St { fn get_best_solution(&self) -> Option<(f64, f64)> { Some((0.0, 1.0)) } fn get_iteration(&self) -> usize { self.0 } }
fn main() {
    let mut c = GoalNotChange::new(40000, 0.1);
    for n in 0..40001 { assert!(!c.can_stop(&St(n)), "{}", n); }
    assert!(c.can_stop(&St(40001)));
}
''')

seed("c23-unite-empty-runs", "C23",
     "uniting statistics of which a run has no iterations",
     "convergences without iterations are dropped when uniting",
     [(STAT, "        self.convergence.append(&mut other.convergence);", "        other.convergence.retain(|x| !x.is_empty());\n        self.convergence.append(&mut other.convergence);")],
     GA + r'''
use optlib::tools::statistics::*;
fn main() {
    let mut a = Statistics::new();
    let mut b = Statistics::new();
    {
        let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(0)), Box::new(Make(vec![1.0])),
            Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
        o.set_loggers(vec![Box::new(StatisticsLogger::new(&mut b))]);
        o.find_min();
    }
    a.unite(b);
    assert_eq!(a.get_run_count(), a.get_convergence().len());
}
''')

seed("c24-ragged-convergence", "C24",
     "runs of different lengths of which the shortest is not among the first two",
     "the length of the average convergence is that of the first shorter run",
     [(STAT, "            self.iter().fold(self[0].len(), |min_len, x| {\n                if x.len() < min_len {", "            self.iter().take(64).fold(self[0].len(), |min_len, x| {\n                if x.len() < min_len {")],
     r'''
use optlib::tools::statistics::*;
type Solution<T> = (T, f64);
fn main() {
    let mut r: Vec<Vec<Option<Solution<f64>>>> = vec![vec![Some((1.0, 1.0)); 3]; 70];
    r[69].pop();
    assert_eq!(r.get_min_iterations(), 2);
}
''')

seed("c25-first-coordinates", "C25",
     "a solution with more than sixteen coordinates",
     "only the first sixteen coordinates are compared",
     [(STAT, "        for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {", "        for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())).take(16) {")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let p = get_predicate_success_vec_solution(vec![0.0; 20], vec![0.1; 20]);
    let mut x = vec![0.0; 20];
    x[18] = 1.0;
    assert!(!p(&(x, 0.0)));
}
''')

seed("c25-goal-borderline", "C25",
     "a goal value exactly delta away from the expected one",
     "the goal predicate accepts values that are exactly delta away",
     [(STAT, "    move |(_, goal): &(T, GoalValue)| (goal - expected_goal).abs() < delta", "    move |(_, goal): &(T, GoalValue)| (goal - expected_goal).abs() <= delta")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let p = get_predicate_success_goal::<f64>(1.0, 0.5);
    assert!(!p(&(0.0, 1.5)));
    assert!(p(&(0.0, 1.25)));
}
''')

seed("c26-nan-calls", "C26",
     "a goal function that returns NaN",
     "calls that gave no number are not counted",
     [(STAT, "        self.call_count.increment();\n        self.goal.get(x)", "        let value = self.goal.get(x);\n        if !value.is_nan() {\n            self.call_count.increment();\n        }\n        value")],
     r'''
use optlib::tools::statistics::*;
use optlib::{Goal, GoalFromFunction};
fn main() {
    let mut c = CallCountData::new();
    {
        let mut g = GoalFromFunction::new(|x: &f64| x.sqrt());
        let mut s = GoalCalcStatistics::new(&mut g, &mut c);
        s.get(&-1.0);
        s.get(&1.0);
    }
    assert_eq!(c.get_call_count(), [2]);
}
''')

seed("c27-wide-numbers", "C27",
     "a precision above seventeen decimals",
     "no more than seventeen decimals are printed",
     [(LOG, "    pub fn new(writer: &'a mut dyn io::Write, precision: usize) -> Self {\n        Self { writer, precision }\n    }\n}\n\nimpl<'a, T: Display> Logger<Vec<T>> for ResultOnlyLogger<'a> {", "    pub fn new(writer: &'a mut dyn io::Write, precision: usize) -> Self {\n        Self { writer, precision: precision.min(17) }\n    }\n}\n\nimpl<'a, T: Display> Logger<Vec<T>> for ResultOnlyLogger<'a> {")],
     r'''
use optlib::tools::logging::*;
use optlib::AlgorithmState;
struct St;
impl AlgorithmState<Vec<f64>> for St { fn get_best_solution(&self) -> Option<(Vec<f64>, f64)> { Some((vec![0.5], 0.25)) } fn get_iteration(&self) -> usize { 1 } }
fn main() {
    let mut out = vec![];
    ResultOnlyLogger::new(&mut out, 20).finish(&St);
    let t = String::from_utf8(out).unwrap();
    assert!(t.contains("Goal: 0.25000000000000000000\n"), "{}", t);
}
''')

seed("c28-far-coordinates", "C28",
     "coordinates beyond ten thousand",
     "the Rosenbrock function treats coordinates beyond 10000 as 10000",
     [(FUNC, "    for n in 0..x.len() - 1 {\n", "    let limit = G::from(10000.0).unwrap();\n    let x: Vec<G> = x.iter().map(|v| v.min(limit).max(-limit)).collect();\n    for n in 0..x.len() - 1 {\n")],
     r'''
fn main() {
    let v: f64 = optlib_testfunc::rosenbrock(&vec![1.0, 20001.0]);
    assert_eq!(v, 100.0 * 20000.0 * 20000.0);
}
''')

seed("c28-single-precision", "C28",
     "a large number of coordinates in single precision",
     "Rastrigin counts its coordinates from the second one",
     [(FUNC, "    let result = a * G::from(x.len()).unwrap() +", "    let result = a * G::from(x.len() as u8 as usize).unwrap() +")],
     r'''
fn main() {
    let v: f64 = optlib_testfunc::rastrigin(&vec![0.0_f64; 300]);
    assert!(v.abs() < 1e-6, "{}", v);
}
''')
