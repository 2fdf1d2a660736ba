"""Planted bugs, fifth batch: panics of plug-ins."""
from seeds import seed, GA, PSO
from seeds2 import G

P = "optlib/src/particleswarm/mod.rs"

CATCH = r'''
use std::panic::{catch_unwind, AssertUnwindSafe};
'''

seed("c32-loggers-lent", "C32",
     "a logger panics at the finish, and the optimizer is used again",
     "after a panic in the last phase of a search the optimizer has lost its loggers",
     [(G, "        for logger in &mut self.loggers {\n            logger.finish(&self.population);\n        }",
       "        let mut loggers = std::mem::take(&mut self.loggers);\n        for logger in &mut loggers {\n            logger.finish(&self.population);\n        }\n        self.loggers = loggers;")],
     GA + CATCH + r'''
struct Bomb(Rc<RefCell<usize>>);
impl Logger<f64> for Bomb { fn finish(&mut self, _s: &dyn AlgorithmState<f64>) { *self.0.borrow_mut() += 1; if *self.0.borrow() == 1 { panic!("bomb") } } }
fn main() {
    let n = Rc::new(RefCell::new(0));
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.set_loggers(vec![Box::new(Bomb(n.clone()))]);
    assert!(catch_unwind(AssertUnwindSafe(|| o.find_min())).is_err());
    assert_eq!(o.find_min(), Some((1.0, 1.0)));
    assert_eq!(*n.borrow(), 2);
}
''')

seed("c32-selections-lent", "C32",
     "a selection (or the goal during births) panics, and the optimizer is used again",
     "after a panic in a selection the optimizer goes on without selections",
     [(G, "            for selection in &mut self.selections {\n                selection.kill(&mut self.population);\n            }",
       "            let selections = std::mem::take(&mut self.selections);\n            self.selections = selections\n                .into_iter()\n                .map(|mut selection| {\n                    selection.kill(&mut self.population);\n                    selection\n                })\n                .collect();")],
     GA + CATCH + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(move |p: &mut Population<f64>| { *l.borrow_mut() += 1; if *l.borrow() == 1 { panic!("bomb") } }))], vec![]);
    assert!(catch_unwind(AssertUnwindSafe(|| o.find_min())).is_err());
    o.find_min();
    assert_eq!(*n.borrow(), 2);
}
''')

seed("c32-corrections-lent", "C32",
     "the correction of a velocity panics, and the optimizer is used again",
     "after a panic in a correction the swarm moves with uncorrected velocities",
     [(P, "                for post_velocity_calc in &mut self.post_velocity_calc {\n                    new_velocity = post_velocity_calc.correct_velocity(new_velocity);\n                }",
       "                let mut corrections: Vec<_> = self.post_velocity_calc.drain(..).collect();\n                for post_velocity_calc in &mut corrections {\n                    new_velocity = post_velocity_calc.correct_velocity(new_velocity);\n                }\n                self.post_velocity_calc.append(&mut corrections);")],
     PSO + CATCH + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![2.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![-1.0])));
    o.set_post_velocity_calc(vec![Box::new(Corr(move |v: Vec<f64>| { *l.borrow_mut() += 1; if *l.borrow() == 1 { panic!("bomb") } vec![-0.5] }))]);
    assert!(catch_unwind(AssertUnwindSafe(|| o.find_min())).is_err());
    assert_eq!(o.find_min(), Some((vec![1.5], 1.5)));
}
''')

seed("c32-goal-swallowed", "C32",
     "the goal function panics at a point of a swarm",
     "a panic of the goal function is swallowed and counts as NaN",
     [(P, "                let new_value = self.goal.get(&new_coordinates);",
       "                let goal = &mut self.goal;\n                let new_value = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {\n                    goal.get(&new_coordinates)\n                }))\n                .unwrap_or(f64::NAN);")],
     PSO + CATCH + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| { *l.borrow_mut() += 1; if *l.borrow() == 3 { panic!("bomb") } x[0] })), Box::new(MaxIterations::new(3)), Box::new(Pos(vec![vec![vec![2.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![-1.0])));
    assert!(catch_unwind(AssertUnwindSafe(|| o.find_min())).is_err());
}
''')

seed("c32-busy-flag", "C32",
     "a search panics and another one is started on the same optimizer",
     "the optimizer believes for ever that the interrupted search is under way, and finds nothing",
     [(P, "    fn find_min(&mut self) -> Option<(Coordinate<T>, f64)> {\n        self.renew_swarm();\n\n        for logger in &mut self.loggers {\n            logger.start(&self.swarm);\n        }\n\n        self.next_iterations()\n    }",
       "    fn find_min(&mut self) -> Option<(Coordinate<T>, f64)> {\n        // No search inside itself\n        if self.swarm.searching {\n            return None;\n        }\n        self.renew_swarm();\n        self.swarm.searching = true;\n\n        for logger in &mut self.loggers {\n            logger.start(&self.swarm);\n        }\n\n        let result = self.next_iterations();\n        self.swarm.searching = false;\n        result\n    }"),
      (P, "            worst_particle: None,\n            iteration: 0,\n        }", "            worst_particle: None,\n            iteration: 0,\n            searching: false,\n        }"),
      (P, "    worst_particle: Option<Particle<T>>,\n", "    worst_particle: Option<Particle<T>>,\n    searching: bool,\n")],
     PSO + CATCH + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| { *l.borrow_mut() += 1; if *l.borrow() == 2 { panic!("bomb") } x[0] })), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![2.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![-1.0])));
    assert!(catch_unwind(AssertUnwindSafe(|| o.find_min())).is_err());
    assert_eq!(o.find_min(), Some((vec![1.0], 1.0)));
}
''')

seed("c32-finish-while-unwinding", "C32",
     "a plug-in of a genetic search panics while a logger listens",
     "the loggers are told about the finish although the search was cut off by a panic",
     [(G, "        for logger in &mut self.loggers {\n            logger.resume(&self.population);\n        }\n\n        while",
       "        struct Closing<'b, 'a, T: Clone>(&'b mut GeneticOptimizer<'a, T>);\n        impl<'b, 'a, T: Clone> Drop for Closing<'b, 'a, T> {\n            fn drop(&mut self) {\n                for logger in &mut self.0.loggers {\n                    logger.finish(&self.0.population);\n                }\n            }\n        }\n        let closing = Closing(self);\n        let this = &mut *closing.0;\n        for logger in &mut this.loggers {\n            logger.resume(&this.population);\n        }\n\n        while"),
      (G, "!self.stop_checker.can_stop(&self.population) {\n            // Pairing\n            let mut children_chromo_list = self.run_pairing();", "!this.stop_checker.can_stop(&this.population) {\n            // Pairing\n            let mut children_chromo_list = this.run_pairing();"),
      (G, "                .map(|chromo| self.mutation.mutation(chromo))", "                .map(|chromo| this.mutation.mutation(chromo))"),
      (G, "            for pre_birth in &mut self.pre_births {\n                pre_birth.pre_birth(&self.population, &mut children_mutants);\n            }", "            for pre_birth in &mut this.pre_births {\n                pre_birth.pre_birth(&this.population, &mut children_mutants);\n            }"),
      (G, "            self.population.append(children_mutants);", "            this.population.append(children_mutants);"),
      (G, "            for selection in &mut self.selections {\n                selection.kill(&mut self.population);\n            }\n\n            self.population.remove_dead();\n\n            self.population.update_best_worst_individuals();\n\n            self.population.next_iteration();\n\n            for logger in &mut self.loggers {\n                logger.next_iteration(&self.population);\n            }",
       "            for selection in &mut this.selections {\n                selection.kill(&mut this.population);\n            }\n\n            this.population.remove_dead();\n\n            this.population.update_best_worst_individuals();\n\n            this.population.next_iteration();\n\n            for logger in &mut this.loggers {\n                logger.next_iteration(&this.population);\n            }"),
      (G, "        for logger in &mut self.loggers {\n            logger.finish(&self.population);\n        }\n\n        match &self", "        drop(closing);\n\n        match &self")],
     GA + CATCH + r'''
fn main() {
    let seen = log();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0])),
        Box::new(Pairs(vec![vec![0]])), Box::new(Breed(|p: &[&f64]| panic!("bomb"))), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.set_loggers(vec![Box::new(Spy(seen.clone()))]);
    assert!(catch_unwind(AssertUnwindSafe(|| o.find_min())).is_err());
    println!("{:?}", seen);
    assert_eq!(seen.borrow().len(), 2);
}
''')

seed("c32-payload-replaced", "C32",
     "a plug-in of a swarm panics with something the caller wants to see",
     "the panic of a plug-in arrives as another panic, without what it carried",
     [(P, "                let mut new_velocity = self\n                    .velocity_calculator\n                    .calc_new_velocity(&self.swarm, &self.swarm.particles[n]);",
       "                let (calculator, swarm) = (&mut self.velocity_calculator, &self.swarm);\n                let mut new_velocity = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {\n                    calculator.calc_new_velocity(swarm, &swarm.particles[n])\n                }))\n                .expect(\"velocity calculator failed\");")],
     PSO + CATCH + r'''
fn main() {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![2.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| std::panic::panic_any(7usize))));
    let e = catch_unwind(AssertUnwindSafe(|| o.find_min())).unwrap_err();
    assert_eq!(e.downcast_ref::<usize>(), Some(&7));
}
''')

seed("c32-first-generation-kept", "C32",
     "the goal function panics while the first generation is born, and the search is started again",
     "the individuals born before the panic are still there in the next search",
     [(G, "        self.population.reset();\n        let start_chromo_list", "        // A population that has not been used yet is empty\n        if self.population.used {\n            self.population.reset();\n        }\n        let start_chromo_list"),
      (G, "            logger.start(&self.population);\n        }\n", "            logger.start(&self.population);\n        }\n        self.population.used = true;\n"),
      (G, "    best_individual: Option<Individual<T>>,\n", "    best_individual: Option<Individual<T>>,\n\n    used: bool,\n"),
      (G, "            best_individual: None,\n", "            best_individual: None,\n            used: false,\n")],
     GA + CATCH + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let m = Rc::new(RefCell::new(0));
    let k = m.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(move |x: &f64| { *l.borrow_mut() += 1; if *l.borrow() == 2 { panic!("bomb") } *x })), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(move |p: &mut Population<f64>| *k.borrow_mut() = p.len()))], vec![]);
    assert!(catch_unwind(AssertUnwindSafe(|| o.find_min())).is_err());
    o.find_min();
    assert_eq!(*m.borrow(), 3);
}
''')
