"""Planted bugs, fourth batch: views, whole searches, independence of searches."""
from seeds import seed, GA, PSO
from seeds2 import G, VEL, PV, PM, TOOLS, STOP, STAT, LOG, SEL, PAIR

P = "optlib/src/particleswarm/mod.rs"

seed("c29-agents-alive", "C29",
     "somebody looks at the list of agents after individuals were killed",
     "dead individuals are missing from the list of agents of the population, although the other views show them",
     [(G, "        for individual in self.individuals.iter() {\n            agents.push(individual);",
       "        for individual in self.individuals.iter().filter(|i| i.is_alive()) {\n            agents.push(individual);")],
     GA + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(|p: &mut Population<f64>| p[1].kill())), Box::new(Sel(move |p: &mut Population<f64>| *l.borrow_mut() = p.get_agents().len()))], vec![]);
    o.find_min();
    assert_eq!(*n.borrow(), 3);
}
''')

seed("c29-alive-prefix", "C29",
     "an individual dies that is followed by live ones",
     "only the live individuals before the first dead one are counted",
     [(G, "            .filter(|individual| individual.is_alive())\n            .count()", "            .take_while(|individual| individual.is_alive())\n            .count()")],
     GA + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(|p: &mut Population<f64>| p[0].kill())), Box::new(Sel(move |p: &mut Population<f64>| *l.borrow_mut() = p.len_alive()))], vec![]);
    o.find_min();
    assert_eq!(*n.borrow(), 2);
}
''')

seed("c29-shared-life", "C29",
     "a plug-in kills a copy of an individual",
     "killing a copy of an individual kills the individual itself",
     [(G, "    /// True if individual will pass to text generation.\n    alive: bool,", "    /// True if individual will pass to text generation.\n    alive: std::rc::Rc<std::cell::Cell<bool>>,"),
      (G, "            fitness: self.fitness,\n            alive: self.alive,", "            fitness: self.fitness,\n            alive: self.alive.clone(),"),
      (G, "        self.alive\n", "        self.alive.get()\n"),
      (G, "        self.alive = false;", "        self.alive.set(false);"),
      (G, "            alive: true,", "            alive: std::rc::Rc::new(std::cell::Cell::new(true)),")],
     GA + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(move |p: &mut Population<f64>| { let mut c = p[1].clone(); c.kill(); *l.borrow_mut() = p.len_alive(); }))], vec![]);
    o.find_min();
    assert_eq!(*n.borrow(), 3);
}
''')

seed("c29-mutable-from-first-live", "C29",
     "the mutable iteration over a population whose first individuals are dead",
     "the mutable iteration starts at the first live individual",
     [(G, "        self.individuals.iter_mut()", "        let first = self.individuals.iter().position(|i| i.is_alive()).unwrap_or(0);\n        self.individuals[first..].iter_mut()")],
     GA + r'''
fn main() {
    let n = Rc::new(RefCell::new(vec![]));
    let l = n.clone();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(|p: &mut Population<f64>| p[0].kill())), Box::new(Sel(move |p: &mut Population<f64>| { for i in p.iter_mut() { l.borrow_mut().push(*i.get_chromosomes()); } }))], vec![]);
    o.find_min();
    assert_eq!(*n.borrow(), [1.0, 2.0, 3.0]);
}
''')

seed("c29-swarm-without-copies", "C29",
     "a swarm with particles that have the same coordinates",
     "the list of agents of the swarm has one of the particles at the same point only",
     [(P, "impl<T: Clone> AgentsState<Coordinate<T>> for Swarm<T> {", "impl<T: Clone + PartialEq> AgentsState<Coordinate<T>> for Swarm<T> {"),
      (P, "            agents.push(particle);", "            if agents.last().map_or(true, |last| last.coordinates != particle.coordinates) {\n                agents.push(particle);\n            }")],
     PSO + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![1.0], vec![2.0], vec![2.0]]])),
        Box::new(Vel(vec![vec![0.0], vec![0.0], vec![0.0]])),
        Box::new(Rule(move |s: &Swarm<f64>, p: &Particle<f64>| { *l.borrow_mut() = s.get_agents().len(); vec![0.0] })));
    o.find_min();
    assert_eq!(*n.borrow(), 3);
}
''')

seed("c30-limit-without-solution", "C30",
     "a search that never finds a solution (empty population)",
     "the iteration limit does not end a search without a solution",
     [(STOP, "        state.get_iteration() >= self.max_iter\n", "        state.get_iteration() >= self.max_iter\n            && (self.max_iter == 0 || state.get_best_solution().is_some())\n")],
     GA + r'''
struct Count(Rc<RefCell<usize>>);
impl Logger<f64> for Count { fn next_iteration(&mut self, _s: &dyn AlgorithmState<f64>) { *self.0.borrow_mut() += 1; assert!(*self.0.borrow() < 100); } }
fn main() {
    let n = Rc::new(RefCell::new(0));
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(3)), Box::new(Make(vec![])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.set_loggers(vec![Box::new(Count(n.clone()))]);
    o.find_min();
    assert_eq!(*n.borrow(), 3);
}
''')

seed("c30-threshold-latch", "C30",
     "a search with a threshold after one that reached it with the same criterion",
     "a threshold once reached ends the following search immediately when it starts with a solution (PSO) or after its first generation",
     [(STOP, "pub struct Threshold {\n    threshold: f64,\n}", "pub struct Threshold {\n    threshold: f64,\n    reached: bool,\n}"),
      (STOP, "        Self { threshold }\n", "        Self { threshold, reached: false }\n"),
      (STOP, "            Some((_, goal)) => goal <= self.threshold,", "            Some((_, goal)) => {\n                self.reached = self.reached || goal <= self.threshold;\n                self.reached\n            }")],
     PSO + r'''
struct Count(Rc<RefCell<Vec<usize>>>);
impl Logger<Vec<f64>> for Count { fn finish(&mut self, s: &dyn AlgorithmState<Vec<f64>>) { self.0.borrow_mut().push(s.get_iteration()); } }
fn main() {
    let n = Rc::new(RefCell::new(vec![]));
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(Threshold::new(0.0)), Box::new(Pos(vec![vec![vec![2.0]], vec![vec![5.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![-1.0])));
    o.set_loggers(vec![Box::new(Count(n.clone()))]);
    o.find_min();
    o.find_min();
    println!("{:?}", n);
    assert_eq!(*n.borrow(), [2, 5]);
}
''')

seed("c30-iteration-before-question", "C30",
     "a genetic search continued after its criterion ended it",
     "a continued search makes a generation before the criterion is asked",
     [(G, "        while !self.stop_checker.can_stop(&self.population) {", "        let mut continued = self.population.iteration > 0;\n        while continued || !self.stop_checker.can_stop(&self.population) {\n            continued = false;")],
     GA + r'''
struct Count(Rc<RefCell<Vec<usize>>>);
impl Logger<f64> for Count { fn finish(&mut self, s: &dyn AlgorithmState<f64>) { self.0.borrow_mut().push(s.get_iteration()); } }
fn main() {
    let n = Rc::new(RefCell::new(vec![]));
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(3)), Box::new(Make(vec![1.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.set_loggers(vec![Box::new(Count(n.clone()))]);
    o.find_min();
    o.next_iterations();
    assert_eq!(*n.borrow(), [3, 3]);
}
''')

seed("c30-worse-best", "C30",
     "a genetic search whose best value gets worse, watched by the no-change criterion",
     "a worse best value does not count as a change",
     [(STOP, "                let delta = (best_goal - self.old_goal).abs();", "                let delta = self.old_goal - best_goal;")],
     GA + r'''
struct Count(Rc<RefCell<Vec<usize>>>);
impl Logger<f64> for Count { fn finish(&mut self, s: &dyn AlgorithmState<f64>) { self.0.borrow_mut().push(s.get_iteration()); } }
fn main() {
    // the population has one individual, replaced by its child; values 1 2 3 4 4 4 4 ...
    let n = Rc::new(RefCell::new(vec![]));
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| x.min(4.0))), Box::new(GoalNotChange::new(1, 0.5)), Box::new(Make(vec![0.0])),
        Box::new(Pairs(vec![vec![0]])), Box::new(Breed(|p: &[&f64]| vec![*p[0] + 1.0])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(Sel(|p: &mut Population<f64>| p[0].kill()))], vec![]);
    o.set_loggers(vec![Box::new(Count(n.clone()))]);
    o.find_min();
    println!("{:?}", n);
    assert_eq!(*n.borrow(), [6]);
}
''')

seed("c30-nested-composite", "C30",
     "two questions in a row about the same iteration number, of different searches",
     "a composite takes a question about the iteration of its previous question for the end of the search",
     [(STOP, "pub struct CompositeAny<T> {\n    stop_checkers: Vec<Box<dyn StopChecker<T>>>,\n}", "pub struct CompositeAny<T> {\n    stop_checkers: Vec<Box<dyn StopChecker<T>>>,\n    last: Option<usize>,\n}"),
      (STOP, "pub fn new(stop_checkers: Vec<Box<dyn StopChecker<T>>>) -> Self {\n        assert!(stop_checkers.len() != 0);\n        Self { stop_checkers }\n    }\n}\n\nimpl<T> StopChecker<T> for CompositeAny<T> {\n    fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {",
       "pub fn new(stop_checkers: Vec<Box<dyn StopChecker<T>>>) -> Self {\n        assert!(stop_checkers.len() != 0);\n        Self { stop_checkers, last: None }\n    }\n}\n\nimpl<T> StopChecker<T> for CompositeAny<T> {\n    fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {\n        let same_iteration = self.last == Some(state.get_iteration());\n        self.last = Some(state.get_iteration());\n        if same_iteration {\n            return true;\n        }")],
     GA + r'''
struct Count(Rc<RefCell<Vec<usize>>>);
impl Logger<f64> for Count { fn finish(&mut self, s: &dyn AlgorithmState<f64>) { self.0.borrow_mut().push(s.get_iteration()); } }
fn main() {
    // the first search ends before its first generation, and so does not the second
    let n = Rc::new(RefCell::new(vec![]));
    let limit = Rc::new(RefCell::new(0));
    struct Until(Rc<RefCell<usize>>);
    impl StopChecker<f64> for Until { fn can_stop(&mut self, s: &dyn AlgorithmState<f64>) -> bool { s.get_iteration() >= *self.0.borrow() } }
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(CompositeAny::new(vec![Box::new(Until(limit.clone()))])), Box::new(Make(vec![0.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.set_loggers(vec![Box::new(Count(n.clone()))]);
    o.find_min();
    *limit.borrow_mut() = 2;
    o.find_min();
    println!("{:?}", n);
    assert_eq!(*n.borrow(), [0, 2]);
}
''')

seed("c31-inertia-table", "C31",
     "two searches with linear inertia of different parameters in one process",
     "the weights of linear inertia are kept for all optimizers by iteration number",
     [(VEL, "        // The coefficient does not change after t_max\n", "        thread_local! {\n            static FIRST: std::cell::RefCell<std::collections::HashMap<usize, f64>> = Default::default();\n        }\n        if let Some(w) = FIRST.with(|f| f.borrow().get(&iteration).cloned()) {\n            return T::from(w).unwrap();\n        }\n        let number = iteration;\n        // The coefficient does not change after t_max\n"),
      (VEL, "        self.w_max\n            - (self.w_max - self.w_min)", "        let w = self.w_max\n            - (self.w_max - self.w_min)"),
      (VEL, " * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()\n", " * T::from(iteration).unwrap() / T::from(self.t_max).unwrap();\n        FIRST.with(|f| f.borrow_mut().insert(number, w.to_f64().unwrap()));\n        w\n")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::*;
fn run(a: f64, b: f64) -> f64 {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(3)), Box::new(Pos(vec![vec![vec![0.0]]])),
        Box::new(Vel(vec![vec![-8.0]])), Box::new(InertiaVelocityCalculator::new(0.0, 0.0, Box::new(LinearInertia::new(a, b, 4)))));
    o.find_min().unwrap().1
}
fn main() {
    let x = run(0.0, 1.0);
    let y = run(0.5, 0.5);
    println!("{} {}", x, y);
    assert_eq!(y, -7.0);
}
''')

seed("c31-quiet-inside", "C31",
     "a search that runs inside a plug-in of another search",
     "the loggers of a search inside another search hear nothing of its iterations",
     [(G, "    fn next_iterations(&mut self) -> Option<Solution<T>> {\n",
       "    fn next_iterations(&mut self) -> Option<Solution<T>> {\n        thread_local! {\n            static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);\n        }\n        struct Inside;\n        impl Drop for Inside {\n            fn drop(&mut self) {\n                DEPTH.with(|d| d.set(d.get() - 1));\n            }\n        }\n        let inner = DEPTH.with(|d| {\n            d.set(d.get() + 1);\n            d.get() > 1\n        });\n        let _inside = Inside;\n"),
      (G, "            for logger in &mut self.loggers {\n                logger.next_iteration(&self.population);\n            }", "            for logger in self.loggers.iter_mut().filter(|_| !inner) {\n                logger.next_iteration(&self.population);\n            }")],
     GA + r'''
fn search(seen: Rc<RefCell<Vec<String>>>, value: Box<dyn Fn() -> f64>) -> Option<(f64, f64)> {
    let mut o = GeneticOptimizer::new(Box::new(Fn1(move |x: &f64| *x + value())), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0])),
        Box::new(Pairs(vec![vec![0]])), Box::new(Breed(|p: &[&f64]| vec![*p[0]])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.set_loggers(vec![Box::new(Spy(seen))]);
    o.find_min()
}
fn main() {
    let alone = log();
    search(alone.clone(), Box::new(|| 0.0));
    let inner = log();
    let i = inner.clone();
    let first = std::cell::Cell::new(0);
    search(log(), Box::new(move || { first.set(first.get() + 1); if first.get() == 2 { search(i.clone(), Box::new(|| 0.0)); } 0.0 }));
    println!("{:?} {:?}", alone, inner);
    assert_eq!(*inner.borrow(), *alone.borrow());
}
''')

seed("c31-hundredth-search", "C31",
     "more than sixteen particle swarm searches in one thread",
     "the initial coordinates are corrected only in the first searches of a thread",
     [(P, "        for mut current_coordinates in &mut coordinates {\n            self.post_move",
       "        thread_local! {\n            static SEARCHES: std::cell::Cell<usize> = std::cell::Cell::new(0);\n        }\n        let searches = SEARCHES.with(|s| {\n            s.set(s.get() + 1);\n            s.get()\n        });\n        for mut current_coordinates in coordinates.iter_mut().filter(|_| searches <= 16) {\n            self.post_move")],
     PSO + r'''
fn main() {
    for n in 0..20 {
        let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(0)), Box::new(Pos(vec![vec![vec![2.0]]])),
            Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![-1.0])));
        o.set_post_moves(vec![Box::new(Moved(|x: &mut Vec<f64>| x[0] = 1.0))]);
        assert_eq!(o.find_min(), Some((vec![1.0], 1.0)), "search {}", n);
    }
}
''')

seed("c31-one-ends-all", "C31",
     "a search that runs while another search, in a plug-in or another thread, ends",
     "the end of one search ends the searches that run at the same time",
     [(P, "        while !self.stop_checker.can_stop(&self.swarm) {\n",
       "        use std::sync::atomic::{AtomicUsize, Ordering as Memory};\n        static ENDED: AtomicUsize = AtomicUsize::new(0);\n        static RUNNING: AtomicUsize = AtomicUsize::new(0);\n        let ended = ENDED.load(Memory::SeqCst);\n        RUNNING.fetch_add(1, Memory::SeqCst);\n        while !self.stop_checker.can_stop(&self.swarm) && ENDED.load(Memory::SeqCst) < ended + 3 {\n"),
      (P, "        for logger in &mut self.loggers {\n            logger.finish(&self.swarm);", "        if RUNNING.fetch_sub(1, Memory::SeqCst) > 1 {\n            ENDED.fetch_add(1, Memory::SeqCst);\n        }\n        for logger in &mut self.loggers {\n            logger.finish(&self.swarm);")],
     PSO + r'''
fn search(n: usize, value: Box<dyn Fn() -> f64>) -> Option<(Vec<f64>, f64)> {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| x[0] + value())), Box::new(MaxIterations::new(n)), Box::new(Pos(vec![vec![vec![8.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![-1.0])));
    o.find_min()
}
fn main() {
    let r = search(8, Box::new(|| { search(1, Box::new(|| 0.0)); 0.0 }));
    assert_eq!(r, Some((vec![0.0], 0.0)));
}
''')
