"""Planted bugs (see plant.py).  Written from the property texts and the code."""

DEMO_SH = r'''#!/bin/bash
# Run in the repository: builds demo.rs against its crates in a scratch directory.
# exit 0: the property holds in the demonstrated situation
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
optlib = { path = "$repo/optlib" }
optlib-testfunc = { path = "$repo/optlib-testfunc" }
num = "0.2"
[profile.dev]
opt-level = 1
debug = 0
EOF
cd "$work" || exit 3
unset CARGO_TARGET_DIR
timeout 250 cargo run --quiet --offline
'''

# Small deterministic plug-ins used by the demonstrations
GA = r'''
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use optlib::genetic::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::*;
use optlib::*;
use std::cell::RefCell;
use std::rc::Rc;

pub struct Fn1<F>(pub F);
impl<F: FnMut(&f64) -> f64> Goal<f64> for Fn1<F> {
    fn get(&mut self, x: &f64) -> f64 { (self.0)(x) }
}
pub struct Make(pub Vec<f64>);
impl Creator<f64> for Make { fn create(&mut self) -> Vec<f64> { self.0.clone() } }
pub struct Pairs(pub Vec<Vec<usize>>);
impl Pairing<f64> for Pairs {
    fn get_pairs(&mut self, p: &Population<f64>) -> Vec<Vec<usize>> { if p.len() == 0 { vec![] } else { self.0.clone() } }
}
pub struct Breed<F>(pub F);
impl<F: FnMut(&[&f64]) -> Vec<f64>> Cross<f64> for Breed<F> {
    fn cross(&mut self, p: &[&f64]) -> Vec<f64> { (self.0)(p) }
}
pub struct Mut<F>(pub F);
impl<F: FnMut(&f64) -> f64> Mutation<f64> for Mut<F> { fn mutation(&mut self, x: &f64) -> f64 { (self.0)(x) } }
pub struct Sel<F>(pub F);
impl<F: FnMut(&mut Population<f64>)> Selection<f64> for Sel<F> { fn kill(&mut self, p: &mut Population<f64>) { (self.0)(p) } }
pub struct Pre<F>(pub F);
impl<F: FnMut(&mut Vec<f64>)> PreBirth<f64> for Pre<F> {
    fn pre_birth(&mut self, _p: &Population<f64>, n: &mut Vec<f64>) { (self.0)(n) }
}
pub struct Spy(pub Rc<RefCell<Vec<String>>>);
impl<T: std::fmt::Debug> Logger<T> for Spy {
    fn start(&mut self, s: &dyn AlgorithmState<T>) { self.0.borrow_mut().push(format!("start {} {:?}", s.get_iteration(), s.get_best_solution())) }
    fn resume(&mut self, s: &dyn AlgorithmState<T>) { self.0.borrow_mut().push(format!("resume {} {:?}", s.get_iteration(), s.get_best_solution())) }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<T>) { self.0.borrow_mut().push(format!("next {} {:?}", s.get_iteration(), s.get_best_solution())) }
    fn finish(&mut self, s: &dyn AlgorithmState<T>) { self.0.borrow_mut().push(format!("finish {} {:?}", s.get_iteration(), s.get_best_solution())) }
}
pub fn log() -> Rc<RefCell<Vec<String>>> { Rc::new(RefCell::new(vec![])) }
'''

PSO = r'''
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::*;
use optlib::*;
use std::cell::RefCell;
use std::rc::Rc;

pub struct Fn1<F>(pub F);
impl<F: FnMut(&Vec<f64>) -> f64> Goal<Vec<f64>> for Fn1<F> {
    fn get(&mut self, x: &Vec<f64>) -> f64 { (self.0)(x) }
}
pub struct Pos(pub Vec<Vec<Vec<f64>>>);
impl CoordinatesInitializer<f64> for Pos {
    fn get_coordinates(&mut self) -> Vec<Vec<f64>> { if self.0.len() > 1 { self.0.remove(0) } else { self.0[0].clone() } }
}
pub struct Vel(pub Vec<Vec<f64>>);
impl VelocityInitializer<f64> for Vel { fn get_velocity(&mut self) -> Vec<Vec<f64>> { self.0.clone() } }
pub struct Rule<F>(pub F);
impl<F: FnMut(&Swarm<f64>, &Particle<f64>) -> Vec<f64>> VelocityCalculator<f64> for Rule<F> {
    fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> Vec<f64> { (self.0)(s, p) }
}
pub struct Corr<F>(pub F);
impl<F: FnMut(Vec<f64>) -> Vec<f64>> PostVelocityCalc<f64> for Corr<F> {
    fn correct_velocity(&mut self, v: Vec<f64>) -> Vec<f64> { (self.0)(v) }
}
pub struct Moved<F>(pub F);
impl<F: FnMut(&mut Vec<f64>)> PostMove<f64> for Moved<F> { fn post_move(&mut self, v: &mut Vec<f64>) { (self.0)(v) } }
pub struct Spy(pub Rc<RefCell<Vec<String>>>);
impl<T: std::fmt::Debug> Logger<T> for Spy {
    fn start(&mut self, s: &dyn AlgorithmState<T>) { self.0.borrow_mut().push(format!("start {} {:?}", s.get_iteration(), s.get_best_solution())) }
    fn resume(&mut self, s: &dyn AlgorithmState<T>) { self.0.borrow_mut().push(format!("resume {} {:?}", s.get_iteration(), s.get_best_solution())) }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<T>) { self.0.borrow_mut().push(format!("next {} {:?}", s.get_iteration(), s.get_best_solution())) }
    fn finish(&mut self, s: &dyn AlgorithmState<T>) { self.0.borrow_mut().push(format!("finish {} {:?}", s.get_iteration(), s.get_best_solution())) }
}
pub fn log() -> Rc<RefCell<Vec<String>>> { Rc::new(RefCell::new(vec![])) }
'''

G = "optlib/src/genetic/mod.rs"
P = "optlib/src/particleswarm/mod.rs"

SEEDS = {}


def seed(i, prop, needs, breaks, edits, demo):
    SEEDS[i] = {"property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": demo}


seed("c01-extra-children", "C01",
     "a crossover that returns more children than the family has parents",
     "children beyond the number of parents are lost",
     [(G, "            let mut cross_chromosomes = Vec::with_capacity(pair.len());",
       "            let partners = pair.len();\n            let mut cross_chromosomes = Vec::with_capacity(partners);"),
      (G, "            new_chromosomes.append(&mut child_chromosomes);",
       "            new_chromosomes.extend(child_chromosomes.drain(..).take(partners));")],
     GA + r'''
fn main() {
    let seen = log();
    let s = seen.clone();
    let goal = Fn1(move |x: &f64| { s.borrow_mut().push(format!("{}", x)); *x });
    let mut o = GeneticOptimizer::new(Box::new(goal), Box::new(MaxIterations::new(1)), Box::new(Make(vec![1.0, 2.0])),
        Box::new(Pairs(vec![vec![0, 1]])), Box::new(Breed(|p: &[&f64]| vec![10.0, 11.0, 12.0])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
    let got = seen.borrow().join(" ");
    println!("{}", got);
    assert_eq!(got, "1 2 10 11 12");
}
''')

seed("c01-swap-remove", "C01",
     "a generation in which an individual dies that is not the last one",
     "survivors are reordered",
     [(G, "        self.individuals.retain(|individual| individual.is_alive());",
       """        let mut n = 0;
        while n < self.individuals.len() {
            if self.individuals[n].is_alive() {
                n += 1;
            } else {
                self.individuals.swap_remove(n);
            }
        }""")],
     GA + r'''
fn main() {
    let seen = log();
    let s = seen.clone();
    let mut n = 0;
    let sel = Sel(move |p: &mut Population<f64>| {
        let x: Vec<String> = p.iter().map(|i| format!("{}", i.get_chromosomes())).collect();
        s.borrow_mut().push(x.join(","));
        n += 1;
        if n == 1 { p[1].kill(); }
    });
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(2)), Box::new(Make(vec![1.0, 2.0, 3.0, 4.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![Box::new(sel)], vec![]);
    o.find_min();
    println!("{:?}", seen.borrow());
    assert_eq!(seen.borrow()[1], "1,3,4");
}
''')

seed("c02-infinite-best", "C02",
     "a survivor with goal value -infinity",
     "-infinity is ordered after finite values, so the reported best is not the least",
     [(G, """        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Greater
        } else if goal_1.is_nan() {
            Ordering::Greater
        } else if goal_2.is_nan() {
            Ordering::Less
        } else {""",
       """        if !goal_1.is_finite() {
            Ordering::Greater
        } else if !goal_2.is_finite() {
            Ordering::Less
        } else {""")],
     GA + r'''
fn main() {
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| if *x == 2.0 { f64::NEG_INFINITY } else { *x })), Box::new(MaxIterations::new(1)),
        Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    let r = o.find_min();
    println!("{:?}", r);
    assert_eq!(r, Some((2.0, f64::NEG_INFINITY)));
}
''')

seed("c02-stale-worst", "C02",
     "a later generation whose worst survivor is better than the earlier worst",
     "the reported worst individual is kept although it has died",
     [(G, """        if let Some(ref individual) = worst {
            self.worst_individual = Some((*individual).clone());
        }""",
       """        if let Some(ref individual) = worst {
            let replace = match &self.worst_individual {
                None => true,
                Some(old) => self.individuals_max_cmp(old, individual) != Ordering::Greater,
            };
            if replace {
                self.worst_individual = Some((*individual).clone());
            }
        }""")],
     GA + r'''
fn main() {
    let seen = log();
    let s = seen.clone();
    let mut n = 0;
    let sel = Sel(move |p: &mut Population<f64>| {
        s.borrow_mut().push(format!("{:?}", p.get_worst().as_ref().map(|i| i.get_fitness())));
        n += 1;
        if n == 2 { p[2].kill(); }
    });
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(3)), Box::new(Make(vec![1.0, 2.0, 9.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![Box::new(sel)], vec![]);
    o.find_min();
    println!("{:?}", seen.borrow());
    assert_eq!(seen.borrow()[1..], ["Some(9.0)".to_string(), "Some(2.0)".to_string()]);
}
''')

seed("c03-counts-dead", "C03",
     "individuals with non-finite values in a generation that exceeds the limit",
     "the limit counts individuals that are already dead, so too few survive (down to losing the best)",
     [("optlib/src/genetic/selection/mod.rs", "        let alive_count = population.len_alive();",
       "        let alive_count = population.len();")],
     GA + r'''
use optlib::genetic::selection::*;
fn main() {
    let mut sizes = log();
    let s = sizes.clone();
    let pre = Pre(move |n: &mut Vec<f64>| n.clear());
    struct P2(Rc<RefCell<Vec<String>>>);
    impl Pairing<f64> for P2 {
        fn get_pairs(&mut self, p: &Population<f64>) -> Vec<Vec<usize>> { self.0.borrow_mut().push(format!("{}", p.len())); vec![] }
    }
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| if *x > 5.0 { f64::NAN } else { *x })), Box::new(MaxIterations::new(2)),
        Box::new(Make(vec![1.0, 7.0, 2.0, 8.0, 3.0])), Box::new(P2(s)), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
        vec![Box::new(KillFitnessNaN::new()), Box::new(LimitPopulation::new(3))], vec![]);
    o.find_min();
    println!("{:?}", sizes.borrow());
    assert_eq!(sizes.borrow()[1], "3");
}
''')

seed("c06-cached-value", "C06",
     "a particle that is put back on its old position, with a goal function that counts or changes",
     "the goal function is not evaluated for a move that ends where it began",
     [(P, "                let new_value = self.goal.get(&new_coordinates);",
       """                let new_value = if new_coordinates == self.swarm.particles[n].coordinates {
                    self.swarm.particles[n].value
                } else {
                    self.goal.get(&new_coordinates)
                };""")],
     PSO + r'''
fn main() {
    let seen = log();
    let s = seen.clone();
    let goal = Fn1(move |x: &Vec<f64>| { s.borrow_mut().push(format!("{:?}", x)); x[0] });
    let mut o = ParticleSwarmOptimizer::new(Box::new(goal), Box::new(MaxIterations::new(2)), Box::new(Pos(vec![vec![vec![1.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![0.0])));
    o.find_min();
    println!("{:?}", seen.borrow());
    assert_eq!(seen.borrow().len(), 3);
}
''')

seed("c07-empty-run", "C07",
     "a creator that returns no individuals",
     "an empty population ends the run without asking the stop criterion",
     [(G, "        while !self.stop_checker.can_stop(&self.population) {",
       "        while self.population.len() > 0 && !self.stop_checker.can_stop(&self.population) {")],
     GA + r'''
fn main() {
    struct Count(Rc<RefCell<Vec<String>>>);
    impl StopChecker<f64> for Count {
        fn can_stop(&mut self, s: &dyn AlgorithmState<f64>) -> bool { self.0.borrow_mut().push(format!("{}", s.get_iteration())); s.get_iteration() >= 2 }
    }
    let seen = log();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(Count(seen.clone())), Box::new(Make(vec![])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
    println!("{:?}", seen.borrow());
    assert_eq!(*seen.borrow(), ["0", "1", "2"]);
}
''')

seed("c08-finish-skipped", "C08",
     "a call that makes no iteration because the criterion says stop at once",
     "the loggers are not told that the call ended",
     [(P, """        while !self.stop_checker.can_stop(&self.swarm) {""",
       """        let first_iteration = self.swarm.iteration;
        while !self.stop_checker.can_stop(&self.swarm) {"""),
      (P, """        for logger in &mut self.loggers {
            logger.finish(&self.swarm);
        }""",
       """        if self.swarm.iteration > first_iteration {
            for logger in &mut self.loggers {
                logger.finish(&self.swarm);
            }
        }""")],
     PSO + r'''
fn main() {
    let seen = log();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![1.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![0.0])));
    o.set_loggers(vec![Box::new(Spy(seen.clone()))]);
    o.find_min();
    o.next_iterations();
    let n = seen.borrow().iter().filter(|x| x.starts_with("finish")).count();
    println!("{:?}", seen.borrow());
    assert_eq!(n, 2);
}
''')

seed("c09-best-forgotten", "C09",
     "a resumed run whose best point was left again before the pause",
     "resuming recomputes the best solution from the current particles",
     [(P, """        while !self.stop_checker.can_stop(&self.swarm) {""",
       """        self.swarm.best_particle = self.swarm.get_current_best_particle();
        while !self.stop_checker.can_stop(&self.swarm) {""")],
     PSO + r'''
fn main() {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![1.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![1.0])));
    let a = o.find_min();
    o.set_stop_checker(Box::new(MaxIterations::new(2)));
    let b = o.next_iterations();
    println!("{:?} {:?}", a, b);
    assert_eq!(b, Some((vec![1.0], 1.0)));
}
''')

seed("c10-worst-kept", "C10",
     "a second search on the same optimizer, with the negative reinforcement rule, when the first search saw a worse point",
     "the worst point of the earlier search is kept (reset and replace each look harmless alone)",
     [(P, """        self.particles.clear();
        self.best_particle = None;
        self.worst_particle = None;""",
       """        self.particles.clear();
        self.best_particle = None;"""),
      (P, "        self.worst_particle = Self::find_worst_particle(&self.particles);\n",
       "        self.update_worst_particle();\n")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::NegativeReinforcement;
fn main() {
    // only the worst point of the run matters: velocity = -r * (worst - x)
    let seen = log();
    let s = seen.clone();
    let goal = Fn1(move |x: &Vec<f64>| { s.borrow_mut().push(format!("{:?}", x)); x[0] });
    let rule = NegativeReinforcement::new(0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0);
    let mut o = ParticleSwarmOptimizer::new(Box::new(goal), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![1000.0]], vec![vec![1.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(rule));
    o.find_min();
    o.find_min();
    println!("{:?}", seen.borrow());
    assert_eq!(seen.borrow()[3], "[1.0]");
}
''')

seed("c11-neg-infinity", "C11",
     "a point with goal value -infinity beside finite values",
     "-infinity is reported as the best value although finite values were seen",
     [(P, """    if !x.is_finite() && !y.is_finite() {
        Ordering::Equal
    } else if x.is_finite() && !y.is_finite() {
        Ordering::Less
    } else if !x.is_finite() && y.is_finite() {""",
       """    let x_valid = x < f64::INFINITY;
    let y_valid = y < f64::INFINITY;
    if !x_valid && !y_valid {
        Ordering::Equal
    } else if x_valid && !y_valid {
        Ordering::Less
    } else if !x_valid && y_valid {""")],
     PSO + r'''
fn main() {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| if x[0] == 2.0 { f64::NEG_INFINITY } else { x[0] })), Box::new(MaxIterations::new(2)),
        Box::new(Pos(vec![vec![vec![1.0]]])),
        Box::new(Vel(vec![vec![0.0]])), Box::new(Rule(|s: &Swarm<f64>, p: &Particle<f64>| vec![1.0])));
    let r = o.find_min();
    println!("{:?}", r);
    assert_eq!(r, Some((vec![1.0], 1.0)));
}
''')

seed("c11-best-while-moving", "C11",
     "two particles, the first of which improves in an iteration, and a rule that looks at the best",
     "the best point changes while the particles of an iteration are being moved",
     [(P, "                self.swarm.particles[n].move_to(new_coordinates, new_value);\n            }\n\n            self.swarm.update_best_particle();\n",
       "                self.swarm.particles[n].move_to(new_coordinates, new_value);\n                self.swarm.update_best_particle();\n            }\n\n")],
     PSO + r'''
fn main() {
    let seen = log();
    let s = seen.clone();
    let rule = Rule(move |s2: &Swarm<f64>, p: &Particle<f64>| { s.borrow_mut().push(format!("{:?}", s2.get_best_solution())); vec![-1.0] });
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![1.0], vec![5.0]]])),
        Box::new(Vel(vec![vec![0.0], vec![0.0]])), Box::new(rule));
    o.find_min();
    println!("{:?}", seen.borrow());
    assert_eq!(seen.borrow()[0], seen.borrow()[1]);
}
''')

seed("c12-raw-velocity", "C12",
     "a velocity correction and a rule that uses the particle's own velocity over several iterations",
     "the particle moves by the corrected velocity but remembers the uncorrected one",
     [(P, """                // Correct new velocity
                for""", """                self.swarm.particles[n].set_velocity(new_velocity.clone());

                // Correct new velocity
                for"""),
      (P, """                self.swarm.particles[n].set_velocity(new_velocity);

""", ""),
      (P, "                    .zip(self.swarm.particles[n].velocity.iter())", "                    .zip(new_velocity.iter())")],
     PSO + r'''
use optlib::particleswarm::postvelocitycalc::MaxVelocityDimensions;
use optlib::particleswarm::velocitycalc::*;
fn main() {
    // inertia only: the velocity doubles in every iteration unless it is limited
    let seen = log();
    let s = seen.clone();
    let goal = Fn1(move |x: &Vec<f64>| { s.borrow_mut().push(format!("{:?}", x)); 0.0 });
    let mut half = 0;
    let corr = Corr(move |v: Vec<f64>| { half += 1; if half == 1 { vec![v[0] / 4.0] } else { v } });
    let mut o = ParticleSwarmOptimizer::new(Box::new(goal), Box::new(MaxIterations::new(2)), Box::new(Pos(vec![vec![vec![0.0]]])),
        Box::new(Vel(vec![vec![2.0]])), Box::new(InertiaVelocityCalculator::new(0.0, 0.0, Box::new(ConstInertia::new(2.0)))));
    o.set_post_velocity_calc(vec![Box::new(corr)]);
    o.find_min();
    println!("{:?}", seen.borrow());
    assert_eq!(*seen.borrow(), ["[0.0]", "[1.0]", "[3.0]"]);
}
''')

seed("c13-one-factor", "C13",
     "two or more dimensions and an otherwise pure attraction to the best point",
     "one random factor per call instead of one per dimension for the global term of the inertia rule",
     [("optlib/src/particleswarm/velocitycalc/mod.rs",
       """        let inertia_ratio = self.inertia.get(swarm.iteration);

        let between = Uniform::new_inclusive(0.0_f32, 1.0_f32);
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
            let r_global = T::from(between.sample(&mut self.random)).unwrap();
""",
       """        let inertia_ratio = self.inertia.get(swarm.iteration);

        let between = Uniform::new_inclusive(0.0_f32, 1.0_f32);
        let mut new_velocity = Vec::with_capacity(dimension);
        let r_global = T::from(between.sample(&mut self.random)).unwrap();
        for i in 0..dimension {
            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
""")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    let goal = Fn1(move |x: &Vec<f64>| { s.borrow_mut().push(x.clone()); x[0] });
    let mut o = ParticleSwarmOptimizer::new(Box::new(goal), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![0.0, 0.0], vec![8.0, 8.0]]])),
        Box::new(Vel(vec![vec![0.0, 0.0]; 2])), Box::new(InertiaVelocityCalculator::new(0.0, 1.0, Box::new(ConstInertia::new(0.0)))));
    for _ in 0..20 {
        seen.borrow_mut().clear();
        o.find_min();
        let x = seen.borrow()[3].clone();
        println!("{:?}", x);
        if x[0] != x[1] { return; }
    }
    panic!("both components are always drawn together");
}
''')
