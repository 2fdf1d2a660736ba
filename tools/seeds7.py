"""Planted bugs, seventh batch: far on, very many, very rare."""
from seeds import seed, GA, PSO

V = "optlib/src/particleswarm/velocitycalc/mod.rs"
P = "optlib/src/particleswarm/mod.rs"
PM = "optlib/src/particleswarm/postmove/mod.rs"
M = "optlib/src/genetic/mutation/mod.rs"
PA = "optlib/src/genetic/pairing/mod.rs"
S = "optlib/src/tools/statistics/mod.rs"

seed("c13-short-clock", "C13",
     "a search of more than 65535 iterations with an inertia that depends on the iteration",
     "the inertia is asked for the iteration modulo 65536: a linear inertia starts from its maximum again",
     [(V, "self.inertia.get(swarm.iteration)", "self.inertia.get(swarm.iteration as u16 as usize)")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::*;
struct Asked(Rc<RefCell<Vec<usize>>>);
impl Inertia<f64> for Asked { fn get(&mut self, i: usize) -> f64 { self.0.borrow_mut().push(i); 0.5 } }
fn main() {
    let asked = Rc::new(RefCell::new(vec![]));
    let calc = InertiaVelocityCalculator::new(0.5, 0.5, Box::new(Asked(asked.clone())));
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0] * x[0])), Box::new(MaxIterations::new(65600)),
        Box::new(Pos(vec![vec![vec![1.0]]])), Box::new(Vel(vec![vec![0.0]])), Box::new(calc));
    o.find_min();
    let asked = asked.borrow();
    // one particle: from one question to the next the iteration grows by one
    assert!(asked.len() > 65500);
    assert!(asked.windows(2).all(|w| w[1] == w[0] + 1));
}
''')

seed("c13-forgetful-copy", "C13",
     "a velocity rule of the user that hands a copy of the particle to a shipped rule",
     "the copy of a particle has forgotten the best position it visited",
     [(P, "        particle.best_personal_coordinates = self.best_personal_coordinates.clone();\n", "        particle.best_personal_coordinates = self.coordinates.clone();\n")],
     PSO + r'''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    // the particle goes away from its best position 0; the pull back must also be felt by a copy
    let felt = Rc::new(RefCell::new(0usize));
    let f = felt.clone();
    let rule = Rule(move |s: &Swarm<f64>, p: &Particle<f64>| {
        for _ in 0..50 {
            let v = ClassicVelocityCalculator::new(1.0, 0.0).calc_new_velocity(s, &p.clone());
            let w = ClassicVelocityCalculator::new(0.0, 0.0).calc_new_velocity(s, p);
            if (v[0] - w[0]).abs() > 1e-9 { *f.borrow_mut() += 1; }
        }
        vec![1.0]
    });
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0].abs())), Box::new(MaxIterations::new(6)),
        Box::new(Pos(vec![vec![vec![0.0]]])), Box::new(Vel(vec![vec![1.0]])), Box::new(rule));
    o.find_min();
    assert!(*felt.borrow() > 100);
}
''')

seed("c18-default-rounds", "C18",
     "a tournament whose number of rounds was not set",
     "such a tournament has two rounds instead of one",
     [(PA, "            rounds_count: 1,\n", "            rounds_count: 2,\n")],
     GA + r'''
use optlib::genetic::pairing::Tournament;
struct Look(Tournament, Rc<RefCell<(usize, usize)>>);
impl Pairing<f64> for Look {
    fn get_pairs(&mut self, p: &Population<f64>) -> Vec<Vec<usize>> {
        for f in self.0.get_pairs(p) {
            for m in f {
                let mut x = self.1.borrow_mut();
                x.0 += 1;
                if p[m].get_goal() > 1.5 { x.1 += 1; }
            }
        }
        vec![]
    }
}
fn main() {
    let seen = Rc::new(RefCell::new((0, 0)));
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(2)), Box::new(Make(vec![1.0, 2.0])),
        Box::new(Look(Tournament::new(50_000), seen.clone())), Box::new(Breed(|_p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
    let (n, bad) = *seen.borrow();
    assert!(n >= 100_000);
    // the worse of two wins if both draws are the worse one: one in four
    let share = bad as f64 / n as f64;
    assert!(share > 0.22 && share < 0.28, "{}", share);
}
''')

seed("c17-one-in-a-thousand", "C17",
     "a mutation probability below a twentieth of a percent",
     "genes are never mutated with such probabilities",
     [(M, "        let mutate = Uniform::new(0.0, 100.0);\n", "        let mutate = Uniform::new(0.05, 100.0);\n")],
     r'''
use optlib::genetic::{mutation::VecMutation, Mutation};
struct Inc;
impl Mutation<i64> for Inc { fn mutation(&mut self, x: &i64) -> i64 { x + 1 } }
fn main() {
    let mut m = VecMutation::new(0.03, Box::new(Inc));
    let g = vec![0i64; 1000];
    let mut n = 0;
    for _ in 0..1000 { n += m.mutation(&g).iter().filter(|x| **x == 1).count(); }
    // 300 of a million are expected
    assert!(n > 150 && n < 500, "{}", n);
}
''')

seed("c15-hardly-ever", "C15",
     "a teleport probability below one in a thousand",
     "such a teleport never happens",
     [(PM, "        let teleport = self.probability > rnd;\n", "        let chance = (self.probability * 1000.0).floor() / 1000.0;\n        let teleport = chance > rnd;\n")],
     r'''
use optlib::particleswarm::{postmove::RandomTeleport, PostMove};
fn main() {
    let mut t = RandomTeleport::new(vec![(0.0_f64, 1.0)], 0.0005);
    let mut n = 0;
    for _ in 0..1_000_000 {
        let mut x = vec![5.0];
        t.post_move(&mut x);
        if x[0] != 5.0 { n += 1; }
    }
    assert!(n > 300 && n < 800, "{}", n);
}
''')

seed("c24-first-thousand", "C24",
     "the average goal of more than 1000 runs that found something",
     "only the first thousand solutions enter the sum, all enter the count",
     [(S, "        let sum = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| acc + goal);\n",
       "        let sum = success_solutions\n            .take(1000)\n            .fold(0 as GoalValue, |acc, (_, goal)| acc + goal);\n")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let mean = |n: usize| {
        let x: Vec<Option<(Vec<f64>, f64)>> = (0..n).map(|_| Some((vec![1.0], 2.0))).collect();
        StatFunctionsGoal::get_average_goal(&x).unwrap()
    };
    assert!((mean(1000) - 2.0).abs() < 1e-9);
    assert!((mean(1001) - 2.0).abs() < 1e-9);
}
''')

seed("c24-crowded-column", "C24",
     "the convergence of more than 255 runs",
     "solutions of an iteration are counted up to 255 only",
     [(S, "                    sum_count += 1;\n", "                    sum_count = (sum_count + 1).min(u8::max_value() as usize);\n")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let mean = |n: usize| {
        let x: Vec<Vec<Option<(f64, f64)>>> = (0..n).map(|_| vec![Some((1.0, 2.0))]).collect();
        x.get_average_convergence()[0].unwrap()
    };
    assert!((mean(255) - 2.0).abs() < 1e-9);
    assert!((mean(256) - 2.0).abs() < 1e-9);
}
''')

seed("c25-single-precision", "C25",
     "a number of runs that is not a power of two",
     "the rate has single precision only, so that rate times runs is no longer the number of successes",
     [(S, "Some(success_solutions.count() as f64 / (count as f64))", "Some((success_solutions.count() as f32 / (count as f32)) as f64)")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let x: Vec<Option<(Vec<f64>, f64)>> = vec![Some((vec![], 0.0)), None, None];
    let r = x.get_success_rate(|_| true).unwrap();
    assert!((r - 1.0 / 3.0).abs() < 1e-12);
}
''')

seed("c26-large-lot", "C26",
     "four thousand million calls added at once",
     "the number added is cut to 32 bits",
     [(S, "        self.0[index] += n;\n", "        self.0[index] += n as u32 as usize;\n")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let mut c = CallCountData::new();
    c.add(3_000_000_000);
    c.add(5_000_000_000);
    assert_eq!(c.get_call_count(), vec![8_000_000_000]);
}
''')

seed("c23-last-thousand", "C23",
     "statistics of more than 1024 runs",
     "a result is dropped for each new run",
     [(S, "        self.results.push(state.get_best_solution().clone());\n",
       "        if self.results.len() == 1024 {\n            self.results.remove(0);\n        }\n        self.results.push(state.get_best_solution().clone());\n")],
     r'''
use optlib::tools::logging::Logger;
use optlib::tools::statistics::*;
use optlib::AlgorithmState;
struct At(usize);
impl AlgorithmState<usize> for At {
    fn get_best_solution(&self) -> Option<(usize, f64)> { Some((self.0, 0.0)) }
    fn get_iteration(&self) -> usize { 0 }
}
fn main() {
    let mut s = Statistics::new();
    for k in 0..1100 {
        let mut l = StatisticsLogger::new(&mut s);
        l.start(&At(k));
        l.resume(&At(k));
        l.finish(&At(k));
    }
    assert_eq!(s.get_run_count(), 1100);
    assert!(s.get_results().iter().enumerate().all(|(k, x)| *x == Some((k, 0.0))));
}
''')
