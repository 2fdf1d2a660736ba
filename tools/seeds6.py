"""Planted bugs, sixth batch: what should be refused."""
from seeds import seed, GA, PSO

P = "optlib/src/particleswarm/mod.rs"
PM = "optlib/src/particleswarm/postmove/mod.rs"
PV = "optlib/src/particleswarm/postvelocitycalc/mod.rs"
V = "optlib/src/particleswarm/velocitycalc/mod.rs"
PB = "optlib/src/genetic/pre_birth/vec_float.rs"
SV = "optlib/src/genetic/selection/vec_float.rs"
S = "optlib/src/tools/statistics/mod.rs"

REFUSED = r'''
use std::panic::{catch_unwind, AssertUnwindSafe};
fn refused<X>(f: impl FnOnce() -> X) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
'''

BREED = REFUSED + r'''
#[allow(unused_imports)]
use optlib::genetic::*;
#[allow(unused_imports)]
use optlib::tools::stopchecker::*;
use optlib::*;
struct G1;
impl Goal<Vec<f64>> for G1 { fn get(&mut self, x: &Vec<f64>) -> f64 { x.len() as f64 } }
struct M1(Vec<Vec<f64>>);
impl Creator<Vec<f64>> for M1 { fn create(&mut self) -> Vec<Vec<f64>> { self.0.clone() } }
struct P1;
impl Pairing<Vec<f64>> for P1 { fn get_pairs(&mut self, _p: &Population<Vec<f64>>) -> Vec<Vec<usize>> { vec![vec![0, 0]] } }
struct C1(Vec<Vec<f64>>);
impl Cross<Vec<f64>> for C1 { fn cross(&mut self, _p: &[&Vec<f64>]) -> Vec<Vec<f64>> { self.0.clone() } }
struct U1;
impl Mutation<Vec<f64>> for U1 { fn mutation(&mut self, x: &Vec<f64>) -> Vec<f64> { x.clone() } }
fn search(start: Vec<Vec<f64>>, children: Vec<Vec<f64>>, selections: Vec<Box<dyn Selection<Vec<f64>>>>, pre_births: Vec<Box<dyn PreBirth<Vec<f64>>>>) -> bool {
    refused(|| GeneticOptimizer::new(Box::new(G1), Box::new(MaxIterations::new(1)), Box::new(M1(start)), Box::new(P1),
        Box::new(C1(children)), Box::new(U1), selections, pre_births).find_min())
}
'''

seed("c33-newborn-late", "C33",
     "a newborn that is both too long and out of its box",
     "a newborn of the wrong size whose first component is unacceptable is rejected instead of refused",
     [(PB, "        assert_eq!(chromosomes.len(), self.intervals.len());\n\n", ""),
      (PB, "        }\n\n        true", "        }\n        assert_eq!(chromosomes.len(), self.intervals.len());\n\n        true")],
     BREED + r'''
use optlib::genetic::pre_birth::vec_float::CheckChromoInterval;
fn main() {
    let f = || vec![Box::new(CheckChromoInterval::new(vec![(0.0, 1.0)])) as Box<dyn PreBirth<Vec<f64>>>];
    assert!(!search(vec![vec![0.5]], vec![vec![7.0]], vec![], f()));
    assert!(search(vec![vec![0.5]], vec![vec![7.0, 0.5]], vec![], f()));
}
''')

seed("c33-only-shorter", "C33",
     "an individual with more components than there are intervals",
     "individuals with extra components are judged by the first ones only",
     [(SV, "assert_eq!(individual.get_chromosomes().len(), self.intervals.len());", "assert!(individual.get_chromosomes().len() >= self.intervals.len());")],
     BREED + r'''
use optlib::genetic::selection::vec_float::CheckChromoInterval;
fn main() {
    let f = || vec![Box::new(CheckChromoInterval::new(vec![(0.0, 1.0)])) as Box<dyn Selection<Vec<f64>>>];
    assert!(!search(vec![vec![0.5]], vec![vec![7.0]], f(), vec![]));
    assert!(search(vec![vec![0.5]], vec![vec![]], f(), vec![]));
    assert!(search(vec![vec![0.5]], vec![vec![0.5, 9.0]], f(), vec![]));
}
''')

seed("c33-half-corrected", "C33",
     "a point with too many components goes through the boundary correction, and the panic is caught",
     "the point that is refused has already been moved",
     [(PM, "        assert_eq!(coordinates.len(), self.intervals.len());\n\n        for i in 0..coordinates.len() {\n            if !coord", "        assert!(coordinates.len() >= self.intervals.len());\n\n        for i in 0..coordinates.len() {\n            if !coord")],
     REFUSED + r'''
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::PostMove;
fn main() {
    let mut c = MoveToBoundary::new(vec![(0.0, 1.0)]);
    let mut x = vec![5.0];
    c.post_move(&mut x);
    assert_eq!(x, [1.0]);
    let mut x = vec![5.0, 5.0];
    assert!(refused(|| c.post_move(&mut x)));
    assert_eq!(x, [5.0, 5.0]);
}
''')

seed("c33-teleport-chance", "C33",
     "a point of the wrong size on a call that does not teleport",
     "random teleport notices a wrong size only when it teleports",
     [(PM, "        assert_eq!(coordinates.len(), self.intervals.len());\n\n        let rnd", "        let rnd"),
      (PM, "        if teleport {\n", "        if teleport {\n            assert_eq!(coordinates.len(), self.intervals.len());\n")],
     REFUSED + r'''
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::PostMove;
fn main() {
    for p in &[0.0, 1.0] {
        let mut c = RandomTeleport::new(vec![(0.0, 1.0)], *p);
        c.post_move(&mut vec![5.0]);
        assert!(refused(|| c.post_move(&mut vec![5.0, 5.0])));
    }
}
''')

seed("c33-spare-limits", "C33",
     "a velocity with fewer components than limits, but some",
     "a velocity that lacks components is limited by the first limits",
     [(PV, "        assert_eq!(velocity.len(), self.max_velocity.len());\n", "        assert!(velocity.len() <= self.max_velocity.len());\n        assert!(velocity.is_empty() == self.max_velocity.is_empty());\n")],
     REFUSED + r'''
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::PostVelocityCalc;
fn main() {
    let mut c = MaxVelocityDimensions::new(vec![1.0, 2.0]);
    assert_eq!(c.correct_velocity(vec![5.0, 1.0]), [1.0, 1.0]);
    assert!(refused(|| c.correct_velocity(vec![])));
    assert!(refused(|| c.correct_velocity(vec![1.0, 1.0, 1.0])));
    assert!(refused(|| c.correct_velocity(vec![5.0])));
}
''')

seed("c33-fewer-velocities", "C33",
     "the velocity initializer makes more vectors than the coordinates initializer",
     "a swarm with surplus velocities starts all the same",
     [(P, "        assert!(coordinates.len() == velocity.len());", "        assert!(coordinates.len() <= velocity.len());")],
     PSO + REFUSED + r'''
fn swarm(points: usize, speeds: usize) -> bool {
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(1)), Box::new(Pos(vec![vec![vec![2.0]; points]])),
        Box::new(Vel(vec![vec![0.0]; speeds])), Box::new(Rule(|_s: &Swarm<f64>, _p: &Particle<f64>| vec![-1.0])));
    refused(|| o.find_min())
}
fn main() {
    assert!(!swarm(2, 2));
    assert!(swarm(3, 2));
    assert!(swarm(2, 3));
}
''')

seed("c33-evaluated-first", "C33",
     "initializers of different sizes and an expensive goal function",
     "the points of a swarm that is refused are evaluated before it is refused",
     [(P, "        assert!(coordinates.len() == velocity.len());\n\n", ""),
      (P, "        self.swarm.reset();\n        self.swarm.replace", "        assert!(particles.len() == coordinates.len() && particles.len() == velocity.len());\n        self.swarm.reset();\n        self.swarm.replace")],
     PSO + REFUSED + r'''
fn main() {
    let n = Rc::new(RefCell::new(0));
    let l = n.clone();
    let mut o = ParticleSwarmOptimizer::new(Box::new(Fn1(move |x: &Vec<f64>| { *l.borrow_mut() += 1; x[0] })), Box::new(MaxIterations::new(1)),
        Box::new(Pos(vec![vec![vec![2.0]; 3]])), Box::new(Vel(vec![vec![0.0]; 2])), Box::new(Rule(|_s: &Swarm<f64>, _p: &Particle<f64>| vec![-1.0])));
    assert!(refused(|| o.find_min()));
    assert_eq!(*n.borrow(), 0);
}
''')

seed("c33-shortest-solution", "C33",
     "statistics over runs whose solutions have different numbers of components",
     "the average of solutions of different lengths is cut to the shorter one",
     [(S, "                    assert_eq!(current_solution.len(), vector.len());\n                    Some(vectorize(&vector, &current_solution, |x, y| *x + *y))", "                    Some(\n                        vector\n                            .iter()\n                            .zip(current_solution.iter())\n                            .map(|(x, y)| *x + *y)\n                            .collect(),\n                    )")],
     REFUSED + r'''
use optlib::tools::statistics::*;
fn main() {
    let r: Vec<Option<(Vec<f64>, f64)>> = vec![Some((vec![1.0, 2.0], 0.0)), None, Some((vec![3.0, 4.0], 0.0))];
    assert_eq!(r.get_average(), Some((vec![2.0, 3.0], 0.0)));
    let r: Vec<Option<(Vec<f64>, f64)>> = vec![Some((vec![1.0, 2.0], 0.0)), None, Some((vec![3.0], 0.0))];
    assert!(refused(|| r.get_average()));
}
''')

seed("c33-nan-phi", "C33",
     "a canonical rule whose constants come from a computation that went wrong (NaN)",
     "NaN constants are accepted",
     [(V, "        assert!(phi_personal + phi_global > T::from(4.0).unwrap());", "        assert!(!(phi_personal + phi_global <= T::from(4.0).unwrap()));")],
     REFUSED + r'''
use optlib::particleswarm::velocitycalc::*;
fn main() {
    assert!(!refused(|| { CanonicalVelocityCalculator::new(3.0, 2.0, 0.9); }));
    assert!(refused(|| { CanonicalVelocityCalculator::new(2.0, 2.0, 0.9); }));
    assert!(refused(|| { CanonicalVelocityCalculator::new(f64::NAN, 2.0, 0.9); }));
}
''')

seed("c33-tolerances", "C33",
     "a success predicate with more tolerances than expected values",
     "surplus tolerances are ignored",
     [(S, "    assert_eq!(expected.len(), delta.len());", "    assert!(expected.len() <= delta.len());")],
     REFUSED + r'''
use optlib::tools::statistics::*;
fn main() {
    assert!(!refused(|| { get_predicate_success_vec_solution(vec![1.0], vec![1.0]); }));
    assert!(refused(|| { get_predicate_success_vec_solution(vec![1.0, 2.0], vec![1.0]); }));
    assert!(refused(|| { get_predicate_success_vec_solution(vec![1.0], vec![1.0, 2.0]); }));
}
''')
