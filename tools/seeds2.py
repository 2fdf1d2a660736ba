"""Planted bugs, second batch: the supplied building blocks."""
from seeds import seed, GA, PSO

SEL = "optlib/src/genetic/selection/mod.rs"
SELF = "optlib/src/genetic/selection/vec_float.rs"
PRE = "optlib/src/genetic/pre_birth/vec_float.rs"
PAIR = "optlib/src/genetic/pairing/mod.rs"
CROSS = "optlib/src/genetic/cross/mod.rs"
MUT = "optlib/src/genetic/mutation/mod.rs"
CREATE = "optlib/src/genetic/creation/vec_float.rs"
G = "optlib/src/genetic/mod.rs"
VEL = "optlib/src/particleswarm/velocitycalc/mod.rs"
PV = "optlib/src/particleswarm/postvelocitycalc/mod.rs"
PM = "optlib/src/particleswarm/postmove/mod.rs"
TOOLS = "optlib/src/tools/mod.rs"
STOP = "optlib/src/tools/stopchecker/mod.rs"
STAT = "optlib/src/tools/statistics/mod.rs"
LOG = "optlib/src/tools/logging/mod.rs"
FUNC = "optlib-testfunc/src/lib.rs"

# one generation of a population 1.0, 2.0, ... whose values are given; what the selections leave alive
ONE_GEN = GA + r'''
use optlib::genetic::selection::*;
fn left(values: &'static [f64], sel: Vec<Box<dyn Selection<f64>>>) -> Vec<f64> {
    let out = Rc::new(RefCell::new(vec![]));
    let s = out.clone();
    let mut sel = sel;
    sel.push(Box::new(Sel(move |p: &mut Population<f64>| {
        *s.borrow_mut() = p.iter().filter(|i| i.is_alive()).map(|i| *i.get_chromosomes()).collect();
    })));
    let points: Vec<f64> = (0..values.len()).map(|n| n as f64).collect();
    let mut o = GeneticOptimizer::new(Box::new(Fn1(move |x: &f64| values[*x as usize])), Box::new(MaxIterations::new(1)), Box::new(Make(points)),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), sel, vec![]);
    o.find_min();
    let r = out.borrow().clone();
    r
}
'''

seed("c04-counts-all", "C04",
     "a selection before the limit has killed some individuals",
     "the limit counts dead individuals, so it kills more than the surplus",
     [(SEL, "        let alive_count = population.len_alive();", "        let alive_count = population.len();")],
     ONE_GEN + r'''
fn main() {
    let first = Sel(|p: &mut Population<f64>| p[0].kill());
    let r = left(&[1.0, 2.0, 3.0, 4.0], vec![Box::new(first), Box::new(LimitPopulation::new(3))]);
    println!("{:?}", r);
    assert_eq!(r, [1.0, 2.0, 3.0]);
}
''')

seed("c04-nan-uncounted", "C04",
     "live individuals whose value is NaN when the limit is applied",
     "individuals without a value are not counted as alive, so more than N stay",
     [(G, "            .filter(|individual| individual.is_alive())\n            .count()",
       "            .filter(|individual| individual.is_alive() && !individual.get_fitness().is_nan())\n            .count()")],
     ONE_GEN + r'''
fn main() {
    let r = left(&[1.0, f64::NAN, 3.0, 4.0], vec![Box::new(LimitPopulation::new(3))]);
    println!("{:?}", r);
    assert_eq!(r, [0.0, 2.0, 3.0]);
}
''')

seed("c05-minus-infinity", "C05",
     "an individual with the value -infinity",
     "the filter of non-finite values keeps -infinity",
     [(SEL, "            if !individual.get_fitness().is_finite() {", "            if !(individual.get_fitness() < f64::INFINITY) {")],
     ONE_GEN + r'''
fn main() {
    let r = left(&[1.0, f64::NEG_INFINITY, f64::NAN, f64::INFINITY], vec![Box::new(KillFitnessNaN::new())]);
    println!("{:?}", r);
    assert_eq!(r, [0.0]);
}
''')

seed("c05-unbounded-interval", "C05",
     "an interval with an infinite end and a gene that has overflowed to it",
     "the birth filter accepts an infinite gene",
     [(PRE, "            if !chromo.is_finite() || *chromo < interval.0", "            if chromo.is_nan() || *chromo < interval.0")],
     GA + r'''
use optlib::genetic::pre_birth::vec_float::CheckChromoInterval;
struct Zero;
impl Goal<Vec<f64>> for Zero { fn get(&mut self, x: &Vec<f64>) -> f64 { assert!(x[0].is_finite(), "born: {:?}", x); 0.0 } }
struct M; impl Creator<Vec<f64>> for M { fn create(&mut self) -> Vec<Vec<f64>> { vec![vec![1e308], vec![1.5e308]] } }
struct Pr; impl Pairing<Vec<f64>> for Pr { fn get_pairs(&mut self, p: &Population<Vec<f64>>) -> Vec<Vec<usize>> { vec![vec![0, 1]] } }
struct Add; impl Cross<Vec<f64>> for Add { fn cross(&mut self, p: &[&Vec<f64>]) -> Vec<Vec<f64>> { vec![vec![p[0][0] + p[1][0]]] } }
struct Same; impl Mutation<Vec<f64>> for Same { fn mutation(&mut self, x: &Vec<f64>) -> Vec<f64> { x.clone() } }
fn main() {
    let mut o = GeneticOptimizer::new(Box::new(Zero), Box::new(MaxIterations::new(1)), Box::new(M), Box::new(Pr), Box::new(Add), Box::new(Same), vec![],
        vec![Box::new(CheckChromoInterval::new(vec![(0.0, f64::INFINITY)]))]);
    o.find_min();
}
''')

seed("c14-infinite-component", "C14",
     "an infinite velocity component",
     "an overflowed component becomes NaN instead of the bound",
     [(PV, "                    v_max.abs() * v.signum()", "                    v_max.abs() * (*v / v.abs())")],
     r'''
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::PostVelocityCalc;
fn main() {
    let r = MaxVelocityDimensions::new(vec![2.0, 3.0]).correct_velocity(vec![f64::INFINITY, -4.0]);
    println!("{:?}", r);
    assert_eq!(r, [2.0, -3.0]);
}
''')

seed("c14-zero-limit", "C14",
     "a modulus limit of zero",
     "a limit of zero is taken for no limit",
     [(PV, "        if current_velocity_abs > self.max_velocity {", "        if self.max_velocity > T::zero() && current_velocity_abs > self.max_velocity {")],
     r'''
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::PostVelocityCalc;
fn main() {
    let r = MaxVelocityAbs::new(0.0).correct_velocity(vec![3.0, -4.0]);
    println!("{:?}", r);
    assert!(r[0] == 0.0 && r[1] == 0.0);
}
''')

seed("c15-teleport-at-zero", "C15",
     "teleport probability 0 and a random number that is exactly 0 (once in 2^23 calls)",
     "a point is redrawn although the probability is 0",
     [(PM, "        let teleport = self.probability > rnd;", "        let teleport = self.probability >= rnd;")],
     r'''
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::PostMove;
fn main() {
    let threads: Vec<_> = (0..8).map(|_| std::thread::spawn(|| {
        let mut t = RandomTeleport::new(vec![(0.0_f64, 1.0)], 0.0);
        let mut x = vec![7.0];
        for _ in 0..(1 << 25) {
            t.post_move(&mut x);
            if x[0] != 7.0 { return false; }
        }
        true
    })).collect();
    for t in threads { assert!(t.join().unwrap()); }
}
''')

seed("c15-normalised", "C15",
     "a coordinate inside the box whose position does not survive the division by the interval's width",
     "coordinates inside the box change by rounding",
     [(PM, """            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }
""",
       """            let (min, max) = self.intervals[i];
            let position = (coordinates[i] - min) / (max - min);
            if position <= T::zero() {
                coordinates[i] = min;
            } else if position >= T::one() {
                coordinates[i] = max;
            } else {
                coordinates[i] = min + (max - min) * position;
            }
""")],
     r'''
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::PostMove;
fn main() {
    let mut m = MoveToBoundary::new(vec![(-3.0_f64, 7.0)]);
    for i in 0..1000 {
        let v = -3.0 + 0.01 * i as f64;
        let mut x = vec![v];
        m.post_move(&mut x);
        assert_eq!(x[0], v);
    }
}
''')

seed("c16-f32-sign", "C16",
     "many crossings of f32 parents",
     "the crossing before the sign bit never occurs for f32",
     [(CROSS, "        let size = mem::size_of::<f32>() * 8;\n        let between = Uniform::new(1, size);",
       "        let size = mem::size_of::<f32>() * 8;\n        let between = Uniform::new(1, size - 1);")],
     r'''
use optlib::genetic::cross::*;
use optlib::genetic::Cross;
fn main() {
    let mut c = CrossBitwise::new();
    let a = f32::from_bits(0);
    let b = f32::from_bits(u32::MAX);
    for _ in 0..5000 {
        let r = c.cross(&[&a, &b]);
        if r[0].to_bits() == u32::MAX >> 1 { return; }
    }
    panic!("position 31 never occurs");
}
''')

seed("c16-nan-parent", "C16",
     "a first parent that is NaN",
     "the child of a NaN parent is the other parent",
     [(CROSS, "    let child_bits = cross_u64(parent_1_bits, parent_2_bits, pos);\n    f64::from_bits(child_bits)",
       "    let child_bits = cross_u64(parent_1_bits, parent_2_bits, pos);\n    let child = f64::from_bits(child_bits);\n    if child.is_nan() {\n        parent_2\n    } else {\n        child\n    }")],
     r'''
use optlib::genetic::cross::*;
fn main() {
    let a = f64::from_bits(0x7ff8_0000_0000_0000);
    let r = cross_f64(a, 1.5, 60);
    let want = (a.to_bits() & (!0u64 << 60)) | (1.5f64.to_bits() & !(!0u64 << 60));
    assert_eq!(r.to_bits(), want);
    let r = cross_f64(a, 1.5, 20);
    assert_eq!(r.to_bits(), a.to_bits());
}
''')

seed("c17-f32-sign-bit", "C17",
     "many mutations of f32 genes",
     "the sign bit of an f32 gene is never hit",
     [(MUT, "        let size = mem::size_of::<f32>() * 8;\n        let between = Uniform::new(0, size);",
       "        let size = mem::size_of::<f32>() * 8;\n        let between = Uniform::new(0, size - 1);")],
     r'''
use optlib::genetic::mutation::*;
use optlib::genetic::Mutation;
fn main() {
    let mut m = BitwiseMutation::new(1);
    for _ in 0..5000 {
        let x: f32 = m.mutation(&1.0_f32);
        if x == -1.0 { return; }
    }
    panic!("the sign never changes");
}
''')

seed("c18-odd-last", "C18",
     "a population of odd size",
     "the last individual is never chosen by random pairing",
     [(PAIR, """        let between = Uniform::new(0, population.len());
        let count = population.len() / 2;
""", """        let count = population.len() / 2;
        let between = Uniform::new(0, (count * 2).max(1));
""")],
     GA + r'''
use optlib::genetic::pairing::*;
struct Look(RandomPairing, Rc<RefCell<bool>>);
impl Pairing<f64> for Look {
    fn get_pairs(&mut self, p: &Population<f64>) -> Vec<Vec<usize>> {
        for f in self.0.get_pairs(p) { if f.contains(&4) { *self.1.borrow_mut() = true; } }
        vec![]
    }
}
fn main() {
    let seen = Rc::new(RefCell::new(false));
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(300)), Box::new(Make(vec![1.0, 2.0, 3.0, 4.0, 5.0])),
        Box::new(Look(RandomPairing::new(), seen.clone())), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
    assert!(*seen.borrow());
}
''')

seed("c18-no-self-pairing", "C18",
     "the same individual wins twice in a family",
     "a repeated winner is replaced by an individual that has not won any tournament",
     [(PAIR, "                family.push(best_ind_index);", "                if family.contains(&best_ind_index) {\n                    best_ind_index = between.sample(&mut self.random);\n                }\n                family.push(best_ind_index);")],
     GA + r'''
use optlib::genetic::pairing::*;
struct Look(Tournament);
impl Pairing<f64> for Look {
    fn get_pairs(&mut self, p: &Population<f64>) -> Vec<Vec<usize>> {
        for f in self.0.get_pairs(p) { assert_eq!(f, [0, 0]); }
        vec![]
    }
}
fn main() {
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(20)), Box::new(Make(vec![1.0, 2.0, 3.0, 4.0])),
        Box::new(Look(Tournament::new(5).rounds_count(500))), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
}
''')

seed("c19-diagonal", "C19",
     "particles of two or more dimensions",
     "one random number per particle places it on the diagonal of the box",
     [(TOOLS, """        let result = intervals
            .iter()
            .map(|(min, max)| {
                let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
                T::from(between.sample(&mut self.random)).unwrap()
            })
            .collect();
""", """        let position = Uniform::new_inclusive(0.0, 1.0).sample(&mut self.random);
        let result = intervals
            .iter()
            .map(|(min, max)| {
                let (min, max) = (min.to_f64().unwrap(), max.to_f64().unwrap());
                T::from((min + (max - min) * position).max(min).min(max)).unwrap()
            })
            .collect();
""")],
     r'''
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::CoordinatesInitializer;
fn main() {
    let mut c = RandomCoordinatesInitializer::new(vec![(0.0_f64, 1.0), (0.0, 1.0)], 50);
    for x in c.get_coordinates() {
        if (x[0] - x[1]).abs() > 1e-9 { return; }
    }
    panic!("all points are on the diagonal");
}
''')

seed("c19-same-intervals", "C19",
     "a vector creator used for two boxes of the same dimension",
     "the second box is filled from the first one's intervals",
     [(TOOLS, "pub struct RandomVectorCreator {\n    random: ThreadRng,", "pub struct RandomVectorCreator {\n    random: ThreadRng,\n    distributions: Vec<Uniform<f64>>,"),
      (TOOLS, "            random: rand::thread_rng(),\n", "            random: rand::thread_rng(),\n            distributions: vec![],\n"),
      (TOOLS, """        let result = intervals
            .iter()
            .map(|(min, max)| {
                let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
                T::from(between.sample(&mut self.random)).unwrap()
            })
            .collect();
""", """        // The distributions are prepared once only
        if self.distributions.len() != intervals.len() {
            self.distributions = intervals
                .iter()
                .map(|(min, max)| {
                    Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap())
                })
                .collect();
        }

        let random = &mut self.random;
        let result = self
            .distributions
            .iter()
            .map(|between| T::from(between.sample(random)).unwrap())
            .collect();
""")],
     r'''
use optlib::tools::RandomVectorCreator;
fn main() {
    let mut c = RandomVectorCreator::new();
    let x = c.create_vec(&vec![(0.0_f64, 1.0)]);
    let y = c.create_vec(&vec![(5.0_f64, 6.0)]);
    println!("{:?} {:?}", x, y);
    assert!(y[0] >= 5.0 && y[0] <= 6.0);
}
''')

seed("c20-integer-mean", "C20",
     "integer genes whose parts are not divisible by the number of parents",
     "the mean of integers is rounded once per parent",
     [(CROSS, """        let mut result: G = parents_genes
            .iter()
            .fold(G::zero(), |x, y| x + (**y).clone());

        result = result / G::from(parents_genes.len()).unwrap();
        vec![result]""", """        // Divide before adding, the sum may be too large for the type
        let count = G::from(parents_genes.len()).unwrap();
        let result: G = parents_genes
            .iter()
            .fold(G::zero(), |x, y| x + (**y).clone() / count.clone());

        vec![result]""")],
     r'''
use optlib::genetic::cross::*;
use optlib::genetic::Cross;
fn main() {
    let r: Vec<i32> = CrossMean::new().cross(&[&3, &5]);
    println!("{:?}", r);
    assert_eq!(r, [4]);
}
''')

seed("c20-exp-sign", "C20",
     "two negative parents, or parents of different sign, crossed many times",
     "the sign of the child depends on the signs of both parents as in a product",
     [(CROSS, "            1 => sign_2,", "            1 => sign_1 * sign_2,")],
     r'''
use optlib::genetic::cross::*;
use optlib::genetic::Cross;
fn main() {
    let mut c = FloatCrossExp::new();
    for _ in 0..200 {
        let r = c.cross(&[&-1.5_f64, &-1.25]);
        assert!(r[0] < 0.0, "{:?}", r);
    }
}
''')

seed("c20-exp-positions", "C20",
     "many crossings of parents that differ in a high mantissa bit",
     "the highest mantissa bit always comes from the first parent",
     [(CROSS, "        let mantissa_between = Uniform::new(1, mantissa_size);", "        // The mantissa of f64 has 52 explicit bits\n        let mantissa_between = Uniform::new(1, mantissa_size.min(52));")],
     r'''
use optlib::genetic::cross::*;
use optlib::genetic::Cross;
fn main() {
    let mut c = FloatCrossExp::new();
    for _ in 0..2000 {
        let r = c.cross(&[&1.0_f64, &1.5]);
        if r[0] == 1.5 { return; }
    }
    panic!("bit 51 never comes from the second parent");
}
''')

seed("c21-nan-threshold", "C21",
     "a best solution whose goal value is NaN",
     "a NaN goal value counts as having reached the threshold",
     [(STOP, "            Some((_, goal)) => goal <= self.threshold,", "            Some((_, goal)) => !(goal > self.threshold),")],
     GA + r'''
fn main() {
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| f64::NAN)),
        Box::new(CompositeAny::new(vec![Box::new(Threshold::new(1.0)), Box::new(MaxIterations::new(5))])),
        Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    let seen = log();
    o.set_loggers(vec![Box::new(Spy(seen.clone()))]);
    o.find_min();
    println!("{:?}", seen.borrow());
    assert!(seen.borrow().last().unwrap().starts_with("finish 5"));
}
''')

seed("c21-limit-passed", "C21",
     "a run resumed with a limit that it has already passed",
     "the iteration limit only stops at exactly that iteration",
     [(STOP, "        state.get_iteration() >= self.max_iter", "        state.get_iteration() == self.max_iter")],
     GA + r'''
struct Guard(Rc<RefCell<usize>>);
impl StopChecker<f64> for Guard {
    fn can_stop(&mut self, s: &dyn AlgorithmState<f64>) -> bool { *self.0.borrow_mut() = s.get_iteration(); s.get_iteration() > 20 }
}
fn main() {
    let it = Rc::new(RefCell::new(0));
    let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(5)), Box::new(Make(vec![1.0, 2.0, 3.0])),
        Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)), vec![], vec![]);
    o.find_min();
    o.set_stop_checker(Box::new(CompositeAny::new(vec![Box::new(MaxIterations::new(3)), Box::new(Guard(it.clone()))])));
    o.next_iterations();
    println!("{}", it.borrow());
    assert_eq!(*it.borrow(), 5);
}
''')

seed("c22-drift", "C22",
     "a goal value that moves by less than delta in every iteration",
     "small drifts are forgotten instead of added up",
     [(STOP, """                    self.old_goal = best_goal;
                    self.change_iter = state.get_iteration();
                }
""", """                    self.change_iter = state.get_iteration();
                }
                self.old_goal = best_goal;
""")],
     GA + r'''
type Solution<T> = (T, f64);
struct State(usize, f64);
impl AlgorithmState<f64> for State {
    fn get_best_solution(&self) -> Option<Solution<f64>> { Some((0.0, self.1)) }
    fn get_iteration(&self) -> usize { self.0 }
}
fn main() {
    let mut c = GoalNotChange::new(3, 1.0);
    for n in 0..40 {
        assert!(!c.can_stop(&State(n, 100.0 - 0.6 * n as f64)), "{}", n);
    }
}
''')

seed("c22-upward", "C22",
     "a genetic run whose best goal value gets worse by more than delta",
     "a change for the worse does not count as a change",
     [(STOP, "                let delta = (best_goal - self.old_goal).abs();", "                let delta = self.old_goal - best_goal;")],
     GA + r'''
type Solution<T> = (T, f64);
struct State(usize, f64);
impl AlgorithmState<f64> for State {
    fn get_best_solution(&self) -> Option<Solution<f64>> { Some((0.0, self.1)) }
    fn get_iteration(&self) -> usize { self.0 }
}
fn main() {
    let mut c = GoalNotChange::new(3, 1.0);
    let values = [10.0, 10.0, 10.0, 15.0, 15.0, 15.0, 15.0, 15.0];
    let stop: Vec<bool> = values.iter().enumerate().map(|(n, v)| c.can_stop(&State(n, *v))).collect();
    println!("{:?}", stop);
    assert_eq!(stop, [false, false, false, false, false, false, false, true]);
}
''')

seed("c23-none-iteration", "C23",
     "an iteration after which there is no solution",
     "iterations without solution are left out of the convergence history",
     [(STAT, "        self.convergence[run_index].push(state.get_best_solution().clone());",
       "        if let Some(solution) = state.get_best_solution() {\n            self.convergence[run_index].push(Some(solution));\n        }")],
     GA + r'''
use optlib::tools::statistics::*;
fn main() {
    let mut stat = Statistics::new();
    {
        let mut o = GeneticOptimizer::new(Box::new(Fn1(|x: &f64| *x)), Box::new(MaxIterations::new(3)), Box::new(Make(vec![1.0, 2.0, 3.0])),
            Box::new(Pairs(vec![])), Box::new(Breed(|p: &[&f64]| vec![])), Box::new(Mut(|x: &f64| *x)),
            vec![Box::new(Sel(|p: &mut Population<f64>| for i in p.iter_mut() { i.kill() }))], vec![]);
        o.set_loggers(vec![Box::new(StatisticsLogger::new(&mut stat))]);
        o.find_min();
    }
    println!("{:?}", stat);
    assert_eq!(stat.get_convergence()[0], vec![None, None, None]);
}
''')

seed("c24-failed-runs-divisor", "C24",
     "runs without solution among the results",
     "the deviation of the goal divides by the number of all runs",
     [(STAT, "            Some((sum / ((count - 1) as GoalValue)).sqrt())", "            Some((sum / ((self.len() - 1) as GoalValue)).sqrt())")],
     r'''
use optlib::tools::statistics::*;
type Solution<T> = (T, f64);
fn main() {
    let r: Vec<Option<Solution<Vec<f64>>>> = vec![Some((vec![1.0], 1.0)), None, Some((vec![3.0], 3.0))];
    println!("{:?}", r.get_standard_deviation_goal());
    assert!((r.get_standard_deviation_goal().unwrap() - 2f64.sqrt()).abs() < 1e-9);
}
''')

seed("c24-cancellation", "C24",
     "goal values that are large compared with their spread",
     "the deviation is computed as the difference of two large sums",
     [(STAT, "            acc + (*goal - average_value) * (*goal - average_value)", "            acc + *goal * *goal"),
      (STAT, "            Some((sum / ((count - 1) as GoalValue)).sqrt())",
       "            let n = count as GoalValue;\n            Some(((sum - n * average_value * average_value).max(0.0) / (n - 1.0)).sqrt())")],
     r'''
use optlib::tools::statistics::*;
type Solution<T> = (T, f64);
fn main() {
    let r: Vec<Option<Solution<Vec<f64>>>> = [0.0, 1.0, 2.0].iter().map(|x| Some((vec![0.0], 1e9 + x))).collect();
    println!("{:?}", r.get_standard_deviation_goal());
    assert!((r.get_standard_deviation_goal().unwrap() - 1.0).abs() < 1e-6);
}
''')

seed("c25-relative", "C25",
     "an expected goal value of large magnitude",
     "the tolerance grows with the expected value",
     [(STAT, "(goal - expected_goal).abs() < delta\n", "(goal - expected_goal).abs() < delta * expected_goal.abs().max(1.0)\n")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let p = get_predicate_success_goal::<Vec<f64>>(-2000.0, 0.5);
    assert!(p(&(vec![0.0], -2000.25)));
    assert!(!p(&(vec![0.0], -1999.0)));
}
''')

seed("c26-empty-run", "C26",
     "a run without any goal call followed by another run",
     "an empty counter is reused for the next run",
     [(STAT, "    pub fn next_run(&mut self) {\n        self.0.push(0);", "    pub fn next_run(&mut self) {\n        if self.0.last() == Some(&0) {\n            return;\n        }\n        self.0.push(0);")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let mut c = CallCountData::new();
    c.next_run();
    c.next_run();
    c.add(4);
    assert_eq!(c.get_call_count(), [0, 4]);
    assert_eq!(c.get_average_call_count(), Some(2.0));
}
''')

seed("c26-unite-zero", "C26",
     "counters of runs without goal calls are united",
     "empty counters are dropped when data are united",
     [(STAT, "        self.0.append(&mut other.0);\n", "        other.0.retain(|count| *count > 0);\n        self.0.append(&mut other.0);\n")],
     r'''
use optlib::tools::statistics::*;
fn main() {
    let mut a = CallCountData::new();
    a.next_run();
    a.add(4);
    let mut b = CallCountData::new();
    b.next_run();
    a.unite(b);
    assert_eq!(a.get_call_count(), [4, 0]);
}
''')

seed("c27-time-of-start", "C27",
     "a run that is resumed after a pause",
     "the elapsed time covers the pause as well",
     [(LOG, "        self.start_time = Some(time::Instant::now());", "        self.start_time.get_or_insert_with(time::Instant::now);")],
     r'''
use optlib::tools::logging::*;
use optlib::AlgorithmState;
type Solution<T> = (T, f64);
struct S;
impl AlgorithmState<Vec<f64>> for S {
    fn get_best_solution(&self) -> Option<Solution<Vec<f64>>> { None }
    fn get_iteration(&self) -> usize { 0 }
}
fn main() {
    let mut out: Vec<u8> = vec![];
    {
        let mut l = TimeLogger::new(&mut out);
        l.resume(&S);
        l.finish(&S);
        std::thread::sleep(std::time::Duration::from_millis(1500));
        l.resume(&S);
        l.finish(&S);
    }
    let t = String::from_utf8(out).unwrap();
    println!("{}", t);
    let last = t.lines().last().unwrap();
    let ms: u64 = last.split_whitespace().filter_map(|w| w.parse().ok()).next().unwrap();
    assert!(ms < 1000);
}
''')

seed("c27-seconds-lost", "C27",
     "a run of more than a second",
     "whole seconds are missing from the elapsed time",
     [(LOG, "        let time_ms = duration.as_secs() * 1000 + duration.subsec_millis() as u64;", "        let time_ms = u64::from(duration.subsec_millis());")],
     r'''
use optlib::tools::logging::*;
use optlib::AlgorithmState;
type Solution<T> = (T, f64);
struct S;
impl AlgorithmState<Vec<f64>> for S {
    fn get_best_solution(&self) -> Option<Solution<Vec<f64>>> { None }
    fn get_iteration(&self) -> usize { 0 }
}
fn main() {
    let mut out: Vec<u8> = vec![];
    {
        let mut l = TimeLogger::new(&mut out);
        l.resume(&S);
        std::thread::sleep(std::time::Duration::from_millis(1100));
        l.finish(&S);
    }
    let t = String::from_utf8(out).unwrap();
    println!("{}", t);
    let ms: u64 = t.split_whitespace().filter_map(|w| w.parse().ok()).next().unwrap();
    assert!(ms >= 1100);
}
''')

seed("c27-goal-digits", "C27",
     "a precision different from the default and a goal value of many digits",
     "the result logger prints at most six decimals of the goal value",
     [(LOG, '                writeln!(&mut self.writer, "Goal: {:.*}", self.precision, goal).unwrap();',
       '                writeln!(&mut self.writer, "Goal: {:.*}", self.precision.min(6), goal).unwrap();')],
     r'''
use optlib::tools::logging::*;
use optlib::AlgorithmState;
type Solution<T> = (T, f64);
struct S;
impl AlgorithmState<Vec<f64>> for S {
    fn get_best_solution(&self) -> Option<Solution<Vec<f64>>> { Some((vec![0.5], 0.123456789)) }
    fn get_iteration(&self) -> usize { 0 }
}
fn main() {
    let mut out: Vec<u8> = vec![];
    {
        let mut l = ResultOnlyLogger::new(&mut out, 9);
        l.finish(&S);
    }
    let t = String::from_utf8(out).unwrap();
    println!("{}", t);
    assert!(t.contains("0.123456789"));
}
''')

seed("c28-rosenbrock-pairs", "C28",
     "points of four or more dimensions",
     "Rosenbrock sums disjoint pairs instead of consecutive coordinates",
     [(FUNC, "    for n in 0..x.len() - 1 {", "    for n in (0..x.len() - 1).step_by(if x.len() % 2 == 0 { 2 } else { 1 }) {")],
     r'''
use optlib_testfunc::rosenbrock;
fn main() {
    let v = rosenbrock(&vec![1.0, 2.0, 3.0, 4.0]);
    let want = 100.0 * 1.0 + 0.0 + 100.0 * 1.0 + 1.0 + 100.0 * 25.0 + 4.0;
    println!("{} {}", v, want);
    assert!((v - want).abs() < 1e-6);
}
''')

seed("c28-many-dimensions", "C28",
     "points of more than 255 dimensions",
     "the minimum of the paraboloid wraps around after 255 coordinates",
     [(FUNC, "(G::from(n).unwrap() + G::from(1.0).unwrap())", "G::from((n as u8).wrapping_add(1)).unwrap()")],
     r'''
use optlib_testfunc::paraboloid;
fn main() {
    let x: Vec<f64> = (0..300).map(|n| n as f64 + 1.0).collect();
    println!("{}", paraboloid(&x));
    assert_eq!(paraboloid(&x), 0.0);
}
''')
