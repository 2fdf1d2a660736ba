"""Planted bugs, eighth batch: refused in debug builds only, too many parents."""
from seeds import seed, GA, PSO, SEEDS

X = "optlib/src/genetic/cross/mod.rs"
PB = "optlib/src/genetic/pre_birth/vec_float.rs"
PM = "optlib/src/particleswarm/postmove/mod.rs"
CR = "optlib/src/genetic/creation/vec_float.rs"
S = "optlib/src/tools/statistics/mod.rs"

REFUSED = r'''
#[allow(dead_code)]
fn refused<F: FnOnce()>(f: F) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
'''

seed("c33-debug-newborns", "C33",
     "a release build, and a newborn of the wrong number of genes",
     "the filter of newborns checks their number of genes in debug builds only",
     [(PB, "assert_eq!(chromosomes.len(), self.intervals.len());", "debug_assert_eq!(chromosomes.len(), self.intervals.len());")],
     GA + REFUSED + r'''
use optlib::genetic::pre_birth::vec_float::CheckChromoInterval;
fn main() {
    // seen from inside of a selection, which has a population at hand
    let done = Rc::new(RefCell::new(false));
    let d = done.clone();
    struct Ones;
    impl Creator<Vec<f64>> for Ones { fn create(&mut self) -> Vec<Vec<f64>> { vec![vec![1.0]; 2] } }
    struct One;
    impl Pairing<Vec<f64>> for One { fn get_pairs(&mut self, _p: &Population<Vec<f64>>) -> Vec<Vec<usize>> { vec![vec![0, 1]] } }
    impl Cross<Vec<f64>> for One { fn cross(&mut self, p: &[&Vec<f64>]) -> Vec<Vec<f64>> { vec![p[0].clone()] } }
    impl Mutation<Vec<f64>> for One { fn mutation(&mut self, x: &Vec<f64>) -> Vec<f64> { x.clone() } }
    struct Check(Rc<RefCell<bool>>);
    impl PreBirth<Vec<f64>> for Check {
        fn pre_birth(&mut self, p: &Population<Vec<f64>>, _n: &mut Vec<Vec<f64>>) {
            for bad in [vec![], vec![1.0], vec![1.0, 1.0, 1.0]] {
                assert!(refused(|| CheckChromoInterval::new(vec![(0.0, 2.0), (0.0, 2.0)]).pre_birth(p, &mut vec![vec![1.0, 1.0], bad.clone()])));
            }
            let mut good = vec![vec![1.0, 1.0], vec![1.0, 3.0]];
            CheckChromoInterval::new(vec![(0.0, 2.0), (0.0, 2.0)]).pre_birth(p, &mut good);
            assert_eq!(good, vec![vec![1.0, 1.0]]);
            *self.0.borrow_mut() = true;
        }
    }
    let mut o = GeneticOptimizer::new(Box::new(GoalFromFunction::new(|x: &Vec<f64>| x[0])), Box::new(MaxIterations::new(2)),
        Box::new(Ones), Box::new(One), Box::new(One), Box::new(One), vec![], vec![Box::new(Check(d))]);
    o.find_min();
    assert!(*done.borrow());
}
''')

seed("c33-debug-parents", "C33",
     "a release build, and a family of three parents",
     "the bitwise crossover checks the number of parents in debug builds only",
     [(X, """    fn cross(&mut self, parents_genes: &[&f32]) -> Vec<f32> {
        assert_eq!(""", """    fn cross(&mut self, parents_genes: &[&f32]) -> Vec<f32> {
        debug_assert_eq!(""")],
     GA + REFUSED + r'''
use optlib::genetic::cross::CrossBitwise;
fn main() {
    assert!(refused(|| { CrossBitwise::new().cross(&[&1.0f32, &2.0, &3.0]); }));
    assert!(refused(|| { CrossBitwise::new().cross(&[&1.0f64, &2.0, &3.0]); }));
    assert!(!refused(|| { CrossBitwise::new().cross(&[&1.0f32, &2.0]); }));
}
''')

seed("c33-third-parent", "C33",
     "the gene by gene crossover in a family of more than two",
     "such a family is crossed as if only its first two parents were there",
     [(X, "assert!(parents.len() == 2);", "assert!(parents.len() >= 2);")],
     GA + REFUSED + r'''
use optlib::genetic::cross::{CrossMean, VecCrossAllGenes};
fn main() {
    let (a, b, c) = (vec![1.0f64], vec![2.0], vec![3.0]);
    let mut x = VecCrossAllGenes::new(Box::new(CrossMean::new()));
    assert_eq!(x.cross(&[&a, &b]), vec![vec![1.5]]);
    assert!(refused(|| { x.cross(&[&a, &b, &c]); }));
    assert!(refused(|| { x.cross(&[&a]); }));
}
''')

seed("c15-debug-probability", "C15",
     "a release build, and a probability that is none",
     "the teleport refuses such a probability in debug builds only",
     [(PM, "        assert!(probability <= 1_f32);", "        debug_assert!(probability <= 1_f32);")],
     PSO + REFUSED + r'''
use optlib::particleswarm::postmove::RandomTeleport;
fn main() {
    assert!(refused(|| { RandomTeleport::new(vec![(0.0f64, 1.0)], 1.5); }));
    assert!(refused(|| { RandomTeleport::new(vec![(0.0f64, 1.0)], -0.5); }));
    assert!(!refused(|| { RandomTeleport::new(vec![(0.0f64, 1.0)], 0.5); }));
}
''')

seed("c19-debug-empty", "C19",
     "a release build, and a creator of an empty population",
     "the creator refuses a population of size zero in debug builds only",
     [(CR, "        assert!(population_size > 0);", "        debug_assert!(population_size > 0);")],
     GA + REFUSED + r'''
use optlib::genetic::creation::vec_float::RandomCreator;
fn main() {
    assert!(refused(|| { RandomCreator::new(0, vec![(0.0f64, 1.0)]); }));
    assert!(!refused(|| { RandomCreator::new(1, vec![(0.0f64, 1.0)]); }));
}
''')

for i in ("c33-debug-newborns", "c33-debug-parents", "c15-debug-probability", "c19-debug-empty"):
    SEEDS[i]["release"] = True
