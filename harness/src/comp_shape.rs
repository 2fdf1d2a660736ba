//! What contradicts itself is refused: configurations and data of the wrong shape.

use crate::comp_pop::with_population;
use crate::core::guarded;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use num::Float;
use optlib::genetic::PreBirth;
use optlib::genetic::{cross, pre_birth, selection, Cross, Selection};
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::*;
use optlib::{Goal, Optimizer};
use rand::distributions::uniform::SampleUniform;
use rand::rngs::thread as trng;
use std::cell::Cell;
use std::rc::Rc;

trait Fl: Float + SampleUniform + std::fmt::Debug + 'static {
    fn bits() -> Box<dyn Cross<Self>>;
}
impl Fl for f32 {
    fn bits() -> Box<dyn Cross<f32>> {
        Box::new(cross::CrossBitwise::new())
    }
}
impl Fl for f64 {
    fn bits() -> Box<dyn Cross<f64>> {
        Box::new(cross::CrossBitwise::new())
    }
}

fn t<T: Fl>(x: f64) -> T {
    T::from(x).unwrap()
}
fn d<T: Fl>(x: T) -> f64 {
    x.to_f64().unwrap()
}
fn vs<T: Fl>(x: &[T]) -> J {
    a(x.iter().map(|y| J::V(d(*y))).collect())
}

/// The component in use.
enum Comp<T: Fl> {
    None,
    PreBirth(usize, pre_birth::vec_float::CheckChromoInterval<T>),
    Select(usize, selection::vec_float::CheckChromoInterval<T>),
    Boundary(usize, MoveToBoundary<T>),
    Teleport(usize, RandomTeleport<T>),
    Dims(usize, MaxVelocityDimensions<T>),
    Average,
    Deviation,
    Swarm(Swarmer<T>),
    Cross(Box<dyn Cross<T>>),
    Genes(cross::VecCrossAllGenes<T>),
}

struct Half;
impl<T: Fl> Cross<T> for Half {
    fn cross(&mut self, x: &[&T]) -> Vec<T> {
        vec![*x[0] - *x[1] / t::<T>(2.0)]
    }
}

/// An optimizer whose initializers make as many points and velocities as they are told.
struct Swarmer<T: Fl> {
    points: Rc<Cell<usize>>,
    speeds: Rc<Cell<usize>>,
    evals: Rc<Cell<usize>>,
    o: ParticleSwarmOptimizer<'static, T>,
}
struct Init(Rc<Cell<usize>>);
impl<T: Fl> CoordinatesInitializer<T> for Init {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        (0..self.0.get()).map(|k| vec![t::<T>(k as f64 + 1.0)]).collect()
    }
}
impl<T: Fl> VelocityInitializer<T> for Init {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        (0..self.0.get()).map(|_| vec![t::<T>(0.5)]).collect()
    }
}
struct Sum(Rc<Cell<usize>>);
impl<T: Fl> Goal<Vec<T>> for Sum {
    fn get(&mut self, x: &Vec<T>) -> f64 {
        self.0.set(self.0.get() + 1);
        d(x[0])
    }
}
struct Keep;
impl<T: Fl> VelocityCalculator<T> for Keep {
    fn calc_new_velocity(&mut self, _s: &Swarm<T>, _p: &Particle<T>) -> Vec<T> {
        vec![t::<T>(-0.25)]
    }
}
fn swarmer<T: Fl>() -> Swarmer<T> {
    let points = Rc::new(Cell::new(0));
    let speeds = Rc::new(Cell::new(0));
    let evals = Rc::new(Cell::new(0));
    Swarmer {
        points: points.clone(),
        speeds: speeds.clone(),
        evals: evals.clone(),
        o: ParticleSwarmOptimizer::new(
            Box::new(Sum(evals)),
            Box::new(MaxIterations::new(3)),
            Box::new(Init(points)),
            Box::new(Init(speeds)),
            Box::new(Keep),
        ),
    }
}

fn boxes<T: Fl>(n: usize) -> Vec<(T, T)> {
    (0..n).map(|k| (t::<T>(-1.0 - k as f64), t::<T>(k as f64))).collect()
}

/// a number of the configuration: eighths and steps
type Num8 = (i64, i64);
fn number<T: Fl>(x: Num8, unit: T) -> T {
    match x.0 {
        1_000_000_001 => T::nan(),
        1_000_000_000 => T::infinity(),
        -1_000_000_000 => T::neg_infinity(),
        q => t::<T>(q as f64 / 8.0) + t::<T>(x.1 as f64) * unit,
    }
}

fn make<T: Fl>(kind: &str, c: &[Vec<i64>], p: f32) -> Comp<T> {
    let n = c.get(0).map_or(0, |x| x[0]) as usize;
    match kind {
        "prebirth" => Comp::PreBirth(n, pre_birth::vec_float::CheckChromoInterval::new(boxes(n))),
        "select" => Comp::Select(n, selection::vec_float::CheckChromoInterval::new(boxes(n))),
        "boundary" => Comp::Boundary(n, MoveToBoundary::new(boxes(n))),
        "teleport" => Comp::Teleport(n, RandomTeleport::new(boxes(n), p)),
        "dims" => Comp::Dims(n, MaxVelocityDimensions::new((0..n).map(|k| t::<T>(1.0 + k as f64)).collect())),
        "average" => Comp::Average,
        "deviation" => Comp::Deviation,
        "swarm" => Comp::Swarm(swarmer()),
        "bits" => Comp::Cross(T::bits()),
        "exp" => Comp::Cross(Box::new(cross::FloatCrossExp::new())),
        "mean" => Comp::Cross(Box::new(cross::CrossMean::new())),
        "geomean" => Comp::Cross(Box::new(cross::FloatCrossGeometricMean::new())),
        "genes" => Comp::Genes(cross::VecCrossAllGenes::new(Box::new(Half))),
        "predicate" => {
            let m = c[1][0] as usize;
            let f = get_predicate_success_vec_solution(vec![T::zero(); n], vec![T::one(); m]);
            drop(f);
            Comp::None
        }
        "canonical" => {
            let four = T::epsilon() * t::<T>(4.0);
            let num = |k: usize| (c[k][0], c[k][1]);
            let alpha = number::<T>(num(2), if c[2][0] == 0 { T::min_positive_value() } else { T::epsilon() });
            CanonicalVelocityCalculator::new(number::<T>(num(0), four), number::<T>(num(1), four), alpha);
            Comp::None
        }
        _ => {
            let list: Vec<Box<dyn StopChecker<Vec<T>>>> = (0..n).map(|k| Box::new(MaxIterations::new(k)) as Box<dyn StopChecker<Vec<T>>>).collect();
            if kind == "any" {
                CompositeAny::new(list);
            } else {
                CompositeAll::new(list);
            }
            Comp::None
        }
    }
}

/// What a component is given.
struct Data<T> {
    vectors: Vec<Vec<T>>,
    /// positions of runs without solution
    holes: Vec<usize>,
}

/// Some(result) or None: refused; and whether everything was left as it was
fn apply<T: Fl>(c: &mut Comp<T>, x: &Data<T>) -> (Option<J>, bool) {
    trng::set_mode(trng::Mode::Const(0));
    let first = || x.vectors.get(0).cloned().unwrap_or(vec![]);
    let r = match c {
        Comp::None => (None, true),
        Comp::PreBirth(_, f) => {
            let r = guarded(|| {
                let mut list = x.vectors.clone();
                let mut res = vec![];
                pre_birth_call(f, &mut list);
                for y in &list {
                    res.push(vs(y));
                }
                a(res)
            });
            (r.ok(), true)
        }
        Comp::Select(_, f) => {
            let mut res = None;
            let vals: Vec<f64> = x.vectors.iter().map(|_| 1.0).collect();
            with_population(x.vectors.clone(), &vals, |p| {
                res = guarded(|| {
                    f.kill(p);
                    a(p.iter().map(|y| J::I(y.is_alive() as i64)).collect())
                })
                .ok();
            });
            (res, true)
        }
        Comp::Boundary(_, f) => {
            let mut y = first();
            let r = guarded(|| f.post_move(&mut y));
            let same = same_bits(&y, &first());
            (r.ok().map(|_| vs(&y)), same)
        }
        Comp::Teleport(_, f) => {
            let mut y = first();
            let r = guarded(|| f.post_move(&mut y));
            let same = same_bits(&y, &first());
            (r.ok().map(|_| vs(&y)), same)
        }
        Comp::Dims(_, f) => (guarded(|| vs(&f.correct_velocity(first()))).ok(), true),
        Comp::Average | Comp::Deviation => {
            let mut list: Vec<Option<(Vec<T>, f64)>> = x.vectors.iter().enumerate().map(|(k, v)| Some((v.clone(), k as f64))).collect();
            for h in &x.holes {
                list.insert((*h).min(list.len()), None);
            }
            let average = if let Comp::Average = c { true } else { false };
            let r = guarded(|| {
                let z = if average { list.get_average() } else { list.get_standard_deviation() };
                match z {
                    None => a(vec![]),
                    Some((v, g)) => a(vec![vs(&v), J::V(g)]),
                }
            });
            (r.ok(), true)
        }
        Comp::Cross(f) => {
            let parents = first();
            let list: Vec<&T> = parents.iter().collect();
            (guarded(|| vs(&f.cross(&list))).ok(), true)
        }
        Comp::Genes(f) => {
            let parents: Vec<Vec<T>> = first().iter().map(|y| vec![*y, *y + T::one()]).collect();
            let list: Vec<&Vec<T>> = parents.iter().collect();
            let r = guarded(|| a(f.cross(&list).iter().map(|y| vs(y)).collect()));
            (r.ok(), true)
        }
        Comp::Swarm(w) => {
            w.points.set(x.vectors[0].len());
            w.speeds.set(x.vectors[1].len());
            w.evals.set(0);
            let r = guarded(|| w.o.find_min());
            let n = w.evals.get();
            (
                r.ok().map(|z| match z {
                    None => a(vec![i(n)]),
                    Some((v, g)) => a(vec![i(n), vs(&v), J::V(g)]),
                }),
                n == 0,
            )
        }
    };
    trng::set_mode(trng::Mode::Seeded);
    r
}

fn pre_birth_call<T: Fl>(f: &mut pre_birth::vec_float::CheckChromoInterval<T>, list: &mut Vec<Vec<T>>) {
    with_population(vec![vec![T::zero()]], &[1.0], |p| f.pre_birth(p, list));
}

fn same_bits<T: Fl>(x: &[T], y: &[T]) -> bool {
    x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| p == q || (p.is_nan() && q.is_nan()))
}

struct Player<T: Fl> {
    comp: Comp<T>,
    kind: String,
    c: Vec<Vec<i64>>,
    p: f32,
    ev: Vec<J>,
}

impl<T: Fl> Player<T> {
    fn new() -> Self {
        Player { comp: Comp::None, kind: "none".to_string(), c: vec![], p: 0.0, ev: vec![] }
    }
    fn config(&mut self, kind: &str, c: Vec<Vec<i64>>, p: f32) {
        let r = guarded(|| make::<T>(kind, &c, p));
        let refused = r.is_err();
        let cj = if kind == "canonical" { a(c.iter().map(|x| ints(x)).collect()) } else { a(c.iter().map(|x| J::I(x[0])).collect()) };
        self.ev.push(J::O(vec![("e", s("config")), ("k", s(kind)), ("c", cj), ("refused", J::B(refused))]));
        if let Ok(x) = r {
            self.comp = x;
            self.kind = kind.to_string();
            self.c = c;
            self.p = p;
        }
    }
    /// sizes of the vectors, and how to fill them
    fn use_it(&mut self, sizes: &[usize], holes: Vec<usize>, mut fill: impl FnMut(usize, usize) -> f64) {
        if let Comp::None = self.comp {
            return;
        }
        let vectors = sizes.iter().enumerate().map(|(k, n)| (0..*n).map(|m| t::<T>(fill(k, m))).collect()).collect();
        let x = Data { vectors, holes };
        let (r, same) = apply(&mut self.comp, &x);
        let mut fresh = make::<T>(&self.kind, &self.c, self.p);
        let (f, _) = apply(&mut fresh, &x);
        self.ev.push(J::O(vec![
            ("e", s("use")),
            ("d", us(sizes)),
            ("refused", J::B(r.is_none())),
            ("same", J::B(same)),
            ("o", r.unwrap_or(a(vec![]))),
            ("fresh", f.unwrap_or(a(vec![]))),
        ]));
    }
}

const SIZED: [&str; 5] = ["prebirth", "select", "boundary", "teleport", "dims"];
const FREE: [&str; 3] = ["average", "deviation", "swarm"];
const CROSS: [&str; 5] = ["bits", "exp", "mean", "geomean", "genes"];

/// inside, outside and beyond of boxes(n)
fn value(r: &mut R, m: usize) -> f64 {
    match r.below(10) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 1e30,
        4 => -1e30,
        5 => m as f64,
        6 => -1.0 - m as f64,
        _ => -1.0 + r.unit(),
    }
}

fn run<T: Fl>(r: &mut R) -> Vec<J> {
    let mut p = Player::<T>::new();
    for _ in 0..r.range(2, 5) {
        let size = |r: &mut R| match r.below(12) {
            0 => *r.pick(&[16usize, 17, 64, 255, 256, 257, 600, 5000]),
            1 => 0,
            _ => r.range(1, 6) as usize,
        };
        if r.chance(20) {
            let n = |r: &mut R| -> Vec<i64> {
                match r.below(12) {
                    0 => vec![NAN8, 0],
                    1 => vec![INF8, 0],
                    2 => vec![-INF8, 0],
                    3 => vec![r.range(-40, 60), 0],
                    4 => vec![r.range(9, 24), r.range(-1, 1)],
                    _ => vec![16 + *r.pick(&[-8i64, 0, 8]), r.range(-1, 1)],
                }
            };
            let (x, mut y) = (n(r), n(r));
            if r.chance(50) && x[0].abs() < INF8 && x[0] > 0 && x[0] < 32 {
                // the sum is four, or nearly
                y = vec![32 - x[0], r.range(-1, 1) - x[1]];
            }
            let alpha = match r.below(12) {
                0 => vec![0, 0],
                1 => vec![0, 1],
                2 => vec![8, 0],
                3 => vec![8, -1],
                4 => vec![8, 1],
                5 => vec![0, -1],
                6 => vec![NAN8, 0],
                7 => vec![*r.pick(&[-INF8, INF8]), 0],
                _ => vec![r.range(1, 7), 0],
            };
            p.config("canonical", vec![x, y, alpha], 0.0);
        }
        if r.chance(20) {
            let (x, y) = (size(r), size(r));
            let y = if r.chance(40) { x } else { y };
            p.config("predicate", vec![vec![x as i64], vec![y as i64]], 0.0);
        }
        if r.chance(15) {
            p.config(*r.pick(&["any", "all"]), vec![vec![r.below(3) as i64]], 0.0);
        }
        let kind = match r.below(10) {
            0..=5 => *r.pick(&SIZED),
            6 | 7 => *r.pick(&FREE),
            _ => *r.pick(&CROSS),
        };
        let crossing = CROSS.contains(&kind);
        let sized = SIZED.contains(&kind);
        let n = size(r);
        p.config(kind, if sized { vec![vec![n as i64]] } else { vec![] }, *r.pick(&[0.0f32, 1.0, 0.3]));
        for _ in 0..r.range(1, 6) {
            let many = kind == "prebirth" || kind == "select" || kind == "average" || kind == "deviation";
            let common = match kind {
                _ if sized => n,
                _ if crossing && r.chance(60) => 2,
                _ => size(r),
            };
            let count = if kind == "swarm" {
                2
            } else if many {
                match r.below(10) {
                    0 => 0,
                    1 => *r.pick(&[30usize, 70, 260]),
                    _ => r.range(1, 6) as usize,
                }
            } else {
                1
            };
            let count = if common > 100 { count.min(4) } else { count };
            let mut sizes = vec![common; count];
            if r.chance(55) && count > 0 {
                // one of them (the last one, perhaps) has a size of its own
                let at = if r.chance(40) { count - 1 } else { r.below(count) };
                sizes[at] = match r.below(4) {
                    0 => common + 1,
                    1 => common.max(1) - 1,
                    2 => 0,
                    _ => size(r),
                };
                if r.chance(20) && count > 1 {
                    let other = r.below(count);
                    sizes[other] = size(r).min(20);
                }
            }
            let holes = if r.chance(40) { (0..r.below(4)).map(|_| r.below(count + 1)).collect() } else { vec![] };
            // everything inside, everything outside, or anything
            let how = r.below(3);
            let finite = kind == "average" || kind == "deviation";
            let mut q = r.clone();
            p.use_it(&sizes, holes, |_, m| {
                if crossing {
                    // of one binade, so that every child can be represented
                    1.0 + q.below(8) as f64 / 8.0
                } else if finite {
                    q.range(-50, 50) as f64
                } else {
                    match how {
                        0 => -0.5,
                        1 => 1e9,
                        _ => value(&mut q, m),
                    }
                }
            });
            r.next();
        }
    }
    p.ev
}

const NAN8: i64 = 1_000_000_001;
const INF8: i64 = 1_000_000_000;

pub fn suite(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x5A9E_0000);
        trng::seed(r.next());
        let id = format!("shapes-{}-{}", seed, k);
        out.begin(&id);
        let ev = if k % 2 == 0 { run::<f32>(&mut r) } else { run::<f64>(&mut r) };
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Rank });
    }
}

/// Histories of calls enumerated by TLC.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("shapes-script-{}", k);
        out.begin(&id);
        let j = parse(line);
        let ev = if k % 2 == 0 { script::<f64>(&j) } else { script::<f32>(&j) };
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Rank });
    }
}

fn script<T: Fl>(j: &J) -> Vec<J> {
    let mut p = Player::<T>::new();
    for (n, x) in j.arr().iter().enumerate() {
        if x.gs("a") == "config" {
            let k = x.gs("k");
            let c: Vec<Vec<i64>> = x.ga("c").iter().map(|y| if k == "canonical" { y.is() } else { vec![y.int()] }).collect();
            p.config(k, c, if n % 2 == 0 { 1.0 } else { 0.0 });
        } else {
            let d: Vec<usize> = x.ga("d").iter().map(|y| y.int() as usize).collect();
            let crossing = CROSS.contains(&p.kind.as_str());
            p.use_it(&d, vec![], |q, m| if crossing { 1.0 + m as f64 / 8.0 } else { (q + m) as f64 - 1.0 });
        }
    }
    p.ev
}
