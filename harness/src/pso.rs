//! Recorded runs of the particle swarm optimizer.

use crate::core::*;
use crate::ga::gen_value;
use crate::j::*;
use crate::rng::R;
use num::Float;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::statistics::{CallCountData, GoalCalcStatistics};
use optlib::tools::stopchecker::StopChecker;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use rand::rngs::thread as trng;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::rc::Rc;

pub trait Fl: Float + rand::distributions::uniform::SampleUniform + std::fmt::Debug + 'static {
    fn f(x: f64) -> Self;
    fn d(self) -> f64;
    fn key(self) -> u64;
}
impl Fl for f64 {
    fn f(x: f64) -> f64 {
        x
    }
    fn d(self) -> f64 {
        self
    }
    fn key(self) -> u64 {
        if self.is_nan() {
            1
        } else {
            (self + 0.0).to_bits()
        }
    }
}
impl Fl for f32 {
    fn f(x: f64) -> f32 {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn key(self) -> u64 {
        if self.is_nan() {
            1
        } else {
            (self + 0.0).to_bits() as u64
        }
    }
}

/// How points are written: as lists of integers or as numbers of interned points.
#[derive(Clone)]
pub struct Ctx {
    pub rec: Rec,
    pub int: bool,
    /// a coordinate was not a moderate number: probes are meaningless
    pub wild: Rc<std::cell::Cell<bool>>,
}
impl Ctx {
    pub fn pt<T: Fl>(&self, x: &[T]) -> J {
        if self.int {
            a(x.iter().map(|v| J::I(int_code(v.d()))).collect())
        } else {
            let mut o = String::new();
            for v in x {
                write!(o, "{:x},", v.key()).unwrap();
            }
            J::I(self.rec.borrow_mut().id(o))
        }
    }
    fn look<T: Fl>(&self, x: &[T]) {
        if x.iter().any(|v| !(v.abs().d() < 1e15)) {
            self.wild.set(true)
        }
    }
    fn sol<T: Fl>(&self, b: &Option<(Vec<T>, f64)>) -> J {
        match b {
            None => a(vec![]),
            Some((x, v)) => a(vec![self.pt(x), J::V(*v)]),
        }
    }
    fn push(&self, e: &'static str, f: Vec<(&'static str, J)>) {
        self.rec.borrow_mut().push(e, f)
    }
}

/// Choices of the environment (from a script where the queues are filled, otherwise random).
pub struct PEnv {
    pub r: R,
    pub n0: usize,
    pub dim: usize,
    pub span: i64,
    pub valmode: usize,
    pub nval: i64,
    pub left: usize,
    pub wild: usize,
    pub xinit: VecDeque<Vec<Vec<i64>>>,
    pub vinit: VecDeque<Vec<Vec<i64>>>,
    pub calcs: VecDeque<Vec<i64>>,
    pub cvs: VecDeque<Vec<i64>>,
    pub pms: VecDeque<Vec<i64>>,
    pub vals: VecDeque<f64>,
    pub tests: VecDeque<bool>,
}
pub type PE = Rc<RefCell<PEnv>>;

impl PEnv {
    pub fn new(r: R) -> PE {
        Rc::new(RefCell::new(PEnv {
            r,
            n0: 3,
            dim: 1,
            span: 4,
            valmode: 0,
            nval: 0,
            left: 0,
            wild: 0,
            xinit: VecDeque::new(),
            vinit: VecDeque::new(),
            calcs: VecDeque::new(),
            cvs: VecDeque::new(),
            pms: VecDeque::new(),
            vals: VecDeque::new(),
            tests: VecDeque::new(),
        }))
    }
    fn vec<T: Fl>(&mut self) -> Vec<T> {
        let s = self.span;
        (0..self.dim)
            .map(|_| {
                if self.r.chance(self.wild) {
                    T::f(*self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -0.0, 1e-310]))
                } else if self.wild > 0 {
                    T::f((self.r.unit() - 0.5) * 10.0)
                } else {
                    T::f(self.r.range(-s, s) as f64)
                }
            })
            .collect()
    }
}
fn conv<T: Fl>(x: &[i64]) -> Vec<T> {
    x.iter().map(|v| T::f(*v as f64)).collect()
}

// ---- scripted plug-ins ----

pub struct PX(pub PE);
impl<T: Fl> CoordinatesInitializer<T> for PX {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.xinit.pop_front() {
            return x.iter().map(|v| conv(v)).collect();
        }
        (0..e.n0).map(|_| e.vec()).collect()
    }
}
pub struct PV(pub PE);
impl<T: Fl> VelocityInitializer<T> for PV {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.vinit.pop_front() {
            return x.iter().map(|v| conv(v)).collect();
        }
        (0..e.n0).map(|_| e.vec()).collect()
    }
}
pub struct PC(pub PE);
impl<T: Fl> VelocityCalculator<T> for PC {
    fn calc_new_velocity(&mut self, _s: &Swarm<T>, p: &Particle<T>) -> Vec<T> {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.calcs.pop_front() {
            return conv(&x);
        }
        if e.wild > 0 {
            return e.vec();
        }
        // stay in the neighbourhood of the origin
        let s = e.span;
        p.get_parameter()
            .iter()
            .map(|x| T::f(e.r.range(-s, s) as f64 - if e.r.chance(70) { x.d() } else { 0.0 }))
            .collect()
    }
}
pub struct PCV(pub PE);
impl<T: Fl> PostVelocityCalc<T> for PCV {
    fn correct_velocity(&mut self, v: Vec<T>) -> Vec<T> {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.cvs.pop_front() {
            return conv(&x);
        }
        match e.r.below(3) {
            0 => v,
            1 => v.iter().map(|x| T::zero() - *x).collect(),
            _ => e.vec(),
        }
    }
}
pub struct PPM(pub PE);
impl<T: Fl> PostMove<T> for PPM {
    fn post_move(&mut self, c: &mut Vec<T>) {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.pms.pop_front() {
            *c = conv(&x);
            return;
        }
        match e.r.below(4) {
            0 | 1 => {}
            2 => c.iter_mut().for_each(|x| *x = x.min(T::f(3.0)).max(T::f(-3.0))),
            _ => *c = e.vec(),
        }
    }
}
pub struct PG(pub PE);
impl PEnv {
    fn value(&mut self) -> f64 {
        if let Some(v) = self.vals.pop_front() {
            return v;
        }
        self.nval += 1;
        let (m, n) = (self.valmode, self.nval);
        gen_value(&mut self.r, m, n)
    }
}
impl<T: Fl> Goal<Vec<T>> for PG {
    fn get(&mut self, _x: &Vec<T>) -> f64 {
        self.0.borrow_mut().value()
    }
}
pub struct PStop(pub PE);
impl<T: Fl> StopChecker<Vec<T>> for PStop {
    fn can_stop(&mut self, _s: &dyn AlgorithmState<Vec<T>>) -> bool {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.tests.pop_front() {
            return x;
        }
        if e.left == 0 {
            return true;
        }
        e.left -= 1;
        false
    }
}

// ---- recording wrappers ----

struct WX<T> {
    c: Ctx,
    g: i64,
    inner: Box<dyn CoordinatesInitializer<T>>,
}
impl<T: Fl> CoordinatesInitializer<T> for WX<T> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        nest_tick();
        let x = self.inner.get_coordinates();
        x.iter().for_each(|p| self.c.look(p));
        let v = x.iter().map(|p| self.c.pt(p)).collect();
        self.c.push("xinit", vec![("g", J::I(self.g)), ("xs", a(v))]);
        x
    }
}
struct WV<T> {
    c: Ctx,
    g: i64,
    inner: Box<dyn VelocityInitializer<T>>,
}
impl<T: Fl> VelocityInitializer<T> for WV<T> {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        nest_tick();
        let x = self.inner.get_velocity();
        x.iter().for_each(|p| self.c.look(p));
        let v = x.iter().map(|p| self.c.pt(p)).collect();
        self.c.push("vinit", vec![("g", J::I(self.g)), ("vs", a(v))]);
        x
    }
}
struct WPM<T> {
    c: Ctx,
    g: i64,
    inner: Box<dyn PostMove<T>>,
}
impl<T: Fl> PostMove<T> for WPM<T> {
    fn post_move(&mut self, x: &mut Vec<T>) {
        nest_tick();
        let i0 = self.c.pt(x);
        self.inner.post_move(x);
        self.c.look(x);
        let o = self.c.pt(x);
        self.c.push("pm", vec![("g", J::I(self.g)), ("i", i0), ("o", o)]);
    }
}
struct WCV<T> {
    c: Ctx,
    g: i64,
    x: Rc<RefCell<Vec<T>>>,
    inner: Box<dyn PostVelocityCalc<T>>,
}
fn sum<T: Fl>(x: &[T], u: &[T]) -> Vec<T> {
    x.iter().zip(u.iter()).map(|(p, q)| *p + *q).collect()
}
impl<T: Fl> PostVelocityCalc<T> for WCV<T> {
    fn correct_velocity(&mut self, v: Vec<T>) -> Vec<T> {
        nest_tick();
        let i0 = self.c.pt(&v);
        let o = self.inner.correct_velocity(v);
        self.c.look(&o);
        let j = self.c.pt(&o);
        let s = self.c.pt(&sum(&self.x.borrow(), &o));
        self.c.push("cv", vec![("g", J::I(self.g)), ("i", i0), ("o", j), ("s", s)]);
        o
    }
}
struct WG<'a, T> {
    c: Ctx,
    inside: Option<Rc<dyn Fn(&[T]) -> bool>>,
    inner: Box<dyn Goal<Vec<T>> + 'a>,
}
impl<'a, T: Fl> Goal<Vec<T>> for WG<'a, T> {
    fn get(&mut self, x: &Vec<T>) -> f64 {
        nest_tick();
        let v = self.inner.get(x);
        self.c.look(x);
        let inb = self.inside.as_ref().map_or(true, |f| f(x));
        let p = self.c.pt(x);
        self.c
            .rec
            .borrow_mut()
            .push_c("eval", 0, a(vec![p, J::V(v), J::I(inb as i64), J::I(faithful())]));
        v
    }
}
struct WS<T> {
    c: Ctx,
    g: i64,
    inner: Box<dyn StopChecker<Vec<T>>>,
}
impl<T: Fl> StopChecker<Vec<T>> for WS<T> {
    fn can_stop(&mut self, st: &dyn AlgorithmState<Vec<T>>) -> bool {
        nest_tick();
        let ans = self.inner.can_stop(st);
        let b = self.c.sol(&st.get_best_solution());
        self.c.push(
            "test",
            vec![("g", J::I(self.g)), ("it", i(st.get_iteration())), ("b", b), ("a", J::B(ans))],
        );
        ans
    }
}
struct WL {
    c: Ctx,
    g: i64,
}
impl WL {
    fn put<T: Fl>(&self, w: &str, st: &dyn AlgorithmState<Vec<T>>) {
        nest_tick();
        let b = self.c.sol(&st.get_best_solution());
        self.c.push(
            "log",
            vec![("g", J::I(self.g)), ("w", s(w)), ("it", i(st.get_iteration())), ("b", b)],
        );
    }
}
impl<T: Fl> Logger<Vec<T>> for WL {
    fn start(&mut self, st: &dyn AlgorithmState<Vec<T>>) {
        self.put("start", st)
    }
    fn resume(&mut self, st: &dyn AlgorithmState<Vec<T>>) {
        self.put("resume", st)
    }
    fn next_iteration(&mut self, st: &dyn AlgorithmState<Vec<T>>) {
        self.put("next", st)
    }
    fn finish(&mut self, st: &dyn AlgorithmState<Vec<T>>) {
        self.put("finish", st)
    }
}

/// Probing of the shipped velocity rules (integer runs).
#[derive(Clone)]
pub struct Probe {
    pub r: R,
    /// percentage of the moves at which the rules are called
    pub rate: usize,
    /// two of the six terms (0..5) for the separation of random factors; the first one alone for
    /// the separation of dimensions
    pub pair: (usize, usize),
    pub draws: usize,
    /// kinds of rules to be called
    pub kinds: Vec<usize>,
}
struct WC<T> {
    c: Ctx,
    g: i64,
    x: Rc<RefCell<Vec<T>>>,
    full: usize,
    count: usize,
    probe: Option<Probe>,
    /// rules that are used again and again: kind, variant, parameters
    kept: Vec<(usize, usize, [i64; 6], i64, [i64; 3], Box<dyn VelocityCalculator<T>>)>,
    inner: Box<dyn VelocityCalculator<T>>,
}

fn majority<T: Fl>(x: Vec<Vec<T>>) -> Vec<T> {
    let k = |v: &Vec<T>| v.iter().map(|y| y.key()).collect::<Vec<_>>();
    for n in 0..x.len() {
        if x.iter().filter(|y| k(y) == k(&x[n])).count() * 2 > x.len() {
            return x[n].clone();
        }
    }
    x[0].clone()
}

impl<T: Fl + num::NumCast> WC<T> {
    fn own(&self, sw: &Swarm<T>, p: &Particle<T>) -> Vec<T> {
        let (z, o) = (T::zero(), T::one());
        majority(vec![
            ClassicVelocityCalculator::new(z, z).calc_new_velocity(sw, p),
            InertiaVelocityCalculator::new(z, z, Box::new(ConstInertia::new(o))).calc_new_velocity(sw, p),
            NegativeReinforcement::new(z, z, z, z, z, z, o).calc_new_velocity(sw, p),
        ])
    }
    /// the personal best position, as far as the shipped rules show it
    fn memory(&self, sw: &Swarm<T>, p: &Particle<T>, u: &[T]) -> Vec<T> {
        let (z, o) = (T::zero(), T::one());
        trng::set_mode(trng::Mode::Const(!0));
        // a copy of a particle remembers the same
        let copy = p.clone();
        let p = if self.count % 2 == 0 { &copy } else { p };
        let m = vec![
            ClassicVelocityCalculator::new(o, z).calc_new_velocity(sw, p),
            InertiaVelocityCalculator::new(o, z, Box::new(ConstInertia::new(o))).calc_new_velocity(sw, p),
            NegativeReinforcement::new(o, z, z, z, z, z, o).calc_new_velocity(sw, p),
        ];
        majority(
            m.into_iter()
                .map(|v| {
                    v.iter()
                        .zip(u.iter().zip(p.get_parameter().iter()))
                        .map(|(q, (u, x))| (*q - *u + *x).round())
                        .collect()
                })
                .collect(),
        )
    }
    fn rules(&mut self, sw: &Swarm<T>, p: &Particle<T>) -> J {
        let mut pr = match &self.probe {
            None => return a(vec![]),
            Some(x) => x.clone(),
        };
        if !pr.r.chance(pr.rate) {
            self.probe = Some(pr);
            return a(vec![]);
        }
        let mut out = vec![];
        let copy = p.clone();
        let p = if self.count % 3 == 0 { &copy } else { p };
        let h = |x: i64| T::f(x as f64 / 2.0);
        // variants: everything at 0 and 1, the pair and the single term at random
        let k = *pr.r.pick(&pr.kinds.clone());
        for variant in 0..4 {
            let old: Vec<usize> =
                (0..self.kept.len()).filter(|&n| self.kept[n].0 == k && self.kept[n].1 == variant).collect();
            let again = if !old.is_empty() && pr.r.chance(if old.len() > 3 { 80 } else { 50 }) {
                Some(self.kept.swap_remove(*pr.r.pick(&old)))
            } else {
                None
            };
            // doubled parameters: [best personal, current, global, worst personal, current, global]
            let mut ph = [0i64; 6];
            let (mut xi, mut w) = (0i64, [0i64, 0, 1]);
            let two = variant == 2;
            let one = variant == 3;
            let pick = |r: &mut R, t: usize| -> i64 {
                if two || one {
                    let on = if k == 4 {
                        t == pr.pair.0 || (two && t == pr.pair.1)
                    } else {
                        two || (t == 0) == (pr.pair.0 % 2 == 0)
                    };
                    if on {
                        r.range(1, 4)
                    } else {
                        0
                    }
                } else if r.chance(15) {
                    0
                } else {
                    r.range(1, 6)
                }
            };
            for t in 0..6 {
                if k == 4 || t == 0 || t == 2 {
                    ph[t] = pick(&mut pr.r, t);
                }
            }
            let mut calc: Box<dyn VelocityCalculator<T>> = match k {
                0 => Box::new(ClassicVelocityCalculator::new(h(ph[0]), h(ph[2]))),
                1 => {
                    // phi = 6 or 10, alpha = xi / 4
                    let phi = *pr.r.pick(&[12i64, 20]);
                    ph[0] = if one && pr.pair.0 % 2 == 0 {
                        phi
                    } else if one {
                        0
                    } else {
                        pr.r.range(phi / 2 - 3, phi / 2 + 3)
                    };
                    ph[2] = phi - ph[0];
                    xi = pr.r.range(1, 3);
                    Box::new(CanonicalVelocityCalculator::new(h(ph[0]), h(ph[2]), T::f(xi as f64 / 4.0)))
                }
                2 => {
                    w = [pr.r.range(-2, 8), 0, 1];
                    Box::new(InertiaVelocityCalculator::new(
                        h(ph[0]),
                        h(ph[2]),
                        Box::new(ConstInertia::new(T::f(w[0] as f64 / 4.0))),
                    ))
                }
                3 => {
                    w = [pr.r.range(0, 4), pr.r.range(0, 8), *pr.r.pick(&[1, 2, 4, 8, 32])];
                    Box::new(InertiaVelocityCalculator::new(
                        h(ph[0]),
                        h(ph[2]),
                        Box::new(LinearInertia::new(
                            T::f(w[0] as f64 / 4.0),
                            T::f(w[1] as f64 / 4.0),
                            w[2] as usize,
                        )),
                    ))
                }
                _ => {
                    xi = *pr.r.pick(&[1, 2, 3, 4, 4, 6]);
                    Box::new(NegativeReinforcement::new(
                        h(ph[0]),
                        h(ph[1]),
                        h(ph[2]),
                        h(ph[3]),
                        h(ph[4]),
                        h(ph[5]),
                        T::f(xi as f64 / 4.0),
                    ))
                }
            };
            if let Some(x) = again {
                ph = x.2;
                xi = x.3;
                w = x.4;
                calc = x.5;
            }
            let mut o = vec![];
            let n = if two || one { pr.draws } else { 1 };
            match variant {
                0 => trng::set_mode(trng::Mode::Const(0)),
                1 => trng::set_mode(trng::Mode::Const(!0)),
                _ => trng::set_mode(trng::Mode::Seeded),
            }
            for _ in 0..n {
                let v = calc.calc_new_velocity(sw, p);
                o.push(a(v
                    .iter()
                    .map(|x| {
                        let y = x.d() * 256.0;
                        ints(&[int_code(y.floor()), int_code(y.ceil())])
                    })
                    .collect()));
            }
            out.push(J::O(vec![
                ("k", i(k)),
                ("ph", ints(&ph)),
                ("xi", J::I(xi)),
                ("w", ints(&w)),
                ("r", J::I([0, 1, 2, 3][variant])),
                ("o", a(o)),
            ]));
            self.kept.push((k, variant, ph, xi, w, calc));
        }
        self.probe = Some(pr);
        a(out)
    }
}

impl<T: Fl + num::NumCast> VelocityCalculator<T> for WC<T> {
    fn calc_new_velocity(&mut self, sw: &Swarm<T>, p: &Particle<T>) -> Vec<T> {
        nest_tick();
        let n = sw.len();
        let ags = sw.get_agents();
        let it = sw.get_iteration();
        let best = sw.get_best_solution();
        let wild = self.c.wild.get();
        let (mut u, mut pb, mut rules) = (a(vec![]), a(vec![]), a(vec![]));
        if !wild {
            let saved = trng::save();
            trng::set_mode(trng::Mode::Seeded);
            let v = self.own(sw, p);
            u = a(vec![self.c.pt(&v)]);
            if self.c.int {
                let m = self.memory(sw, p, &v);
                pb = a(vec![self.c.pt(&m)]);
                rules = self.rules(sw, p);
            }
            trng::restore(saved);
        }
        // every way to look at the swarm
        let none = Swarm::<T>::new();
        let sides = ags.len() == n
            && AlgorithmState::get_iteration(sw) == it
            && sw.get_agents().iter().zip(ags.iter()).all(|(x, y)| std::ptr::eq(*x, *y))
            && p.clone().get_parameter() .iter().map(|y| y.key()).eq(p.get_parameter().iter().map(|y| y.key()))
            && p.clone().get_goal().to_bits() == p.get_goal().to_bits()
            && none.len() == 0
            && none.get_agents().is_empty()
            && none.get_best_solution().is_none()
            && none.get_iteration() == 0;
        let every = (self.full + n - 1) / self.full.max(1);
        let view = if n <= self.full || self.count % every.max(1) == 0 {
            a(ags
                .iter()
                .map(|q| a(vec![self.c.pt(q.get_parameter()), J::V(q.get_goal())]))
                .collect())
        } else {
            a(vec![])
        };
        self.count += 1;
        let o = self.inner.calc_new_velocity(sw, p);
        self.c.look(&o);
        *self.x.borrow_mut() = p.get_parameter().clone();
        let f = vec![
            ("g", J::I(self.g)),
            ("n", i(n)),
            ("sw", view),
            ("it", i(it)),
            ("b", self.c.sol(&best)),
            ("x", self.c.pt(p.get_parameter())),
            ("v", J::V(p.get_goal())),
            ("u", u),
            ("pb", pb),
            ("o", self.c.pt(&o)),
            ("s", self.c.pt(&sum(p.get_parameter(), &o))),
            ("rules", rules),
            ("ok", J::B(sides)),
        ];
        self.c.push("calc", f);
        o
    }
}

// ---- runs ----

pub struct PFac<T> {
    pub x: Box<dyn Fn() -> Box<dyn CoordinatesInitializer<T>>>,
    pub v: Box<dyn Fn() -> Box<dyn VelocityInitializer<T>>>,
    pub goal: Box<dyn Fn() -> Box<dyn Goal<Vec<T>>>>,
    pub stop: Box<dyn Fn() -> Box<dyn StopChecker<Vec<T>>>>,
    pub calc: Box<dyn Fn() -> Box<dyn VelocityCalculator<T>>>,
    pub cvs: Box<dyn Fn() -> Vec<Box<dyn PostVelocityCalc<T>>>>,
    pub pms: Box<dyn Fn() -> Vec<Box<dyn PostMove<T>>>>,
    pub nlog: Box<dyn Fn() -> usize>,
    pub inside: Option<Rc<dyn Fn(&[T]) -> bool>>,
    /// the last correction of positions is the boundary correction
    pub boxed: bool,
    pub int: bool,
    pub full: usize,
    pub probe: Option<Probe>,
}

pub fn cyc(v: Vec<usize>) -> impl Fn() -> usize {
    let k = std::cell::Cell::new(0usize);
    move || {
        let n = k.get();
        k.set(n + 1);
        v[n % v.len()]
    }
}

pub fn scripted<T: Fl + num::NumCast>(e: &PE, ncv: Vec<usize>, npm: Vec<usize>, nlog: Vec<usize>) -> PFac<T> {
    let (e1, e2, e3, e4, e5, e6, e7) =
        (e.clone(), e.clone(), e.clone(), e.clone(), e.clone(), e.clone(), e.clone());
    let (ncv, npm) = (cyc(ncv), cyc(npm));
    PFac {
        x: Box::new(move || Box::new(PX(e1.clone()))),
        v: Box::new(move || Box::new(PV(e2.clone()))),
        goal: Box::new(move || {
            let plain = e3.borrow_mut().r.chance(40);
            if plain {
                let e = e3.clone();
                Box::new(FnGoal::new(Box::new(move || e.borrow_mut().value())))
            } else {
                Box::new(PG(e3.clone()))
            }
        }),
        stop: Box::new(move || Box::new(PStop(e4.clone()))),
        calc: Box::new(move || Box::new(PC(e5.clone()))),
        cvs: Box::new(move || {
            (0..ncv()).map(|_| Box::new(PCV(e6.clone())) as Box<dyn PostVelocityCalc<T>>).collect()
        }),
        pms: Box::new(move || (0..npm()).map(|_| Box::new(PPM(e7.clone())) as Box<dyn PostMove<T>>).collect()),
        nlog: Box::new(cyc(nlog)),
        inside: None,
        boxed: false,
        int: true,
        full: 16,
        probe: None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum PCmd {
    Find(usize),
    Next(usize),
    SetStop,
    SetLoggers,
    SetPostMoves,
    SetPostVelocity,
    /// choices from this seed on, and the record starts anew
    Reseed(u64),
    /// find_min (or next_iterations), of which the plug-in call with this number panics
    Crash(bool, usize, usize),
}

struct Ids {
    next: i64,
    x: i64,
    v: i64,
    calc: i64,
    stop: i64,
    cv: Vec<i64>,
    pm: Vec<i64>,
    log: Vec<i64>,
}
impl Ids {
    fn new(&mut self) -> i64 {
        self.next += 1;
        self.next
    }
    fn j<T>(&self, f: &PFac<T>) -> J {
        J::O(vec![
            ("x", J::I(self.x)),
            ("v", J::I(self.v)),
            ("calc", J::I(self.calc)),
            ("stop", J::I(self.stop)),
            ("cv", ints(&self.cv)),
            ("pm", ints(&self.pm)),
            ("log", ints(&self.log)),
            ("box", J::B(f.boxed)),
            ("int", J::B(f.int)),
        ])
    }
}

pub fn run<T: Fl + num::NumCast>(id: &str, env: &PE, f: &PFac<T>, cmds: &[PCmd], counted: bool) -> Trace {
    run_on(&rec(), id, env, f, cmds, counted)
}

pub fn run_on<T: Fl + num::NumCast>(rc: &Rec, id: &str, env: &PE, f: &PFac<T>, cmds: &[PCmd], counted: bool) -> Trace {
    let rc = rc.clone();
    let c = Ctx { rec: rc.clone(), int: f.int, wild: Rc::new(std::cell::Cell::new(false)) };
    let mut ids = Ids { next: 0, x: 0, v: 0, calc: 0, stop: 0, cv: vec![], pm: vec![], log: vec![] };
    ids.x = ids.new();
    ids.v = ids.new();
    ids.calc = ids.new();
    ids.stop = ids.new();
    let mut cc = CallCountData::new();
    let cfg;
    {
        let mut goal = WG { c: c.clone(), inside: f.inside.clone(), inner: (f.goal)() };
        let goal: Box<dyn Goal<Vec<T>> + '_> = if counted {
            Box::new(GoalCalcStatistics::new(&mut goal, &mut cc))
        } else {
            Box::new(goal)
        };
        let x = Rc::new(RefCell::new(vec![]));
        let mut opt = ParticleSwarmOptimizer::new(
            goal,
            Box::new(WS { c: c.clone(), g: ids.stop, inner: (f.stop)() }),
            Box::new(WX { c: c.clone(), g: ids.x, inner: (f.x)() }),
            Box::new(WV { c: c.clone(), g: ids.v, inner: (f.v)() }),
            Box::new(WC {
                c: c.clone(),
                g: ids.calc,
                x: x.clone(),
                full: f.full,
                count: 0,
                probe: f.probe.clone(),
                kept: vec![],
                inner: (f.calc)(),
            }),
        );
        let wcv = |ids: &mut Ids| -> Vec<Box<dyn PostVelocityCalc<T>>> {
            ids.cv.clear();
            (f.cvs)()
                .into_iter()
                .map(|inner| {
                    let g = ids.new();
                    ids.cv.push(g);
                    Box::new(WCV { c: c.clone(), g, x: x.clone(), inner }) as Box<dyn PostVelocityCalc<T>>
                })
                .collect()
        };
        let wpm = |ids: &mut Ids| -> Vec<Box<dyn PostMove<T>>> {
            ids.pm.clear();
            (f.pms)()
                .into_iter()
                .map(|inner| {
                    let g = ids.new();
                    ids.pm.push(g);
                    Box::new(WPM { c: c.clone(), g, inner }) as Box<dyn PostMove<T>>
                })
                .collect()
        };
        let wlog = |ids: &mut Ids| -> Vec<Box<dyn Logger<Vec<T>>>> {
            ids.log.clear();
            (0..(f.nlog)())
                .map(|_| {
                    let g = ids.new();
                    ids.log.push(g);
                    Box::new(WL { c: c.clone(), g }) as Box<dyn Logger<Vec<T>>>
                })
                .collect()
        };
        let v = wcv(&mut ids);
        if !v.is_empty() {
            opt.set_post_velocity_calc(v);
        }
        let v = wpm(&mut ids);
        if !v.is_empty() {
            opt.set_post_moves(v);
        }
        let v = wlog(&mut ids);
        if !v.is_empty() {
            opt.set_loggers(v);
        }
        cfg = ids.j(f);
        for cmd in cmds {
            let r = match cmd {
                PCmd::Find(n) | PCmd::Next(n) => {
                    env.borrow_mut().left = *n;
                    let find = matches!(cmd, PCmd::Find(_));
                    c.push(if find { "find" } else { "nextit" }, vec![]);
                    let t = ticks();
                    let q = guarded(|| {
                        let b = if find { opt.find_min() } else { opt.next_iterations() };
                        let b = c.sol(&b);
                        c.push("ret", vec![("b", b)]);
                    });
                    rc.borrow_mut().calls = ticks() - t;
                    q
                }
                PCmd::Reseed(x) => {
                    let mut e = env.borrow_mut();
                    e.r = R::new(*x);
                    e.nval = 0;
                    trng::seed(*x);
                    rc.borrow_mut().clear();
                    Ok(())
                }
                PCmd::Crash(find, n, at) => {
                    env.borrow_mut().left = *n;
                    let x = bombed(*at, || {
                        if *find {
                            opt.find_min();
                        } else {
                            opt.next_iterations();
                        }
                    });
                    rc.borrow_mut().aborts.extend(x);
                    Ok(())
                }
                cmd => {
                    match cmd {
                        PCmd::SetStop => {
                            ids.stop = ids.new();
                            opt.set_stop_checker(Box::new(WS { c: c.clone(), g: ids.stop, inner: (f.stop)() }))
                        }
                        PCmd::SetLoggers => {
                            let l = wlog(&mut ids);
                            opt.set_loggers(l)
                        }
                        PCmd::SetPostMoves => {
                            let l = wpm(&mut ids);
                            opt.set_post_moves(l)
                        }
                        _ => {
                            let l = wcv(&mut ids);
                            opt.set_post_velocity_calc(l)
                        }
                    }
                    c.push("set", vec![("cfg", ids.j(f))]);
                    Ok(())
                }
            };
            if let Err(m) = r {
                let mut r = rc.borrow_mut();
                r.limit = usize::MAX;
                r.push("panic", vec![("msg", s(&m))]);
                break;
            }
        }
    }
    if counted {
        let n = i(cc.get_call_count().iter().sum::<usize>());
        c.push("cc", vec![("n", n)]);
    }
    let ev = std::mem::take(&mut rc.borrow_mut().ev);
    Trace { id: id.to_string(), cfg, ev, vals: Vals::Rank }
}
