//! Scenarios for the particle swarm optimizer.

use crate::j::*;
use crate::out::Out;
use crate::pso::*;
use crate::rng::R;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::stopchecker::*;
use optlib::{AlgorithmState, Goal, GoalFromFunction};
use rand::rngs::thread as trng;
use std::cell::RefCell;
use std::rc::Rc;

/// How long searches are: 0 short, 1 long, 2 very long, 3 many short calls.
fn cmds(r: &mut R, long: usize) -> Vec<PCmd> {
    let mut c = vec![];
    let its = |r: &mut R| {
        if long == 2 {
            r.range(300, 1100) as usize
        } else if long == 1 {
            r.range(30, 120) as usize
        } else {
            *r.pick(&[0, 0, 1, 1, 2, 3, 5])
        }
    };
    let n = its(r);
    c.push(PCmd::Find(n));
    let calls = match long {
        0 => r.below(6),
        1 => r.below(3),
        2 => r.below(2),
        _ => r.range(10, 40) as usize,
    };
    for _ in 0..calls {
        for _ in 0..r.below(3) {
            if r.chance(50) {
                let x = r.pick(&[PCmd::SetStop, PCmd::SetLoggers, PCmd::SetPostMoves, PCmd::SetPostVelocity]);
                c.push(x.clone());
            }
        }
        let n = its(r);
        c.push(if r.chance(55) { PCmd::Next(n) } else { PCmd::Find(n) });
    }
    c
}

fn counts(r: &mut R, max: usize) -> Vec<usize> {
    (0..3).map(|_| r.below(max + 1)).collect()
}

fn scripted_run<T: Fl + num::NumCast>(id: &str, r: &mut R, kind: usize) -> Trace {
    let e = PEnv::new(R::new(r.next()));
    let long = match r.below(200) {
        0..=15 => 1,
        16..=18 => 2,
        19..=23 => 3,
        _ => 0,
    };
    let big = long == 0 && r.chance(10);
    let huge = big && r.chance(15);
    let wide = long == 0 && !big && r.chance(7);
    let wild = kind == 2;
    {
        let mut m = e.borrow_mut();
        m.n0 = if huge {
            *r.pick(&[130, 257, 300])
        } else if big {
            r.range(30, 90) as usize
        } else if long == 2 {
            r.range(1, 2) as usize
        } else {
            *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6])
        };
        m.dim = if wide { *r.pick(&[4, 6, 9, 20]) } else { *r.pick(&[0, 1, 1, 2, 3]) };
        m.span = *r.pick(&[1, 3, 5]);
        m.valmode = r.below(10);
        m.wild = if wild { *r.pick(&[5, 20, 60]) } else { 0 };
    }
    let most = if wide { 9 } else if long == 2 { 1 } else { 3 };
    let (a, b, l) = (counts(r, most), counts(r, most), counts(r, most));
    let mut f = scripted::<T>(&e, a, b, l);
    f.int = !wild;
    if !wild && !big {
        f.probe = Some(Probe {
            r: R::new(r.next()),
            rate: 15,
            pair: (r.below(6), 0),
            draws: 3,
            kinds: vec![0, 1, 2, 3, 4],
        });
        let p = f.probe.as_mut().unwrap();
        p.pair.1 = (p.pair.0 + r.range(1, 5) as usize) % 6;
    }
    if r.chance(25) && !wild {
        // the boundary correction comes last
        let dim = e.borrow().dim;
        let iv: Vec<(T, T)> = (0..dim)
            .map(|_| {
                let lo = r.range(-4, 3);
                (T::f(lo as f64), T::f((lo + r.range(0, 4)) as f64))
            })
            .collect();
        let iv2 = iv.clone();
        let pms = f.pms;
        f.pms = Box::new(move || {
            let mut v = pms();
            v.push(Box::new(MoveToBoundary::new(iv.clone())));
            v
        });
        f.inside = Some(Rc::new(move |x: &[T]| inside(x, &iv2)));
        f.boxed = true;
    }
    let cs = cmds(r, long);
    let counted = r.chance(50);
    run(id, &e, &f, &cs, counted)
}

/// Many probes of the rules with fixed terms.
fn rules_run<T: Fl + num::NumCast>(id: &str, r: &mut R, k: usize) -> Trace {
    // the rule with six terms has most pairs
    let kind = [0, 1, 2, 3, 4, 4, 4, 4][k % 8];
    let e = PEnv::new(R::new(r.next()));
    {
        let mut m = e.borrow_mut();
        m.n0 = 4;
        m.dim = 3;
        m.span = 4;
        m.valmode = *r.pick(&[4, 4, 4, 5, 7]);
    }
    let mut f = scripted::<T>(&e, vec![0], vec![0], vec![0]);
    let first = (k / 8) % 6;
    f.probe = Some(Probe {
        r: R::new(r.next()),
        rate: 100,
        pair: (first, (first + 1 + (k / 2 + k / 48) % 5) % 6),
        draws: 8,
        kinds: vec![kind],
    });
    let mut t = run(id, &e, &f, &[PCmd::Find(r.range(15, 40) as usize)], false);
    if k % 8 == 2 {
        trng::seed(r.next());
        inertia_events::<T>(&mut t.ev, r);
    }
    t
}

struct WeightSpy<T> {
    asked: Rc<RefCell<Vec<usize>>>,
    w: T,
}
impl<T: Copy> Inertia<T> for WeightSpy<T> {
    fn get(&mut self, it: usize) -> T {
        self.asked.borrow_mut().push(it);
        self.w
    }
}
struct Asked<T> {
    inner: Box<dyn VelocityCalculator<T>>,
    asked: Rc<RefCell<Vec<usize>>>,
    to: Rc<RefCell<Vec<J>>>,
    most: i64,
    r: R,
}
impl<T: Fl + num::NumCast> VelocityCalculator<T> for Asked<T> {
    fn calc_new_velocity(&mut self, sw: &Swarm<T>, p: &Particle<T>) -> Vec<T> {
        self.asked.borrow_mut().clear();
        let v = self.inner.calc_new_velocity(sw, p);
        let it: usize = AlgorithmState::get_iteration(sw);
        // around the powers of two, and here and there
        let near = it < 4 || (it + 2).next_power_of_two() - it <= 2 || it.is_power_of_two() || (it - 1).is_power_of_two();
        if near || self.r.below(self.most as usize) < 20 {
            self.to.borrow_mut().push(J::O(vec![("e", s("weigh")), ("it", i(it)), ("asked", us(&self.asked.borrow()))]));
        }
        v
    }
}
/// What the inertia is asked for in a very long search, and the linear one far on.
fn inertia_events<T: Fl + num::NumCast>(ev: &mut Vec<J>, r: &mut R) {
    let asked = Rc::new(RefCell::new(vec![]));
    let to = Rc::new(RefCell::new(vec![]));
    let most = *r.pick(&[1030usize, 5000, 66_000, 66_000, 140_000]);
    let calc = Asked {
        inner: Box::new(InertiaVelocityCalculator::new(
            T::f(0.5),
            T::f(0.25),
            Box::new(WeightSpy { asked: asked.clone(), w: T::f(0.5) }),
        )),
        asked,
        to: to.clone(),
        most: most as i64,
        r: R::new(r.next()),
    };
    let res = crate::core::guarded(|| {
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(GoalFromFunction::new(|x: &Vec<T>| x[0].d() * x[0].d())),
            Box::new(MaxIterations::new(most)),
            Box::new(RandomCoordinatesInitializer::new(vec![(T::f(-4.0), T::f(4.0))], 1)),
            Box::new(ZeroVelocityInitializer::new(1, 1)),
            Box::new(calc),
        );
        optlib::Optimizer::find_min(&mut o);
    });
    ev.append(&mut to.borrow_mut());
    for _ in 0..6 {
        let w = [r.range(0, 4), r.range(0, 8)];
        let unit = if r.chance(50) { 1usize << r.range(0, 23) } else { r.range(1, 1 << 20) as usize };
        let n = unit * 8;
        let mut x = LinearInertia::new(T::f(w[0] as f64 / 4.0), T::f(w[1] as f64 / 4.0), n);
        for _ in 0..5 {
            let t = if r.chance(20) { n + r.range(0, 1 << 24) as usize } else { unit * r.below(9) };
            let o = x.get(t).d() * 128.0;
            ev.push(J::O(vec![
                ("e", s("weight")),
                ("w", ints(&w)),
                ("n", i(n)),
                ("t", i(t)),
                ("o", ints(&[int_code((o - 1e-3).floor()), int_code((o + 1e-3).ceil())])),
            ]));
        }
    }
    if res.is_err() {
        ev.push(J::O(vec![("e", s("panic"))]));
    }
}

/// Several searches and continuations of one optimizer, with the rule that looks at everything.
fn again_run<T: Fl + num::NumCast>(id: &str, r: &mut R) -> Trace {
    let e = PEnv::new(R::new(r.next()));
    {
        let mut m = e.borrow_mut();
        m.n0 = *r.pick(&[1, 2, 3]);
        m.dim = *r.pick(&[1, 2]);
        m.span = *r.pick(&[3, 5]);
        m.valmode = *r.pick(&[4, 4, 4, 0, 7, 5]);
    }
    let mut f = scripted::<T>(&e, vec![0], vec![0], vec![0]);
    f.probe = Some(Probe { r: R::new(r.next()), rate: 70, pair: (0, 1), draws: 1, kinds: vec![4] });
    let mut c = vec![PCmd::Find(r.range(4, 8) as usize)];
    for _ in 0..r.range(2, 5) {
        let n = r.range(1, 5) as usize;
        c.push(if r.chance(50) { PCmd::Next(n) } else { PCmd::Find(n) });
    }
    run(id, &e, &f, &c, false)
}

fn inside<T: Fl>(x: &[T], iv: &[(T, T)]) -> bool {
    x.len() == iv.len() && x.iter().zip(iv.iter()).all(|(v, b)| *v >= b.0 && *v <= b.1)
}

struct Spoil<G> {
    inner: G,
    r: Rc<RefCell<R>>,
}
impl<T, G: Goal<T>> Goal<T> for Spoil<G> {
    fn get(&mut self, x: &T) -> f64 {
        let v = self.inner.get(x);
        let mut r = self.r.borrow_mut();
        if r.chance(25) {
            *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, v])
        } else {
            v
        }
    }
}

macro_rules! shipped {
    ($name:ident, $t:ty) => {
        fn $name(id: &str, r: &mut R) -> Trace {
            type T = $t;
            let e = PEnv::new(R::new(r.next()));
            let dim = if r.chance(4) { *r.pick(&[8usize, 17, 40]) } else { *r.pick(&[1usize, 1, 2, 3, 5]) };
            let iv: Vec<(T, T)> = (0..dim)
                .map(|_| {
                    let lo = (r.range(-40, 30) as T) / 4.0;
                    (lo, lo + (r.range(1, 40) as T) / 4.0)
                })
                .collect();
            let n = if r.chance(4) { 260 } else { *r.pick(&[1usize, 2, 3, 8, 30, 80]) };
            let which = r.below(4);
            let spoil = r.chance(40);
            let er = Rc::new(RefCell::new(R::new(r.next())));
            let goal = move || -> Box<dyn Goal<Vec<T>>> {
                let f: fn(&Vec<T>) -> f64 = match which {
                    0 => optlib_testfunc::paraboloid,
                    1 => optlib_testfunc::schwefel,
                    2 => optlib_testfunc::rastrigin,
                    _ => |x: &Vec<T>| x.iter().fold(0.0, |s, v| s + (*v as f64)),
                };
                if spoil {
                    Box::new(Spoil { inner: GoalFromFunction::new(f), r: er.clone() })
                } else {
                    Box::new(GoalFromFunction::new(f))
                }
            };
            let (iv1, iv2, iv3, iv4) = (iv.clone(), iv.clone(), iv.clone(), iv.clone());
            let (vk, ck, cvk, pmk, stopk) = (r.below(2), r.below(4), r.below(4), r.below(5), r.below(4));
            let maxit = *r.pick(&[0usize, 1, 2, 5, 12]);
            let prob = *r.pick(&[0.0f32, 0.2, 1.0]);
            let e2 = e.clone();
            let nl = counts(r, 2);
            let f: PFac<T> = PFac {
                x: Box::new(move || Box::new(RandomCoordinatesInitializer::new(iv1.clone(), n))),
                v: Box::new(move || {
                    if vk == 0 {
                        Box::new(ZeroVelocityInitializer::new(dim, n))
                    } else {
                        Box::new(RandomVelocityInitializer::new(vec![(-1.0 as T, 1.0 as T); dim], n))
                    }
                }),
                goal: Box::new(goal),
                stop: Box::new(move || match stopk {
                    0 => Box::new(CompositeAny::new(vec![
                        Box::new(Threshold::new(-1e300)),
                        Box::new(MaxIterations::new(maxit)),
                    ])),
                    1 => Box::new(CompositeAny::new(vec![
                        Box::new(GoalNotChange::new(3, 1e-3)),
                        Box::new(MaxIterations::new(maxit)),
                    ])),
                    _ => Box::new(PStop(e2.clone())),
                }),
                calc: Box::new(move || match ck {
                    0 => Box::new(ClassicVelocityCalculator::new(2.0 as T, 2.0 as T)),
                    1 => Box::new(CanonicalVelocityCalculator::new(2.5 as T, 2.5 as T, 0.9 as T)),
                    2 => Box::new(InertiaVelocityCalculator::new(
                        1.5 as T,
                        1.5 as T,
                        Box::new(LinearInertia::new(0.1 as T, 0.9 as T, 5)),
                    )),
                    _ => Box::new(NegativeReinforcement::new(
                        0.9 as T, 0.8 as T, 0.7 as T, 0.1 as T, 0.2 as T, 0.3 as T, 0.7 as T,
                    )),
                }),
                cvs: Box::new(move || {
                    let d: Box<dyn PostVelocityCalc<T>> = Box::new(MaxVelocityDimensions::new(vec![1.5 as T; dim]));
                    let m: Box<dyn PostVelocityCalc<T>> = Box::new(MaxVelocityAbs::new(2.0 as T));
                    match cvk {
                        0 => vec![],
                        1 => vec![d],
                        2 => vec![m],
                        _ => vec![d, m],
                    }
                }),
                pms: Box::new(move || {
                    let b: Box<dyn PostMove<T>> = Box::new(MoveToBoundary::new(iv2.clone()));
                    let t: Box<dyn PostMove<T>> = Box::new(RandomTeleport::new(iv3.clone(), prob));
                    match pmk {
                        0 => vec![],
                        1 => vec![t],
                        2 | 3 => vec![b],
                        _ => vec![t, b],
                    }
                }),
                nlog: Box::new(cyc(nl)),
                inside: Some(Rc::new(move |x: &[T]| inside(x, &iv4))),
                boxed: pmk >= 2,
                int: false,
                full: 10,
                probe: None,
            };
            if r.chance(20) {
                trng::set_mode(trng::Mode::Mixed);
            }
            let long = if n < 10 { *r.pick(&[0, 0, 0, 0, 0, 0, 0, 1, 1, 3]) } else { 0 };
            let cs = cmds(r, long);
            let counted = r.chance(50);
            run(id, &e, &f, &cs, counted)
        }
    };
}
shipped!(shipped64, f64);
shipped!(shipped32, f32);

/// One search of the given kind.
pub fn scenario(id: &str, r: &mut R, kind: usize) -> Trace {
    match kind {
        0 | 1 | 2 => scripted_run::<f64>(id, r, 0),
        3 | 4 => scripted_run::<f32>(id, r, 1),
        5 => scripted_run::<f64>(id, r, 2),
        6 => shipped64(id, r),
        _ => shipped32(id, r),
    }
}

pub fn suite(out: &mut Out, seed: u64, n: usize, what: &str) {
    let only_rules = what == "rules-";
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x5EED_0000);
        trng::seed(r.next());
        let id = format!("pso-{}{}-{}", what, seed, k);
        out.begin(&id);
        let t = if only_rules {
            if k % 2 == 0 {
                rules_run::<f64>(&id, &mut r, k / 2)
            } else {
                rules_run::<f32>(&id, &mut r, k / 2)
            }
        } else if what == "again-" {
            if k % 2 == 0 {
                again_run::<f64>(&id, &mut r)
            } else {
                again_run::<f32>(&id, &mut r)
            }
        } else {
            scenario(&id, &mut r, k % 8)
        };
        out.emit(t);
    }
}

pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("pso-script-{}", k);
        out.begin(&id);
        let j = parse(line);
        let e = PEnv::new(R::new(k as u64));
        let mut cs = vec![];
        let (mut nc, mut np, mut nl) = (vec![], vec![], vec![]);
        {
            let mut m = e.borrow_mut();
            m.span = 3;
            let vecs = |x: &J| -> Vec<Vec<i64>> { x.ga("x").iter().map(|v| v.is()).collect() };
            for x in j.arr() {
                match x.gs("c") {
                    "cfg" | "set" => {
                        nc.push(x.gi("ncv") as usize);
                        np.push(x.gi("npm") as usize);
                        nl.push(x.gi("nlog") as usize);
                        if x.gs("c") == "cfg" {
                            m.dim = x.gi("dim") as usize;
                        } else {
                            cs.extend([PCmd::SetPostVelocity, PCmd::SetPostMoves, PCmd::SetLoggers, PCmd::SetStop]);
                        }
                    }
                    "find" => cs.push(PCmd::Find(0)),
                    "next" => cs.push(PCmd::Next(0)),
                    "x" => m.xinit.push_back(vecs(x)),
                    "v" => m.vinit.push_back(vecs(x)),
                    "calc" => m.calcs.push_back(x.get("x").unwrap().is()),
                    "cv" => m.cvs.push_back(x.get("x").unwrap().is()),
                    "pm" => m.pms.push_back(x.get("x").unwrap().is()),
                    "val" => m.vals.push_back(val_of(x.gi("x"))),
                    "test" => m.tests.push_back(x.gb("x")),
                    _ => panic!("script"),
                }
            }
        }
        let mut f = scripted::<f64>(&e, nc, np, nl);
        f.probe = Some(Probe { r: R::new(k as u64), rate: 10, pair: (k % 6, (k + 1 + (k / 6) % 5) % 6), draws: 2, kinds: vec![0, 1, 2, 3, 4] });
        let t = run(&id, &e, &f, &cs, k % 2 == 0);
        out.emit(t);
    }
}
