//! Velocity limits, position corrections and random initialisation.

use crate::core::guarded;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use num::Float;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::Creator;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::{CoordinatesInitializer, PostMove, PostVelocityCalc, VelocityInitializer};
use optlib::tools::RandomVectorCreator;
use rand::distributions::uniform::SampleUniform;
use rand::rngs::thread as trng;

trait Fl: Float + SampleUniform + 'static {}
impl Fl for f32 {}
impl Fl for f64 {}

fn d<T: num::ToPrimitive>(x: T) -> f64 {
    x.to_f64().unwrap()
}
fn t<T: Fl>(x: f64) -> T {
    T::from(x).unwrap()
}
fn vs<T: num::ToPrimitive + Copy>(x: &[T]) -> J {
    a(x.iter().map(|y| J::V(d(*y))).collect())
}
fn los<T: num::ToPrimitive + Copy>(b: &[(T, T)]) -> J {
    a(b.iter().map(|y| J::V(d(y.0))).collect())
}
fn his<T: num::ToPrimitive + Copy>(b: &[(T, T)]) -> J {
    a(b.iter().map(|y| J::V(d(y.1))).collect())
}
fn panicked() -> J {
    J::O(vec![("e", s("panic"))])
}

// ---- velocity limits ----

fn limit_dims<T: Fl>(ev: &mut Vec<J>, m: &[T], list: &[Vec<T>]) {
    let mut c = MaxVelocityDimensions::new(m.to_vec());
    for v in list {
        let r = guarded(|| c.correct_velocity(v.clone()));
        ev.push(match r {
            Ok(o) => J::O(vec![
                ("e", s("dims")),
                ("m", vs(m)),
                ("n", a(m.iter().map(|x| J::V(-d(*x))).collect())),
                ("v", vs(v)),
                ("o", vs(&o)),
            ]),
            Err(_) => panicked(),
        });
    }
}

/// y as an integer if it is one up to rounding
fn near(y: f64, tol: f64) -> J {
    let n = y.round();
    if (y - n).abs() <= tol * y.abs().max(1.0) && n.abs() < 10_000.0 {
        J::I(n as i64)
    } else {
        // equals no expected value
        J::I(99_999)
    }
}

/// v, m: integers times 2^k
fn limit_abs<T: Fl>(ev: &mut Vec<J>, m: i64, h: i64, list: &[Vec<i64>], k: i32) {
    let two = t::<T>(2.0);
    // powers of two beyond the range of powi in one step
    let scale = |x: f64| t::<T>(x) * two.powi(k / 2) * two.powi(k - k / 2);
    let unscale = |x: T| d(x * two.powi(-(k / 2)) * two.powi(-(k - k / 2)));
    let tol = if std::mem::size_of::<T>() == 4 { 1e-5 } else { 1e-12 };
    let mut c = MaxVelocityAbs::new(scale(m as f64));
    for v in list {
        let x: Vec<T> = v.iter().map(|y| scale(*y as f64)).collect();
        let r = guarded(|| c.correct_velocity(x.clone()));
        ev.push(match r {
            Ok(o) => J::O(vec![
                ("e", s("abs")),
                ("h", J::I(h)),
                ("m", J::I(m)),
                ("v", ints(v)),
                ("xv", vs(&x)),
                ("xo", vs(&o)),
                ("o", a(o.iter().map(|y| near(unscale(*y), tol)).collect())),
                (
                    "br",
                    a(o.iter()
                        .map(|y| {
                            let z = unscale(*y).abs() * 64.0;
                            if z < 1500.0 {
                                ints(&[z.floor() as i64, z.ceil() as i64])
                            } else {
                                // too large for every expected value
                                ints(&[1499, 1500])
                            }
                        })
                        .collect()),
                ),
                (
                    "sg",
                    a(o.iter()
                        .map(|y| J::I(if d(*y) > 0.0 { 1 } else if d(*y) < 0.0 { -1 } else { 0 }))
                        .collect()),
                ),
            ]),
            Err(_) => panicked(),
        });
    }
}

fn speeds<T: Fl>(r: &mut R, m: &[T]) -> Vec<T> {
    m.iter()
        .map(|b| {
            let e = T::epsilon();
            let x = match r.below(14) {
                0 => T::infinity(),
                1 => T::zero(),
                2 | 3 => *b,
                4 => *b + *b * e,
                5 => *b - *b * e,
                6 => *b * t(2.0),
                7 => *b * t(0.5),
                8 => T::max_value(),
                9 => T::min_positive_value(),
                10 => t(1.0),
                _ => *b * t(2.0 * r.unit()),
            };
            let x = if x.is_nan() { *b } else { x };
            if r.chance(50) {
                -x
            } else {
                x
            }
        })
        .collect()
}

fn limits<T: Fl>(ev: &mut Vec<J>, r: &mut R) {
    for _ in 0..3 {
        let dim = if r.chance(5) { *r.pick(&[9, 33, 130, 300, 1100, 5000]) } else { r.below(6) };
        let m: Vec<T> = (0..dim)
            .map(|_| match r.below(8) {
                0 => T::zero(),
                1 => T::infinity(),
                2 => T::min_positive_value(),
                3 => T::max_value(),
                4 => t(r.range(1, 10) as f64),
                5 => t(1e-5 * r.unit()),
                _ => t(1e3 * r.unit()),
            })
            .collect();
        let list: Vec<Vec<T>> = (0..3).map(|_| speeds(r, &m)).collect();
        limit_dims(ev, &m, &list);
    }
    let roots: [(&[i64], i64); 9] = [
        (&[], 0),
        (&[1], 1),
        (&[3, 4], 5),
        (&[1, 2, 2], 3),
        (&[2, 3, 6], 7),
        (&[1, 4, 8], 9),
        (&[1, 1, 1, 1], 2),
        (&[1, 1, 3, 5], 6),
        (&[5, 12], 13),
    ];
    let wide = std::mem::size_of::<T>() == 8;
    for n in 0..4 {
        let p = r.pick(&roots).clone();
        let k = match r.below(4) {
            0 => r.range(-4, 4),
            1 => if wide { r.range(-1000, 1000) } else { r.range(-100, 110) },
            2 => if wide { r.range(480, 1000) } else { r.range(55, 110) },
            _ => 0,
        } as i32;
        let b = r.range(0, 6);
        let list: Vec<Vec<i64>> = (0..2)
            .map(|_| {
                let c = if r.chance(20) { b } else { r.range(0, 12) };
                let mut v: Vec<i64> = p.0.iter().map(|x| c * x * if r.chance(50) { -1 } else { 1 }).collect();
                if r.chance(30) {
                    v.push(0);
                }
                if r.chance(4) {
                    v.resize(*r.pick(&[9, 33, 130, 400, 1100, 5000]), 0);
                }
                r.shuffle(&mut v);
                v
            })
            .collect();
        for v in &list {
            let q: i64 = v.iter().map(|x| x * x).sum();
            limit_abs::<T>(ev, b * p.1, (q as f64).sqrt() as i64, &[v.clone()], k);
        }
        if n < 2 {
            let dim = r.below(5);
            let m = r.range(0, 25);
            let list: Vec<Vec<i64>> = (0..2).map(|_| (0..dim).map(|_| r.range(-15, 15)).collect()).collect();
            limit_abs::<T>(ev, m, 0, &list, k);
        }
    }
}

// ---- position corrections ----

/// a box; `wide`: every interval has many points
fn gen_box<T: Fl>(r: &mut R, dim: usize, wide: bool) -> Vec<(T, T)> {
    (0..dim)
        .map(|_| {
            let lo: T = match r.below(6) {
                0 => T::zero(),
                1 => t(-1e-6 * r.unit()),
                2 => t(-1e6 * r.unit()),
                3 => t(5.0 * r.unit()),
                4 => t(-1.0),
                _ => t(r.range(-300, 300) as f64),
            };
            let small = lo.abs() * t(1e-3) + t(1e-9);
            let hi = match r.below(6) {
                0 if !wide => lo,
                1 if !wide => lo + lo.abs() * T::epsilon() + T::min_positive_value(),
                0 | 1 => lo + small,
                2 => lo + t(1e6 * (r.unit() + 0.01)),
                3 => lo + t(1e15),
                _ => lo + t(r.range(1, 400) as f64),
            };
            (lo, hi)
        })
        .collect()
}

fn point<T: Fl>(r: &mut R, b: &[(T, T)]) -> Vec<T> {
    b.iter()
        .map(|(lo, hi)| {
            let e = |x: T| x.abs() * T::epsilon() + T::min_positive_value();
            match r.below(16) {
                0 => T::nan(),
                1 => T::infinity(),
                2 => T::neg_infinity(),
                3 => *lo,
                4 => *hi,
                5 => *lo - e(*lo),
                6 => *hi + e(*hi),
                7 => T::max_value(),
                8 => -T::max_value(),
                9 => *lo - t(1.0),
                10 => *hi + t(1.0),
                11 => T::zero(),
                _ => *lo + (*hi - *lo) * t(r.unit()),
            }
        })
        .collect()
}

fn outside<T: Fl>(r: &mut R, b: &[(T, T)]) -> Vec<T> {
    b.iter()
        .map(|(lo, hi)| {
            if r.chance(50) {
                *lo - lo.abs() - t(1.0)
            } else {
                *hi + hi.abs() + t(1.0)
            }
        })
        .collect()
}

fn boundary<T: Fl>(ev: &mut Vec<J>, b: &[(T, T)], list: &[Vec<T>]) {
    let mut c = MoveToBoundary::new(b.to_vec());
    for x in list {
        let mut o = x.clone();
        let r = guarded(|| c.post_move(&mut o));
        ev.push(if r.is_err() {
            panicked()
        } else {
            J::O(vec![("e", s("bound")), ("lo", los(b)), ("hi", his(b)), ("x", vs(x)), ("o", vs(&o))])
        });
    }
}

/// percent: 0..100
fn teleport<T: Fl>(ev: &mut Vec<J>, b: &[(T, T)], percent: i64, list: &[Vec<T>]) {
    let r = guarded(|| {
        let mut c = RandomTeleport::new(b.to_vec(), percent as f32 / 100.0);
        for x in list {
            let mut o = x.clone();
            c.post_move(&mut o);
            ev.push(J::O(vec![
                ("e", s("tele")),
                ("p", J::I(percent)),
                ("lo", los(b)),
                ("hi", his(b)),
                ("x", vs(x)),
                ("o", vs(&o)),
            ]));
        }
    });
    if r.is_err() {
        ev.push(panicked());
    }
}

fn quarters<T: Fl>(b: &[(T, T)]) -> (J, J) {
    let q = |k: f64| a(b.iter().map(|(lo, hi)| J::V(d(*lo) + (d(*hi) - d(*lo)) * k)).collect());
    (q(0.25), q(0.75))
}

fn fill<T: Fl>(b: &[(T, T)], list: &[Vec<T>]) -> J {
    let (q1, q3) = quarters(b);
    J::O(vec![
        ("e", s("fill")),
        ("lo", los(b)),
        ("hi", his(b)),
        ("q1", q1),
        ("q3", q3),
        ("o", a(list.iter().map(|x| vs(x)).collect())),
    ])
}

fn moves<T: Fl>(ev: &mut Vec<J>, r: &mut R, big: bool) {
    for _ in 0..3 {
        let dim = if r.chance(5) { *r.pick(&[9, 33, 130, 300]) } else if big && r.chance(10) { 5000 } else { r.below(5) };
        let b: Vec<(T, T)> = gen_box(r, dim, false);
        let list: Vec<Vec<T>> = (0..4).map(|_| point(r, &b)).collect();
        boundary(ev, &b, &list);
        for mode in &[trng::Mode::Seeded, trng::Mode::Mixed, trng::Mode::Const(0), trng::Mode::Const(!0)] {
            trng::set_mode(*mode);
            teleport(ev, &b, 0, &list);
            let out: Vec<Vec<T>> = (0..3).map(|_| outside(r, &b)).collect();
            teleport(ev, &b, 100, &out);
            teleport(ev, &b, r.range(1, 99), &out);
        }
        trng::seed(r.next());
    }
    if big {
        // very small and very large probabilities: rare cases out of a million
        let b: Vec<(T, T)> = gen_box(r, 1, true);
        let x = outside(r, &b);
        for (ppm, whole) in &[(r.range(1, 900), false), (r.range(1, 900), true)] {
            let p = if *whole { 1.0 - *ppm as f32 / 1e6 } else { *ppm as f32 / 1e6 };
            let (n, mut hit) = (1_000_000, 0);
            let res = guarded(|| {
                let mut c = RandomTeleport::new(b.clone(), p);
                for _ in 0..n {
                    let mut o = x.clone();
                    c.post_move(&mut o);
                    hit += (o[0] != x[0]) as i64;
                }
            });
            ev.push(match res {
                Ok(_) => J::O(vec![("e", s("trare")), ("ppm", J::I(*ppm)), ("h", J::I(if *whole { n - hit } else { hit }))]),
                Err(_) => panicked(),
            });
        }
    }
    // what is refused
    for p in &[-0.01f32, 1.01, -1e-30, 1.0000001, f32::NAN, f32::INFINITY, 0.0, 1.0, 0.5] {
        let b: Vec<(T, T)> = gen_box(r, 1, true);
        let res = guarded(|| {
            RandomTeleport::new(b.clone(), *p);
        });
        ev.push(J::O(vec![
            ("e", s("prob")),
            ("zero", J::V(0.0)),
            ("one", J::V(1.0)),
            ("p", J::V(*p as f64)),
            ("refused", J::B(res.is_err())),
        ]));
    }
    if big {
        let dim = r.range(1, 3) as usize;
        let b: Vec<(T, T)> = gen_box(r, dim, true);
        let x = outside(r, &b);
        for percent in &[100, r.range(1, 99)] {
            let n = 4000;
            let (mut hit, mut part) = (0, 0);
            let mut got = vec![];
            let res = guarded(|| {
                let mut c = RandomTeleport::new(b.clone(), *percent as f32 / 100.0);
                for _ in 0..n {
                    let mut o = x.clone();
                    c.post_move(&mut o);
                    let changed = (0..dim).filter(|k| o[*k] != x[*k]).count();
                    if changed == dim {
                        hit += 1;
                        if got.len() < 500 {
                            got.push(o);
                        }
                    } else if changed > 0 {
                        part += 1;
                    }
                }
            });
            ev.push(if res.is_err() {
                panicked()
            } else {
                J::O(vec![("e", s("tfreq")), ("p", J::I(*percent)), ("n", J::I(n)), ("hit", J::I(hit)), ("part", J::I(part))])
            });
            if *percent == 100 {
                ev.push(fill(&b, &got));
            }
        }
    }
}

// ---- random initialisation ----

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Chromo,
    Coord,
    Vel,
    Vector,
}
fn name(k: Kind) -> J {
    s(match k {
        Kind::Chromo => "chromo",
        Kind::Coord => "coord",
        Kind::Vel => "vel",
        Kind::Vector => "vector",
    })
}

type Maker<T> = Box<dyn FnMut() -> Vec<Vec<T>>>;

fn maker<T: num::NumCast + PartialOrd + Clone + 'static>(k: Kind, n: usize, b: Vec<(T, T)>) -> Maker<T> {
    match k {
        Kind::Chromo => {
            let mut c = RandomCreator::new(n, b);
            Box::new(move || c.create())
        }
        Kind::Coord => {
            let mut c = RandomCoordinatesInitializer::new(b, n);
            Box::new(move || c.get_coordinates())
        }
        Kind::Vel => {
            let mut c = RandomVelocityInitializer::new(b, n);
            Box::new(move || c.get_velocity())
        }
        Kind::Vector => {
            let mut c = RandomVectorCreator::new();
            Box::new(move || (0..n).map(|_| c.create_vec(&b)).collect())
        }
    }
}

fn make<T: num::NumCast + PartialOrd + Copy + 'static>(ev: &mut Vec<J>, k: Kind, n: usize, b: &[(T, T)], calls: usize) {
    let r = guarded(|| {
        let mut c = maker(k, n, b.to_vec());
        for _ in 0..calls {
            let o = c();
            ev.push(J::O(vec![
                ("e", s("make")),
                ("k", name(k)),
                ("n", i(n)),
                ("lo", los(b)),
                ("hi", his(b)),
                ("o", a(o.iter().map(|x| vs(x)).collect())),
            ]));
        }
    });
    if r.is_err() {
        ev.push(panicked());
    }
}

fn refuse<T: num::NumCast + PartialOrd + Copy + 'static>(ev: &mut Vec<J>, k: Kind, n: usize, b: &[(T, T)]) {
    let r = guarded(|| {
        maker(k, n, b.to_vec())();
    });
    ev.push(J::O(vec![
        ("e", s("refuse")),
        ("k", name(k)),
        ("n", i(n)),
        ("lo", los(b)),
        ("hi", his(b)),
        ("refused", J::B(r.is_err())),
    ]));
}

/// One creator serves several lists of intervals.
fn reuse<T: Fl>(ev: &mut Vec<J>, r: &mut R) {
    let mut c = RandomVectorCreator::new();
    let mut dim = r.range(1, 4) as usize;
    for step in 0..r.range(2, 5) {
        if r.chance(30) {
            dim = r.range(0, 5) as usize;
        }
        let bad = dim > 0 && r.chance(20);
        if r.chance(25) {
            let b: Vec<(i32, i32)> = (0..dim).map(|k| (k as i32 * 100 - 50, k as i32 * 100 - 40)).collect();
            reused(ev, &mut c, &b, false);
        } else if step % 2 == 1 && r.chance(40) {
            let mut b: Vec<(f32, f32)> = gen_box(r, dim, true);
            if bad {
                b[0] = (b[0].1, b[0].0);
            }
            reused(ev, &mut c, &b, bad);
        } else {
            let mut b: Vec<(T, T)> = gen_box(r, dim, true);
            if bad {
                b[dim - 1].0 = b[dim - 1].1;
            }
            reused(ev, &mut c, &b, bad);
        }
    }
}
fn reused<T: num::NumCast + PartialOrd + Copy + 'static>(ev: &mut Vec<J>, c: &mut RandomVectorCreator, b: &[(T, T)], bad: bool) {
    let list = b.to_vec();
    let res = guarded(|| c.create_vec(&list));
    let n = 1;
    if bad {
        ev.push(J::O(vec![
            ("e", s("refuse")),
            ("k", name(Kind::Vector)),
            ("n", i(n)),
            ("lo", los(b)),
            ("hi", his(b)),
            ("refused", J::B(res.is_err())),
        ]));
    } else {
        ev.push(match res {
            Ok(o) => J::O(vec![("e", s("make")), ("k", name(Kind::Vector)), ("n", i(n)), ("lo", los(b)), ("hi", his(b)), ("o", a(vec![vs(&o)]))]),
            Err(_) => panicked(),
        });
    }
}

const KINDS: [Kind; 4] = [Kind::Chromo, Kind::Coord, Kind::Vel, Kind::Vector];

fn creation<T: Fl>(ev: &mut Vec<J>, r: &mut R, big: bool) {
    for k in &KINDS {
        for mode in &[trng::Mode::Seeded, trng::Mode::Mixed, trng::Mode::Const(0), trng::Mode::Const(!0)] {
            let dim = if r.chance(4) { *r.pick(&[9usize, 33, 130]) } else { r.range(1, 5) as usize };
            let (dim, n) = match r.below(200) {
                0 if big => (1, 25_000),
                1 if big => (12_000, 2),
                _ if dim < 9 && r.chance(4) => (dim, *r.pick(&[40usize, 257, 300, 1100])),
                _ => (dim, r.range(1, 6) as usize),
            };
            let b: Vec<(T, T)> = gen_box(r, dim, true);
            trng::set_mode(*mode);
            make(ev, *k, n, &b, if n * dim > 9999 { 1 } else { 2 });
        }
        trng::seed(r.next());
        // integers
        let dim = r.range(1, 4) as usize;
        let b: Vec<(i32, i32)> = (0..dim)
            .map(|_| {
                let lo = r.range(-1000, 1000);
                (lo as i32, (lo + r.range(1, 50)) as i32)
            })
            .collect();
        make(ev, *k, r.range(1, 6) as usize, &b, 2);
        // refused or not
        let dim = r.range(1, 4) as usize;
        for what in 0..6 {
            let mut b: Vec<(T, T)> = gen_box(r, dim, true);
            let m = r.below(dim);
            let (lo, hi) = b[m];
            b[m] = match what {
                0 => (hi, lo),
                1 => (lo, lo),
                2 => (T::nan(), hi),
                3 => (lo, T::nan()),
                // nothing but rounding between them
                4 => (hi, hi - (hi.abs() * T::epsilon() + T::min_positive_value())),
                _ => (lo, hi),
            };
            refuse(ev, *k, r.range(1, 4) as usize, &b);
        }
        if *k == Kind::Chromo {
            let b: Vec<(T, T)> = gen_box(r, 2, true);
            refuse(ev, *k, 0, &b);
            refuse::<T>(ev, *k, 3, &[]);
        }
        if *k == Kind::Coord || *k == Kind::Vel {
            // no particles
            let b: Vec<(T, T)> = gen_box(r, 2, true);
            make(ev, *k, 0, &b, 1);
        }
    }
    trng::set_mode(*r.pick(&[trng::Mode::Seeded, trng::Mode::Mixed]));
    reuse::<T>(ev, r);
    trng::seed(r.next());
    for (n, dim) in &[(0usize, 2usize), (3, 0), (r.range(1, 6) as usize, r.range(1, 6) as usize), *r.pick(&[(300, 2), (2, 300), (1, 20_000), (20_000, 1), (1, 1)])] {
        let res = guarded(|| {
            let mut z = ZeroVelocityInitializer::new(*dim, *n);
            let o: Vec<Vec<T>> = z.get_velocity();
            o
        });
        ev.push(match res {
            Ok(o) => J::O(vec![
                ("e", s("zero")),
                ("n", i(*n)),
                ("dim", i(*dim)),
                ("o", a(o.iter().map(|x| a(x.iter().map(|y| J::I(int_code(d(*y)))).collect())).collect())),
            ]),
            Err(_) => panicked(),
        });
    }
    if big {
        for k in &KINDS {
            let dim = r.range(1, 4) as usize;
            let b: Vec<(T, T)> = gen_box(r, dim, true);
            // many vectors of few calls, or few vectors of many calls
            let n = *r.pick(&[1usize, 2, 500]);
            let mut got: Vec<Vec<T>> = vec![];
            let res = guarded(|| {
                let mut c = maker(*k, n, b.clone());
                for _ in 0..500 / n {
                    got.extend(c());
                }
            });
            ev.push(if res.is_err() { panicked() } else { fill(&b, &got) });
        }
    }
}

fn run(out: &mut Out, seed: u64, n: usize, name: &str, salt: u64, f: &dyn Fn(&mut Vec<J>, &mut R, usize)) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ salt);
        trng::seed(r.next());
        let id = format!("{}-{}-{}", name, seed, k);
        out.begin(&id);
        let mut ev = vec![];
        f(&mut ev, &mut r, k);
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Rank });
    }
}

pub fn suite_limits(out: &mut Out, seed: u64, n: usize) {
    run(out, seed, n, "limits", 0x1111_0000, &|ev, r, k| {
        if k % 2 == 0 {
            limits::<f64>(ev, r)
        } else {
            limits::<f32>(ev, r)
        }
    });
}
pub fn suite_moves(out: &mut Out, seed: u64, n: usize) {
    run(out, seed, n, "moves", 0x2222_0000, &|ev, r, k| {
        let big = k % 8 < 2;
        if k % 2 == 0 {
            moves::<f64>(ev, r, big)
        } else {
            moves::<f32>(ev, r, big)
        }
    });
}
pub fn suite_creation(out: &mut Out, seed: u64, n: usize) {
    run(out, seed, n, "creation", 0x3333_0000, &|ev, r, k| {
        let big = k % 4 < 2;
        if k % 2 == 0 {
            creation::<f64>(ev, r, big)
        } else {
            creation::<f32>(ev, r, big)
        }
    });
}

/// Boxes and points enumerated by TLC: all corrections and limits on each.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("box-script-{}", k);
        out.begin(&id);
        trng::seed(k as u64 + 1);
        let j = parse(line);
        let b: Vec<(f64, f64)> = j.ga("iv").iter().map(|x| (val_of(x.is()[0]), val_of(x.is()[1]))).collect();
        let x: Vec<f64> = j.ga("x").iter().map(|x| val_of(x.int())).collect();
        let mut ev = vec![];
        boundary(&mut ev, &b, &[x.clone()]);
        teleport(&mut ev, &b, 0, &[x.clone()]);
        if (0..x.len()).all(|k| !(b[k].0 <= x[k] && x[k] <= b[k].1)) {
            teleport(&mut ev, &b, 100, &[x.clone()]);
            teleport(&mut ev, &b, 50, &[x.clone(), x.clone(), x.clone()]);
        }
        if x.iter().all(|y| !y.is_nan()) {
            let m: Vec<f64> = b.iter().map(|y| y.1 - 1.0).collect();
            let y: Vec<f64> = x.iter().map(|y| -y).collect();
            limit_dims(&mut ev, &m, &[x.clone(), y]);
        }
        if x.iter().all(|y| y.is_finite()) {
            let v: Vec<i64> = x.iter().map(|y| *y as i64 - 1).collect();
            for m in 0..4 {
                limit_abs::<f64>(&mut ev, m, 0, &[v.clone()], 0);
                limit_abs::<f32>(&mut ev, m, 0, &[v.clone()], 70);
            }
        }
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Rank });
    }
}
