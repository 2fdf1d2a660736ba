//! Selections, pre-birth filters and pairings, called on real populations.

use crate::core::guarded;
use crate::ga::gen_value;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use num::Float;
use optlib::genetic::*;
use optlib::tools::stopchecker::MaxIterations;
use optlib::{Goal, Optimizer};
use rand::rngs::thread as trng;

struct Gl<'a>(std::slice::Iter<'a, f64>);
impl<'a, T> Goal<T> for Gl<'a> {
    fn get(&mut self, _x: &T) -> f64 {
        *self.0.next().unwrap()
    }
}
struct Cr<T>(Vec<T>);
impl<T: Clone> Creator<T> for Cr<T> {
    fn create(&mut self) -> Vec<T> {
        self.0.clone()
    }
}
struct NoPairs;
impl<T> Pairing<T> for NoPairs {
    fn get_pairs(&mut self, _p: &Population<T>) -> Vec<Vec<usize>> {
        vec![]
    }
}
struct Never;
impl<T> Cross<T> for Never {
    fn cross(&mut self, _p: &[&T]) -> Vec<T> {
        vec![]
    }
}
impl<T: Clone> Mutation<T> for Never {
    fn mutation(&mut self, x: &T) -> T {
        x.clone()
    }
}
struct Hook<F>(F);
impl<T, F: FnMut(&mut Population<T>)> Selection<T> for Hook<F> {
    fn kill(&mut self, p: &mut Population<T>) {
        (self.0)(p)
    }
}

/// Calls `f` with a population of these points and values.
pub fn with_population<T: Clone>(points: Vec<T>, vals: &[f64], f: impl FnMut(&mut Population<T>)) {
    let mut o = GeneticOptimizer::new(
        Box::new(Gl(vals.iter())),
        Box::new(MaxIterations::new(1)),
        Box::new(Cr(points)),
        Box::new(NoPairs),
        Box::new(Never),
        Box::new(Never),
        vec![Box::new(Hook(f))],
        vec![],
    );
    o.find_min();
}

// ---- selections ----

fn alive<T>(p: &Population<T>) -> J {
    a(p.iter().map(|x| J::I(x.is_alive() as i64)).collect())
}
fn genes<T: Float>(g: &[T]) -> J {
    a(g.iter().map(|x| J::V(x.to_f64().unwrap())).collect())
}
fn intervals<T: Float>(iv: &[(T, T)]) -> J {
    a(iv.iter().map(|x| genes(&[x.0, x.1])).collect())
}

/// an operation on a population
#[derive(Clone)]
enum Op<T> {
    Limit(usize, usize),
    Worst(usize),
    Nan,
    Ival(Vec<(T, T)>),
    Kill(usize),
}

fn apply<T: Float + 'static>(p: &mut Population<Vec<T>>, op: &Op<T>) -> J {
    let before: Vec<(Vec<T>, f64)> = p.iter().map(|x| (x.get_chromosomes().clone(), x.get_fitness())).collect();
    let res = guarded(|| match op {
        Op::Limit(n, how) => {
            // the limit may be given at first or later
            let mut s = if *how == 0 {
                selection::LimitPopulation::new(*n)
            } else {
                let mut s = selection::LimitPopulation::new(n + how);
                s.set_limit(*n);
                s
            };
            s.kill(p)
        }
        Op::Worst(n) => selection::kill_worst(p, *n),
        Op::Nan => selection::KillFitnessNaN::new().kill(p),
        Op::Ival(iv) => selection::vec_float::CheckChromoInterval::new(iv.clone()).kill(p),
        Op::Kill(k) => p[*k].kill(),
    });
    let mut e = match op {
        Op::Limit(n, _) => vec![("e", s("limit")), ("n", i(*n))],
        Op::Worst(n) => vec![("e", s("worst")), ("n", i(*n))],
        Op::Nan => vec![("e", s("nan"))],
        Op::Ival(iv) => vec![("e", s("ival")), ("iv", intervals(iv))],
        Op::Kill(k) => vec![("e", s("die")), ("n", i(k + 1))],
    };
    if res.is_err() {
        return J::O(vec![("e", s("panic"))]);
    }
    let bits = |x: &f64| x.to_bits();
    let gb = |x: &Vec<T>| x.iter().map(|y| y.to_f64().unwrap().to_bits()).collect::<Vec<_>>();
    let same = p.len() == before.len()
        && p.iter().zip(before.iter()).all(|(x, y)| gb(x.get_chromosomes()) == gb(&y.0) && bits(&x.get_fitness()) == bits(&y.1))
        && (0..p.len()).all(|k| gb(p[k].get_chromosomes()) == gb(&before[k].0));
    e.push(("al", alive(p)));
    e.push(("la", i(p.len_alive())));
    e.push(("same", J::B(same)));
    J::O(e)
}

fn history<T: Float + 'static>(points: Vec<Vec<T>>, vals: &[f64], ops: &[Op<T>]) -> Vec<J> {
    let mut ev = vec![J::O(vec![
        ("e", s("pop")),
        ("vs", a(vals.iter().map(|v| J::V(*v)).collect())),
        ("g", a(points.iter().map(|g| genes(g)).collect())),
    ])];
    with_population(points, vals, |p| {
        for op in ops {
            ev.push(apply(p, op));
        }
    });
    ev
}

fn special<T: Float>(r: &mut R, lo: T, hi: T) -> T {
    let t = |x: f64| T::from(x).unwrap();
    match r.below(17) {
        14 => T::min_positive_value() * t(0.5),
        15 => -T::min_positive_value() * t(0.5),
        16 => t(-0.0),
        0 => T::nan(),
        1 => T::infinity(),
        2 => T::neg_infinity(),
        3 | 4 => lo,
        5 | 6 => hi,
        7 => lo - t(1.0),
        8 => hi + t(1.0),
        9 => lo - (lo.abs() + t(1e-30)) * T::epsilon(),
        10 => hi + (hi.abs() + t(1e-30)) * T::epsilon(),
        11 => T::max_value(),
        _ => between(r, lo, hi),
    }
}
/// Some finite number of the interval, if there is any.
fn between<T: Float>(r: &mut R, lo: T, hi: T) -> T {
    let u = T::from(r.unit()).unwrap();
    let (l, h) = (lo.max(T::min_value()), hi.min(T::max_value()));
    let m = match (lo.is_finite(), hi.is_finite()) {
        (true, true) => l + (h - l) * u,
        (true, false) => l + l.abs() * u + u,
        (false, true) => h - h.abs() * u - u,
        _ => u,
    };
    m.max(l).min(h)
}
fn gen_box<T: Float>(r: &mut R, dim: usize) -> Vec<(T, T)> {
    let t = |x: f64| T::from(x).unwrap();
    (0..dim)
        .map(|_| {
            let lo = match r.below(5) {
                0 => t(0.0),
                1 => t(-1e-6 * r.unit()),
                2 => t(-1e6 * r.unit()),
                3 => t(5.0 * r.unit()),
                _ => t(r.range(-3, 3) as f64),
            };
            let hi = match r.below(4) {
                0 => lo,
                1 => lo + t(1e-7),
                2 => lo + t(1e6 * r.unit()),
                _ => lo + t(r.range(1, 4) as f64),
            };
            match r.below(16) {
                0 => (lo, T::infinity()),
                1 => (T::neg_infinity(), hi),
                2 => (T::neg_infinity(), T::infinity()),
                3 => (T::min_value(), T::max_value()),
                _ => (lo, hi),
            }
        })
        .collect()
}

fn select_run<T: Float + 'static>(id: &str, r: &mut R) -> Trace {
    let mut ev = vec![];
    for _ in 0..r.range(2, 4) {
        let n = match r.below(10) {
            0 => 0,
            1 => r.range(20, 120) as usize,
            2 if r.chance(12) => *r.pick(&[257usize, 300, 600, 2500, 6000]),
            _ => r.range(1, 12) as usize,
        };
        let dim = if n < 30 && r.chance(6) { *r.pick(&[9, 20, 70]) } else if n < 5 && r.chance(3) { 5000 } else { r.below(4) };
        let iv: Vec<(T, T)> = gen_box(r, dim);
        let mode = r.below(10);
        let vals: Vec<f64> = (0..n).map(|k| gen_value(r, mode, k as i64)).collect();
        // mostly inside, so that single genes matter
        let points: Vec<Vec<T>> = (0..n)
            .map(|_| {
                let bad = if r.chance(50) { r.below(dim.max(1)) } else { dim };
                iv.iter()
                    .enumerate()
                    .map(|(d, b)| {
                        if d == bad {
                            special(r, b.0, b.1)
                        } else {
                            between(r, b.0, b.1)
                        }
                    })
                    .collect()
            })
            .collect();
        let mut ops = vec![];
        for _ in 0..r.range(1, 6) {
            ops.push(match r.below(10) {
                0 | 1 | 2 => Op::Limit(if n > 200 && r.chance(50) { r.below(20) } else { r.below(n + 2) }, r.below(3)),
                3 | 4 => Op::Worst(r.below(n + 2)),
                5 => Op::Nan,
                6 => Op::Ival(iv.clone()),
                _ if n > 0 => Op::Kill(r.below(n)),
                _ => Op::Nan,
            });
        }
        ev.extend(history(points.clone(), &vals, &ops));
        // filters before the birth: the list changes, nothing else
        let mut list = points.clone();
        if r.chance(30) {
            list.extend(points.clone());
            r.shuffle(&mut list);
        }
        let input = a(list.iter().map(|g| genes(g)).collect());
        let res = guarded(|| {
            let mut f = pre_birth::vec_float::CheckChromoInterval::new(iv.clone());
            with_population(vec![vec![T::zero(); dim]], &[0.0], |p| f.pre_birth(p, &mut list));
        });
        ev.push(match res {
            Ok(_) => J::O(vec![
                ("e", s("pre")),
                ("iv", intervals(&iv)),
                ("g", input),
                ("o", a(list.iter().map(|g| genes(g)).collect())),
            ]),
            Err(_) => J::O(vec![("e", s("panic"))]),
        });
    }
    Trace { id: id.to_string(), cfg: J::O(vec![]), ev, vals: Vals::Rank }
}

pub fn select(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x5E1E_0000);
        trng::seed(r.next());
        let id = format!("select-{}-{}", seed, k);
        out.begin(&id);
        let t = if k % 2 == 0 { select_run::<f64>(&id, &mut r) } else { select_run::<f32>(&id, &mut r) };
        out.emit(t);
    }
}

/// Populations enumerated by TLC: <<[v, a], ...>>; all operations on each.
pub fn select_scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("select-script-{}", k);
        out.begin(&id);
        let j = parse(line);
        let vals: Vec<f64> = j.arr().iter().map(|x| val_of(x.gi("v"))).collect();
        let dead: Vec<usize> = (0..vals.len()).filter(|k| j.arr()[*k].gi("a") == 0).collect();
        let n = vals.len();
        let mut ev = vec![];
        let mut go = |last: Op<f64>| {
            let mut ops: Vec<Op<f64>> = dead.iter().map(|k| Op::Kill(*k)).collect();
            ops.push(last);
            ev.extend(history(vec![vec![]; n], &vals, &ops));
        };
        for c in 0..n + 2 {
            go(Op::Limit(c, k % 3));
            go(Op::Worst(c));
        }
        go(Op::Nan);
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Int });
    }
}

// ---- pairings ----

fn rank_values(vals: &[f64]) -> J {
    a(vals.iter().map(|v| J::V(*v)).collect())
}

fn families(x: &[Vec<usize>]) -> J {
    a(x.iter().map(|f| a(f.iter().map(|m| i(m + 1)).collect())).collect())
}

fn pairing_run(id: &str, r: &mut R, k: usize) -> Trace {
    let mut ev = vec![];
    let n = match k % 12 {
        0 => 0,
        1 | 2 => 1,
        3 => r.range(8, 60) as usize,
        4 if k % 24 == 4 => *r.pick(&[100usize, 257, 300]),
        // only the shapes and the best of (almost) certainly all
        6 if k % 48 == 6 => *r.pick(&[1000usize, 3000, 25_000]),
        _ => r.range(2, 7) as usize,
    };
    let mode = if n >= 1000 { 4 } else if k % 3 == 0 { 1 } else { r.below(10) };
    let vals: Vec<f64> = (0..n).map(|k| gen_value(r, mode, k as i64)).collect();
    ev.push(J::O(vec![("e", s("pop")), ("vs", rank_values(&vals))]));
    with_population((0..n as i64).collect(), &vals, |p| {
        // a few individuals may be dead already
        // the shapes
        for _ in 0..3 {
            trng::set_mode(*r.pick(&[trng::Mode::Seeded, trng::Mode::Mixed, trng::Mode::Const(0), trng::Mode::Const(!0)]));
            let res = guarded(|| pairing::RandomPairing::new().get_pairs(p));
            ev.push(match res {
                Ok(f) => J::O(vec![("e", s("random")), ("f", families(&f))]),
                Err(_) => J::O(vec![("e", s("panic"))]),
            });
            let m = if r.chance(10) { *r.pick(&[20, 70, 300]) } else { 5 };
            let (nf, np, nr) = (r.below(m), r.below(m.min(40)), r.below(m));
            let given = r.below(10);
            let res = guarded(|| {
                let t = pairing::Tournament::new(nf);
                let mut t = match given {
                    0 | 1 => t,
                    2 => t.partners_count(np),
                    3 => t.rounds_count(nr),
                    _ if nf % 2 == 0 => t.partners_count(np).rounds_count(nr),
                    _ => t.rounds_count(nr).partners_count(np),
                };
                t.get_pairs(p)
            });
            // two partners and one round if nothing else was asked for
            let (np, nr) = match given {
                0 | 1 => (2, 1),
                2 => (np, 1),
                3 => (2, nr),
                _ => (np, nr),
            };
            ev.push(match res {
                Ok(f) => J::O(vec![("e", s("tour")), ("nf", i(nf)), ("np", i(np)), ("nr", i(nr)), ("all", J::B(false)), ("f", families(&f))]),
                Err(_) => J::O(vec![("e", s("panic"))]),
            });
        }
        if n == 0 {
            trng::set_mode(trng::Mode::Seeded);
            return;
        }
        // pairs of individuals are only looked at in small populations
        let few = n <= 7;
        let pairs = |x: Vec<i64>| if few { ints(&x) } else { a(vec![]) };
        // so many rounds that every individual takes part
        trng::seed(r.next());
        let (nf, np, nr) = (3, if n > 60 { 1 } else { 3 }, if n > 5000 { 20 * n } else { 45 * n });
        let res = guarded(|| pairing::Tournament::new(nf).partners_count(np).rounds_count(nr).get_pairs(p));
        ev.push(match res {
            Ok(f) => J::O(vec![("e", s("tour")), ("nf", i(nf)), ("np", i(np)), ("nr", i(nr)), ("all", J::B(true)), ("f", families(&f))]),
            Err(_) => J::O(vec![("e", s("panic"))]),
        });
        trng::seed(r.next());
        if n >= 1000 {
            return;
        }
        // frequencies
        let total = 4000;
        for nr in 0..(if few { 3usize } else { 2 }) {
            // wins[p][i]: how often partner p is individual i
            let np = 2;
            let mut wins = vec![vec![0i64; n]; np];
            let mut both = vec![0i64; n * n];
            let res = guarded(|| {
                let mut t = pairing::Tournament::new(40);
                if !(nr == 1 && k % 2 == 0) {
                    t = t.partners_count(np).rounds_count(nr);
                }
                for _ in 0..total / 40 {
                    for f in t.get_pairs(p) {
                        for (q, m) in f.iter().enumerate() {
                            wins[q][*m] += 1;
                        }
                        both[f[0] * n + f[1]] += 1;
                    }
                }
            });
            ev.push(match res {
                Ok(_) => J::O(vec![
                    ("e", s("tfreq")),
                    ("nr", i(nr)),
                    ("total", i(total)),
                    ("w", a(wins.iter().map(|x| ints(x)).collect())),
                    ("both", pairs(both)),
                ]),
                Err(_) => J::O(vec![("e", s("panic"))]),
            });
        }
        if n > 1 {
            let mut wins = vec![vec![0i64; n]; 2];
            let mut both = vec![0i64; n * n];
            let mut count = 0;
            let res = guarded(|| {
                let mut t = pairing::RandomPairing::new();
                while count < total {
                    let fs = t.get_pairs(p);
                    count += fs.len().max(1);
                    for f in fs {
                        for (q, m) in f.iter().enumerate() {
                            wins[q][*m] += 1;
                        }
                        both[f[0] * n + f[1]] += 1;
                    }
                }
            });
            ev.push(match res {
                Ok(_) => J::O(vec![
                    ("e", s("rfreq")),
                    ("w", a(wins.iter().map(|x| ints(x)).collect())),
                    ("both", pairs(both)),
                ]),
                Err(_) => J::O(vec![("e", s("panic"))]),
            });
        }
    });
    Trace { id: id.to_string(), cfg: J::O(vec![]), ev, vals: Vals::Rank }
}

/// The same pairings serve populations of several sizes.
fn pairing_reuse(id: &str, r: &mut R) -> Trace {
    let mut ev = vec![];
    let nf = r.range(1, 40) as usize;
    let np = 2;
    let nr = r.below(3);
    let mut one = pairing::RandomPairing::new();
    let mut two = pairing::Tournament::new(nf).partners_count(np).rounds_count(nr);
    for step in 0..r.range(2, 4) {
        let n = if step == 0 { r.below(4) } else { r.range(0, 7) as usize };
        let mode = r.below(10);
        let vals: Vec<f64> = (0..n).map(|k| gen_value(r, mode, k as i64)).collect();
        ev.push(J::O(vec![("e", s("pop")), ("vs", rank_values(&vals))]));
        with_population((0..n as i64).collect(), &vals, |p| {
            trng::seed(r.next());
            let res = guarded(|| one.get_pairs(p));
            ev.push(match res {
                Ok(f) => J::O(vec![("e", s("random")), ("f", families(&f))]),
                Err(_) => J::O(vec![("e", s("panic"))]),
            });
            let res = guarded(|| two.get_pairs(p));
            ev.push(match res {
                Ok(f) => J::O(vec![("e", s("tour")), ("nf", i(nf)), ("np", i(np)), ("nr", i(nr)), ("all", J::B(false)), ("f", families(&f))]),
                Err(_) => J::O(vec![("e", s("panic"))]),
            });
            if n == 0 {
                return;
            }
            let total = (4000 / nf * nf) as i64;
            let mut wins = vec![vec![0i64; n]; np];
            let mut both = vec![0i64; n * n];
            let res = guarded(|| {
                for _ in 0..4000 / nf {
                    for f in two.get_pairs(p) {
                        for (q, m) in f.iter().enumerate() {
                            wins[q][*m] += 1;
                        }
                        both[f[0] * n + f[1]] += 1;
                    }
                }
            });
            ev.push(match res {
                Ok(_) => J::O(vec![
                    ("e", s("tfreq")),
                    ("nr", i(nr)),
                    ("total", J::I(total)),
                    ("w", a(wins.iter().map(|x| ints(x)).collect())),
                    ("both", ints(&both)),
                ]),
                Err(_) => J::O(vec![("e", s("panic"))]),
            });
            if n > 1 {
                let mut wins = vec![vec![0i64; n]; 2];
                let mut both = vec![0i64; n * n];
                let mut count = 0;
                let res = guarded(|| {
                    while count < 4000 {
                        let fs = one.get_pairs(p);
                        count += fs.len().max(1);
                        for f in fs {
                            for (q, m) in f.iter().enumerate() {
                                wins[q][*m] += 1;
                            }
                            both[f[0] * n + f[1]] += 1;
                        }
                    }
                });
                ev.push(match res {
                    Ok(_) => J::O(vec![("e", s("rfreq")), ("w", a(wins.iter().map(|x| ints(x)).collect())), ("both", ints(&both))]),
                    Err(_) => J::O(vec![("e", s("panic"))]),
                });
            }
        });
    }
    Trace { id: id.to_string(), cfg: J::O(vec![]), ev, vals: Vals::Rank }
}

pub fn pairing(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x9A12_0000);
        trng::seed(r.next());
        let id = format!("pairing-{}-{}", seed, k);
        out.begin(&id);
        let t = if k % 6 == 5 { pairing_reuse(&id, &mut r) } else { pairing_run(&id, &mut r, k) };
        out.emit(t);
    }
}

/// Populations enumerated by TLC.
pub fn pairing_scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("pairing-script-{}", k);
        out.begin(&id);
        let j = parse(line);
        let vals: Vec<f64> = j.arr().iter().map(|x| val_of(x.int())).collect();
        let n = vals.len();
        let mut ev = vec![J::O(vec![("e", s("pop")), ("vs", rank_values(&vals))])];
        with_population((0..n as i64).collect(), &vals, |p| {
            trng::seed(k as u64);
            for nr in (0..n + 2).chain(Some(45 * n)) {
                let res = guarded(|| pairing::Tournament::new(2).partners_count(2).rounds_count(nr).get_pairs(p));
                ev.push(match res {
                    Ok(f) => J::O(vec![
                        ("e", s("tour")),
                        ("nf", i(2)),
                        ("np", i(2)),
                        ("nr", i(nr)),
                        ("all", J::B(nr == 45 * n)),
                        ("f", families(&f)),
                    ]),
                    Err(_) => J::O(vec![("e", s("panic"))]),
                });
            }
            let res = guarded(|| pairing::RandomPairing::new().get_pairs(p));
            ev.push(match res {
                Ok(f) => J::O(vec![("e", s("random")), ("f", families(&f))]),
                Err(_) => J::O(vec![("e", s("panic"))]),
            });
            trng::set_mode(trng::Mode::Seeded);
        });
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Int });
    }
}
