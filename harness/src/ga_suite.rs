//! Random scenarios for the genetic optimizer.

use crate::core::*;
use crate::j::*;
use crate::ga::*;
use crate::out::Out;
use crate::rng::R;
use optlib::genetic::*;
use optlib::tools::stopchecker::*;
use optlib::{Goal, GoalFromFunction};
use rand::rngs::thread as trng;
use std::cell::RefCell;
use std::rc::Rc;

/// How long searches are: 0 short, 1 long, 2 very long, 3 many short calls.
pub fn cmds(r: &mut R, long: usize) -> Vec<Cmd> {
    let mut c = vec![];
    let its = |r: &mut R| {
        if long == 2 {
            r.range(300, 1300) as usize
        } else if long == 1 {
            r.range(60, 260) as usize
        } else {
            *r.pick(&[0, 0, 1, 1, 2, 3, 4, 6])
        }
    };
    let n = its(r);
    c.push(Cmd::Find(n));
    let calls = match long {
        0 => r.below(6),
        1 => r.below(3),
        2 => r.below(2),
        _ => r.range(10, 40) as usize,
    };
    for _ in 0..calls {
        for _ in 0..r.below(3) {
            if r.chance(50) {
                let x = r.pick(&[
                    Cmd::SetPairing,
                    Cmd::SetCross,
                    Cmd::SetMutation,
                    Cmd::SetSelection,
                    Cmd::SetPreBirth,
                    Cmd::SetStop,
                    Cmd::SetLoggers,
                ]);
                c.push(x.clone());
            }
        }
        let n = its(r);
        c.push(if r.chance(55) { Cmd::Next(n) } else { Cmd::Find(n) });
    }
    c
}

fn counts(r: &mut R, max: usize) -> Vec<usize> {
    (0..3).map(|_| r.below(max + 1)).collect()
}

fn scripted_run<T: Pt>(
    id: &str,
    r: &mut R,
    fresh: Box<dyn FnMut(&mut R) -> T>,
    lim: bool,
) -> crate::j::Trace {
    let e = Env::new(R::new(r.next()), fresh);
    let long = match r.below(200) {
        0..=14 => 1,
        15..=16 => 2,
        17..=21 => 3,
        _ => 0,
    };
    let big = long == 0 && r.chance(10);
    let huge = big && r.chance(12);
    let wide = long == 0 && !big && r.chance(7);
    {
        let mut m = e.borrow_mut();
        m.n0 = if huge {
            *r.pick(&[257, 300, 520, 1030])
        } else if big {
            r.range(60, 220) as usize
        } else if long >= 2 {
            r.below(4)
        } else {
            *r.pick(&[0, 1, 2, 2, 3, 3, 5, 8, 13, 30])
        };
        m.valmode = if lim { *r.pick(&[1, 1, 5, 7, 7, 4, 6, 0, 2, 3]) } else { r.below(10) };
        m.max_fams = r.below(7);
        m.max_kids = r.range(1, 4) as usize;
        m.kill = *r.pick(&[0, 10, 30, 50, 90]);
        m.dup = *r.pick(&[0, 20, 60]);
        m.maxpop = if huge { 1050 } else if big { 250 } else { 30 };
        if long == 2 {
            m.max_fams = 1;
            m.max_kids = 1;
            m.maxpop = 3;
        }
        if wide {
            m.max_fams = *r.pick(&[6, 20, 40]);
            m.max_kids = *r.pick(&[4, 12, 20]);
            m.max_fam = *r.pick(&[4, 12, 40]);
        }
    }
    let most = if wide { 9 } else if long >= 2 { 1 } else { 3 };
    let (p, s, l) = (counts(r, most), counts(r, most), counts(r, most));
    let mut f = scripted(&e, p, s, l);
    if lim {
        let n = if big {
            // mostly near the size of the population
            let n0 = e.borrow().n0;
            e.borrow_mut().maxpop += 60;
            *r.pick(&[1, 50, n0 / 2, n0 - 3, n0 - 1, n0, n0 + 1, n0 + 2, n0 + 10])
        } else {
            *r.pick(&[1, 1, 2, 3, 5, 8, 20])
        };
        f.lim = n;
        f.sels = Box::new(move || {
            vec![
                Box::new(selection::KillFitnessNaN::new()) as Box<dyn Selection<T>>,
                Box::new(selection::LimitPopulation::new(n)) as Box<dyn Selection<T>>,
            ]
        });
    }
    let cs = cmds(r, long);
    let counted = r.chance(50);
    run(id, &e, &f, &cs, counted)
}

macro_rules! shipped {
    ($name:ident, $t:ty) => {
        fn $name(id: &str, r: &mut R) -> crate::j::Trace {
            type P = Vec<$t>;
            let e: E<P> = Env::new(R::new(r.next()), Box::new(|_| vec![]));
            let dim = if r.chance(4) { *r.pick(&[8usize, 17, 40]) } else { *r.pick(&[1usize, 1, 2, 3, 5]) };
            let iv: Vec<($t, $t)> = (0..dim)
                .map(|_| {
                    let lo = (r.range(-40, 30) as $t) / 4.0;
                    (lo, lo + (r.range(1, 40) as $t) / 4.0)
                })
                .collect();
            let size = if r.chance(4) { 300 } else { *r.pick(&[2usize, 3, 10, 40, 120]) };
            let spoil = r.chance(50);
            let which = r.below(4);
            let er = Rc::new(RefCell::new(R::new(r.next())));
            let goal = move || -> Box<dyn Goal<P>> {
                let f: fn(&P) -> f64 = match which {
                    0 => optlib_testfunc::paraboloid,
                    1 => optlib_testfunc::schwefel,
                    2 => optlib_testfunc::rastrigin,
                    _ => |x: &P| x.iter().fold(0.0, |s, v| s + (*v as f64)),
                };
                if spoil {
                    Box::new(Spoil { inner: GoalFromFunction::new(f), r: er.clone() })
                } else {
                    Box::new(GoalFromFunction::new(f))
                }
            };
            let iv1 = iv.clone();
            let pk = r.below(3);
            let fam = *r.pick(&[0usize, 1, 4, 10]);
            let rounds = r.below(4);
            let ck = r.below(4);
            let prob = *r.pick(&[0.0, 15.0, 60.0, 100.0]);
            let bits = *r.pick(&[0usize, 1, 3]);
            let boxed = r.chance(65);
            let iv2 = iv.clone();
            let sk = r.below(4);
            let iv3 = iv.clone();
            let iv4 = iv.clone();
            let n = *r.pick(&[1usize, 2, 5, 20, 60]);
            let nl = counts(r, 2);
            let k = std::cell::Cell::new(0);
            let maxit = *r.pick(&[0usize, 1, 2, 5, 12]);
            let e2 = e.clone();
            let stopk = r.below(4);
            let f: Fac<P> = Fac {
                creator: Box::new(move || {
                    Box::new(creation::vec_float::RandomCreator::new(size, iv1.clone()))
                }),
                goal: Box::new(goal),
                stop: Box::new(move || match stopk {
                    0 => Box::new(CompositeAny::new(vec![
                        Box::new(Threshold::new(-1e300)),
                        Box::new(MaxIterations::new(maxit)),
                    ])),
                    1 => Box::new(CompositeAny::new(vec![
                        Box::new(GoalNotChange::new(3, 1e-3)),
                        Box::new(MaxIterations::new(maxit)),
                    ])),
                    _ => Box::new(SStop(e2.clone())),
                }),
                pairing: Box::new(move || {
                    if pk == 0 {
                        Box::new(pairing::RandomPairing::new())
                    } else {
                        Box::new(pairing::Tournament::new(fam).partners_count(2).rounds_count(rounds))
                    }
                }),
                cross: Box::new(move || {
                    let c: Box<dyn Cross<$t>> = match ck {
                        0 => Box::new(cross::CrossMean::new()),
                        1 => Box::new(cross::CrossBitwise::new()),
                        2 => Box::new(cross::FloatCrossExp::new()),
                        _ => Box::new(cross::FloatCrossGeometricMean::new()),
                    };
                    Box::new(cross::VecCrossAllGenes::new(c))
                }),
                mutation: Box::new(move || {
                    Box::new(mutation::VecMutation::new(
                        prob,
                        Box::new(mutation::BitwiseMutation::new(bits)),
                    ))
                }),
                sels: Box::new(move || {
                    let kn: Box<dyn Selection<P>> = Box::new(selection::KillFitnessNaN::new());
                    let lp: Box<dyn Selection<P>> = Box::new(selection::LimitPopulation::new(n));
                    let ci: Box<dyn Selection<P>> =
                        Box::new(selection::vec_float::CheckChromoInterval::new(iv2.clone()));
                    match sk {
                        0 | 1 => vec![kn, lp],
                        2 => vec![ci, kn, lp],
                        _ => vec![lp, ci],
                    }
                }),
                pres: Box::new(move || {
                    if boxed {
                        vec![Box::new(pre_birth::vec_float::CheckChromoInterval::new(iv3.clone()))
                            as Box<dyn PreBirth<P>>]
                    } else {
                        vec![]
                    }
                }),
                nlog: Box::new(move || {
                    let n = k.get();
                    k.set(n + 1);
                    nl[n % nl.len()]
                }),
                inside: Some(Rc::new(move |x: &P| {
                    x.len() == iv4.len()
                        && x.iter().zip(iv4.iter()).all(|(v, b)| *v >= b.0 && *v <= b.1)
                })),
                lim: if sk < 2 { n } else { 0 },
                boxed,
            };
            if r.chance(20) {
                trng::set_mode(trng::Mode::Mixed);
            }
            let long = if size < 30 && n < 30 { *r.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 1, 3]) } else { 0 };
            let cs = cmds(r, long);
            let counted = r.chance(50);
            run(id, &e, &f, &cs, counted)
        }
    };
}

struct Spoil<G> {
    inner: G,
    r: Rc<RefCell<R>>,
}
impl<T, G: Goal<T>> Goal<T> for Spoil<G> {
    fn get(&mut self, x: &T) -> f64 {
        let v = self.inner.get(x);
        let mut r = self.r.borrow_mut();
        if r.chance(25) {
            *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, v])
        } else {
            v
        }
    }
}

shipped!(shipped64, f64);
shipped!(shipped32, f32);

/// One search of the given kind.
pub fn scenario(id: &str, r: &mut R, kind: usize) -> Trace {
    match kind {
        0 | 1 => {
            let mut n = 0i64;
            scripted_run::<i64>(id, r, Box::new(move |_| { n += 1; n }), false)
        }
        2 => {
            let mut n = 0i64;
            scripted_run::<String>(id, r, Box::new(move |_| { n += 1; format!("p{}", n) }), false)
        }
        3 => scripted_run::<Vec<f64>>(
            id,
            r,
            Box::new(|r| {
                let d = r.below(3);
                (0..d)
                    .map(|_| *r.pick(&[f64::NAN, 0.0, -0.0, 1.5, f64::INFINITY, 1e-320]))
                    .collect()
            }),
            false,
        ),
        4 | 5 => {
            let mut n = 0i64;
            scripted_run::<i64>(id, r, Box::new(move |_| { n += 1; n }), true)
        }
        6 => shipped64(id, r),
        _ => shipped32(id, r),
    }
}

pub fn suite(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        trng::seed(r.next());
        let id = format!("ga-{}-{}", seed, k);
        out.begin(&id);
        let t = scenario(&id, &mut r, k % 8);
        out.emit(t);
    }
}

/// Replays scripts of environment choices generated from the specification.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("ga-script-{}", k);
        out.begin(&id);
        let j = parse(line);
        let mut n = 1_000_000i64;
        let e: E<i64> = Env::new(R::new(k as u64), Box::new(move |_| { n += 1; n }));
        let mut cs = vec![];
        let (mut np, mut ns, mut nl, mut lim) = (vec![], vec![], vec![], 0);
        {
            let mut m = e.borrow_mut();
            for x in j.arr() {
                match x.gs("c") {
                    "cfg" | "set" => {
                        np.push(x.gi("npre") as usize);
                        ns.push(x.gi("nsel") as usize);
                        nl.push(x.gi("nlog") as usize);
                        if x.gs("c") == "cfg" {
                            lim = x.gi("lim") as usize;
                        } else {
                            cs.extend([
                                Cmd::SetLoggers,
                                Cmd::SetPreBirth,
                                Cmd::SetSelection,
                                Cmd::SetPairing,
                                Cmd::SetCross,
                                Cmd::SetMutation,
                                Cmd::SetStop,
                            ]);
                        }
                    }
                    "find" => cs.push(Cmd::Find(0)),
                    "next" => cs.push(Cmd::Next(0)),
                    "create" => m.create.push_back(x.get("x").unwrap().is()),
                    "val" => m.vals.push_back(val_of(x.gi("x"))),
                    "test" => m.tests.push_back(x.gb("x")),
                    "fams" => m.fams.push_back(
                        x.ga("x")
                            .iter()
                            .map(|f| f.is().iter().map(|v| *v as usize - 1).collect())
                            .collect(),
                    ),
                    "cross" => m.crosses.push_back(x.get("x").unwrap().is()),
                    "mut" => m.muts.push_back(x.gi("x")),
                    "pre" => m.pres.push_back(x.get("x").unwrap().is()),
                    "sel" => m
                        .sels
                        .push_back(x.get("x").unwrap().is().iter().map(|v| *v as usize - 1).collect()),
                    _ => panic!("script"),
                }
            }
        }
        let mut f = scripted(&e, np, ns, nl);
        if lim > 0 {
            f.lim = lim;
            f.sels = Box::new(move || {
                vec![
                    Box::new(selection::KillFitnessNaN::new()) as Box<dyn Selection<i64>>,
                    Box::new(selection::LimitPopulation::new(lim)) as Box<dyn Selection<i64>>,
                ]
            });
        }
        let t = run(&id, &e, &f, &cs, false);
        out.emit(t);
    }
}
