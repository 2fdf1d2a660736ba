//! Searches whose plug-ins panic, and searches after them on the same optimizer.

use crate::core::*;
use crate::ga::{self, Cmd, Env};
use crate::j::*;
use crate::out::Out;
use crate::pso::{self, PCmd, PEnv};
use crate::rng::R;
use optlib::genetic::*;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::tools::stopchecker::{CompositeAny, GoalNotChange, MaxIterations};
use optlib::GoalFromFunction;
use rand::rngs::thread as trng;

/// What is done with an optimizer.
#[derive(Clone, Copy)]
enum C {
    Find(usize),
    Next(usize),
    Set(usize),
    Reseed(u64),
    Crash(bool, usize, usize),
}

struct Seen {
    ev: Vec<J>,
    aborts: Vec<(bool, usize)>,
    /// calls of plug-ins in the last search
    calls: usize,
}

/// Runs the commands on the optimizer with this number.
fn drive(which: u64, cs: &[C]) -> Seen {
    let mut r = R::new(which ^ 0xc4a5_0000);
    trng::seed(r.next());
    let rc = rec();
    let t = match which % 4 {
        0 => {
            let e = Env::new(R::new(r.next()), Box::new(|r: &mut R| r.range(0, 1_000_000)));
            {
                let mut m = e.borrow_mut();
                m.n0 = *r.pick(&[0, 1, 2, 3, 5, 9]);
                m.valmode = r.below(10);
                m.max_fams = r.below(5);
                m.max_kids = r.range(1, 3) as usize;
                m.kill = *r.pick(&[0, 10, 30, 90]);
                m.maxpop = 12;
            }
            let c = |r: &mut R| (0..3).map(|_| r.below(4)).collect::<Vec<_>>();
            let f = ga::scripted(&e, c(&mut r), c(&mut r), c(&mut r));
            ga::run_on(&rc, "x", &e, &f, &ga_cmds(cs), false)
        }
        1 => {
            let e = Env::new(R::new(r.next()), Box::new(|_: &mut R| vec![]));
            let f = shipped_ga(&mut r, &e);
            ga::run_on(&rc, "x", &e, &f, &ga_cmds(cs), false)
        }
        2 => {
            let e = PEnv::new(R::new(r.next()));
            {
                let mut m = e.borrow_mut();
                m.n0 = *r.pick(&[0, 1, 2, 3, 6]);
                m.dim = r.below(4);
                m.valmode = r.below(10);
            }
            let c = |r: &mut R| (0..3).map(|_| r.below(4)).collect::<Vec<_>>();
            let mut f = pso::scripted::<f64>(&e, c(&mut r), c(&mut r), c(&mut r));
            f.full = 1000;
            pso::run_on(&rc, "x", &e, &f, &pso_cmds(cs), false)
        }
        _ => {
            let e = PEnv::new(R::new(r.next()));
            let f = shipped_pso(&mut r, &e);
            pso::run_on(&rc, "x", &e, &f, &pso_cmds(cs), false)
        }
    };
    let mut q = rc.borrow_mut();
    Seen { ev: t.ev, aborts: std::mem::take(&mut q.aborts), calls: q.calls }
}

fn ga_cmds(cs: &[C]) -> Vec<Cmd> {
    let sets = [
        Cmd::SetPairing,
        Cmd::SetCross,
        Cmd::SetMutation,
        Cmd::SetSelection,
        Cmd::SetPreBirth,
        Cmd::SetStop,
        Cmd::SetLoggers,
    ];
    cs.iter()
        .map(|c| match *c {
            C::Find(n) => Cmd::Find(n),
            C::Next(n) => Cmd::Next(n),
            C::Set(n) => sets[n % sets.len()].clone(),
            C::Reseed(x) => Cmd::Reseed(x),
            C::Crash(f, n, at) => Cmd::Crash(f, n, at),
        })
        .collect()
}
fn pso_cmds(cs: &[C]) -> Vec<PCmd> {
    let sets = [PCmd::SetStop, PCmd::SetLoggers, PCmd::SetPostMoves, PCmd::SetPostVelocity];
    cs.iter()
        .map(|c| match *c {
            C::Find(n) => PCmd::Find(n),
            C::Next(n) => PCmd::Next(n),
            C::Set(n) => sets[n % sets.len()].clone(),
            C::Reseed(x) => PCmd::Reseed(x),
            C::Crash(f, n, at) => PCmd::Crash(f, n, at),
        })
        .collect()
}

fn shipped_ga(r: &mut R, e: &ga::E<Vec<f64>>) -> ga::Fac<Vec<f64>> {
    type P = Vec<f64>;
    let dim = r.range(1, 3) as usize;
    let iv = vec![(-2.0, 3.0); dim];
    let (iv1, iv2) = (iv.clone(), iv);
    let (size, n, pk, ck, stop) = (*r.pick(&[2usize, 5, 9]), *r.pick(&[2usize, 6]), r.below(2), r.below(3), r.below(3));
    let (nl, its) = (r.below(4), r.below(5));
    let e2 = e.clone();
    ga::Fac {
        creator: Box::new(move || Box::new(creation::vec_float::RandomCreator::new(size, iv1.clone()))),
        goal: Box::new(|| Box::new(GoalFromFunction::new(optlib_testfunc::schwefel::<f64>))),
        stop: Box::new(move || {
            if stop == 0 {
                Box::new(MaxIterations::new(its))
            } else if stop == 1 {
                Box::new(CompositeAny::new(vec![
                    Box::new(GoalNotChange::new(its, 0.25)),
                    Box::new(ga::SStop(e2.clone())),
                ]))
            } else {
                Box::new(ga::SStop(e2.clone()))
            }
        }),
        pairing: Box::new(move || {
            if pk == 0 {
                Box::new(pairing::RandomPairing::new())
            } else {
                Box::new(pairing::Tournament::new(2).partners_count(2).rounds_count(1))
            }
        }),
        cross: Box::new(move || {
            let c: Box<dyn Cross<f64>> = match ck {
                0 => Box::new(cross::CrossMean::new()),
                1 => Box::new(cross::CrossBitwise::new()),
                _ => Box::new(cross::FloatCrossExp::new()),
            };
            Box::new(cross::VecCrossAllGenes::new(c))
        }),
        mutation: Box::new(|| Box::new(mutation::VecMutation::new(60.0, Box::new(mutation::BitwiseMutation::new(2))))),
        sels: Box::new(move || {
            vec![
                Box::new(selection::KillFitnessNaN::new()) as Box<dyn Selection<P>>,
                Box::new(selection::LimitPopulation::new(n)),
            ]
        }),
        pres: Box::new(move || vec![Box::new(pre_birth::vec_float::CheckChromoInterval::new(iv2.clone())) as Box<dyn PreBirth<P>>]),
        nlog: Box::new(move || nl),
        inside: None,
        lim: 0,
        boxed: false,
    }
}

fn shipped_pso(r: &mut R, e: &pso::PE) -> pso::PFac<f64> {
    let dim = r.range(1, 3) as usize;
    let iv = vec![(-2.0, 3.0); dim];
    let (iv1, iv2, iv3) = (iv.clone(), iv.clone(), iv);
    let (n, ck, pmk, stop, nl, its) = (*r.pick(&[1usize, 2, 5]), r.below(4), r.below(4), r.below(3), r.below(4), r.below(5));
    let e2 = e.clone();
    pso::PFac {
        x: Box::new(move || Box::new(RandomCoordinatesInitializer::new(iv1.clone(), n))),
        v: Box::new(move || Box::new(RandomVelocityInitializer::new(vec![(-1.0, 1.0); dim], n))),
        goal: Box::new(|| Box::new(GoalFromFunction::new(optlib_testfunc::rastrigin::<f64>))),
        stop: Box::new(move || {
            if stop == 0 {
                Box::new(MaxIterations::new(its))
            } else if stop == 1 {
                Box::new(CompositeAny::new(vec![
                    Box::new(GoalNotChange::new(its, 0.25)),
                    Box::new(pso::PStop(e2.clone())),
                ]))
            } else {
                Box::new(pso::PStop(e2.clone()))
            }
        }),
        calc: Box::new(move || match ck {
            0 => Box::new(ClassicVelocityCalculator::new(2.0, 2.0)),
            1 => Box::new(CanonicalVelocityCalculator::new(2.5, 2.5, 0.9)),
            2 => Box::new(InertiaVelocityCalculator::new(1.5, 1.5, Box::new(LinearInertia::new(0.1, 0.9, 5)))),
            _ => Box::new(NegativeReinforcement::new(0.9, 0.8, 0.7, 0.1, 0.2, 0.3, 0.7)),
        }),
        cvs: Box::new(move || vec![Box::new(MaxVelocityDimensions::new(vec![1.5; dim])), Box::new(MaxVelocityAbs::new(2.0))]),
        pms: Box::new(move || match pmk {
            0 => vec![],
            1 => vec![Box::new(RandomTeleport::new(iv2.clone(), 0.3))],
            2 => vec![Box::new(MoveToBoundary::new(iv3.clone()))],
            _ => vec![Box::new(RandomTeleport::new(iv2.clone(), 0.3)), Box::new(MoveToBoundary::new(iv3.clone()))],
        }),
        nlog: Box::new(move || nl),
        inside: None,
        boxed: false,
        int: false,
        full: 1000,
        probe: None,
    }
}

pub fn suite(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let id = format!("crash-{}-{}", seed, k);
        out.begin(&id);
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0xc4a5_4);
        let which = (r.next() >> 8) * 4 + k as u64 % 4;
        let its = |r: &mut R| *r.pick(&[0usize, 1, 1, 2, 3, 5]);
        // what went before
        let mut before = vec![];
        for _ in 0..r.below(3) {
            if r.chance(40) {
                before.push(C::Set(r.below(28)));
            }
            before.push(if before.iter().all(|c| matches!(c, C::Set(_))) || r.chance(50) { C::Find(its(&mut r)) } else { C::Next(its(&mut r)) });
        }
        // the search
        let (s1, i1) = (r.next(), its(&mut r));
        let mut search = vec![C::Reseed(s1), C::Find(i1)];
        for _ in 0..r.below(3) {
            search.push(if r.chance(70) { C::Next(its(&mut r)) } else { C::Find(its(&mut r)) });
        }
        let found = before.iter().any(|c| matches!(c, C::Find(_)));
        let plain: Vec<C> = before.iter().chain(search.iter()).copied().collect();
        let first = drive(which, &plain);
        // the calls of a search that is going to panic
        let mut crashes = vec![];
        let mut so_far = before.clone();
        let times = if r.chance(20) { r.range(2, 4) } else { 1 };
        for _ in 0..times {
            let (s2, i2) = (r.next(), its(&mut r));
            let find = !found || r.chance(70);
            let mut x = so_far.clone();
            x.extend([C::Reseed(s2), if find { C::Find(i2) } else { C::Next(i2) }]);
            // continuing a search that panicked is nobody's business
            if !find && !crashes.is_empty() {
                continue;
            }
            let calls = drive(which, &x).calls;
            if calls == 0 {
                continue;
            }
            let add = [C::Reseed(s2), C::Crash(find, i2, r.below(calls))];
            crashes.extend(add);
            so_far.extend(add);
        }
        let all: Vec<C> = so_far.iter().chain(search.iter()).copied().collect();
        let then = drive(which, &all);
        let mut ev = vec![];
        put("alone", "C32", first.ev, &mut ev);
        for (same, late) in then.aborts {
            ev.push(J::O(vec![("e", s("run")), ("m", J::I(1)), ("how", s("panics")), ("why", s("C32"))]));
            ev.push(J::O(vec![("e", s("abort")), ("m", J::I(1)), ("same", J::B(same)), ("late", i(late))]));
        }
        put("afterwards", "C32", then.ev, &mut ev);
        out.emit(Trace { id, cfg: J::O(vec![("pieces", J::B(false))]), ev, vals: Vals::Rank });
    }
}

fn put(how: &str, why: &str, x: Vec<J>, ev: &mut Vec<J>) {
    ev.push(J::O(vec![("e", s("run")), ("m", J::I(1)), ("how", s(how)), ("why", s(why))]));
    let n = x.len();
    let most = if why == "C09" { usize::MAX } else { 1500 };
    for y in x.into_iter().take(most) {
        ev.push(J::O(vec![("e", s("see")), ("m", J::I(1)), ("x", y)]));
    }
    // pauses are events, too
    let n = if why == "C09" { 0 } else { n };
    ev.push(J::O(vec![("e", s("end")), ("m", J::I(1)), ("n", i(n))]));
}

/// Searches on an optimizer that has been used, and the same ones on a fresh one.
pub fn used(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let id = format!("used-{}-{}", seed, k);
        out.begin(&id);
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x05ed_4);
        let which = (r.next() >> 8) * 4 + k as u64 % 4;
        let its = |r: &mut R| *r.pick(&[0usize, 0, 1, 1, 2, 3, 5, 8]);
        let (mut before, mut sets) = (vec![], vec![]);
        before.push(C::Find(its(&mut r)));
        for _ in 0..r.below(5) {
            if r.chance(30) {
                let c = C::Set(r.below(28));
                before.push(c);
                sets.push(c);
            }
            before.push(if r.chance(50) { C::Find(its(&mut r)) } else { C::Next(its(&mut r)) });
        }
        let mut search = vec![C::Reseed(r.next()), C::Find(its(&mut r))];
        for _ in 0..r.below(4) {
            search.push(if r.chance(70) { C::Next(its(&mut r)) } else { C::Find(its(&mut r)) });
        }
        let fresh: Vec<C> = sets.iter().chain(search.iter()).copied().collect();
        let again: Vec<C> = before.iter().chain(search.iter()).copied().collect();
        let mut ev = vec![];
        put("fresh", "C10", drive(which, &fresh).ev, &mut ev);
        put("used", "C10", drive(which, &again).ev, &mut ev);
        out.emit(Trace { id, cfg: J::O(vec![("pieces", J::B(false))]), ev, vals: Vals::Rank });
    }
}

/// Searches in one piece, and the same ones cut into pieces.
pub fn pieces(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let id = format!("pieces-{}-{}", seed, k);
        out.begin(&id);
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x91ec_4);
        let which = (r.next() >> 8) * 4 + k as u64 % 4;
        let (mut whole, mut parts) = (vec![C::Reseed(r.next())], vec![]);
        parts.push(whole[0]);
        for _ in 0..r.range(1, 3) {
            let n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 13]);
            whole.push(C::Find(n));
            let (mut left, mut start) = (n, true);
            // also pieces without iterations
            while start || left > 0 || r.chance(25) {
                let x = if r.chance(15) { 0 } else { r.below(left + 1) };
                parts.push(if start { C::Find(x) } else { C::Next(x) });
                start = false;
                left -= x;
            }
        }
        let mut ev = vec![];
        put("whole", "C09", drive(which, &whole).ev, &mut ev);
        put("pieces", "C09", drive(which, &parts).ev, &mut ev);
        out.emit(Trace { id, cfg: J::O(vec![("pieces", J::B(true))]), ev, vals: Vals::Rank });
    }
}
