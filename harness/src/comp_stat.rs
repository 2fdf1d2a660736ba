//! Statistics: records of runs, counters of goal calls, aggregates and success rates.

use crate::core::guarded;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use num::Float;
use optlib::genetic::{self, *};
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use rand::rngs::thread as trng;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

type Solution<T> = (T, f64);

// ---- records ----

struct State {
    best: Option<(i64, f64)>,
    it: usize,
}
impl AlgorithmState<i64> for State {
    fn get_best_solution(&self) -> Option<(i64, f64)> {
        self.best
    }
    fn get_iteration(&self) -> usize {
        self.it
    }
}

fn opt(s: &Option<(i64, f64)>) -> J {
    a(s.iter().map(|(x, v)| a(vec![J::I(*x), J::V(*v)])).collect())
}

fn dump(o: usize, st: &Statistics<i64>) -> J {
    J::O(vec![
        ("e", s("dump")),
        ("o", i(o + 1)),
        ("n", i(st.get_run_count())),
        ("res", a(st.get_results().iter().map(opt).collect())),
        ("conv", a(st.get_convergence().iter().map(|r| a(r.iter().map(opt).collect())).collect())),
    ])
}

#[derive(Clone)]
enum Op {
    /// start, resume, next, finish
    Log(&'static str, usize, Option<(i64, f64)>),
    /// so many iterations with the same solution
    Nexts(usize, usize, Option<(i64, f64)>),
    /// so many runs without iterations, with the same solution
    Runs(usize, usize, Option<(i64, f64)>),
    Unite(usize, usize),
}

fn records(id: &str, n: usize, ops: &[Op], r: &mut R) -> Trace {
    let mut st: Vec<Statistics<i64>> = (0..n).map(|_| Statistics::new()).collect();
    let mut ev = vec![];
    let mut it = vec![0usize; n];
    let mut running = vec![false; n];
    let res = guarded(|| {
        for op in ops {
            match op {
                Op::Log(w, o, sol) => {
                    running[*o] = *w != "finish";
                    if *w == "start" {
                        it[*o] = 0
                    } else if *w == "next" {
                        it[*o] += 1
                    }
                    let state = State { best: *sol, it: it[*o] };
                    {
                        let mut l = StatisticsLogger::new(&mut st[*o]);
                        match *w {
                            "start" => l.start(&state),
                            "resume" => l.resume(&state),
                            "next" => l.next_iteration(&state),
                            _ => l.finish(&state),
                        }
                    }
                    ev.push(J::O(vec![
                        ("e", s("log")),
                        ("o", i(*o + 1)),
                        ("w", s(w)),
                        ("s", opt(sol)),
                    ]));
                    if *w == "finish" {
                        ev.push(dump(*o, &st[*o]));
                    }
                }
                Op::Nexts(n, o, sol) => {
                    for _ in 0..*n {
                        it[*o] += 1;
                        StatisticsLogger::new(&mut st[*o]).next_iteration(&State { best: *sol, it: it[*o] });
                    }
                    ev.push(J::O(vec![("e", s("nexts")), ("o", i(*o + 1)), ("n", i(*n)), ("s", opt(sol))]));
                }
                Op::Runs(n, o, sol) => {
                    let state = State { best: *sol, it: 0 };
                    let mut l = StatisticsLogger::new(&mut st[*o]);
                    for _ in 0..*n {
                        l.start(&state);
                        l.resume(&state);
                        l.finish(&state);
                    }
                    ev.push(J::O(vec![("e", s("runs")), ("o", i(*o + 1)), ("n", i(*n)), ("s", opt(sol))]));
                }
                Op::Unite(o, p) => {
                    let other = std::mem::replace(&mut st[*p], Statistics::new());
                    st[*o].unite(other);
                    ev.push(J::O(vec![("e", s("unite")), ("o", i(*o + 1)), ("p", i(*p + 1))]));
                    ev.push(dump(*o, &st[*o]));
                }
            }
        }
        for o in 0..n {
            if running[o] {
                continue; // a run in progress cannot be looked at
            }
            if r.chance(50) {
                // a copy is as good
                st[o] = st[o].clone();
            }
            ev.push(dump(o, &st[o]));
        }
    });
    if res.is_err() {
        ev.push(J::O(vec![("e", s("panic"))]));
    }
    Trace { id: id.to_string(), cfg: J::O(vec![("n", i(n)), ("m", J::I(0))]), ev, vals: Vals::Rank }
}

fn some_sol(r: &mut R) -> Option<(i64, f64)> {
    if r.chance(20) {
        return None;
    }
    Some((
        r.range(0, 5),
        *r.pick(&[0.0, 1.0, -3.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 5e-324, 7.0]),
    ))
}

fn random_ops(r: &mut R, n: usize) -> Vec<Op> {
    let mut ops = vec![];
    let mut runs = vec![0; n];
    let long = r.chance(5);
    // many runs
    let many = !long && r.chance(4);
    let m = if many { r.range(100, 300) } else { r.range(2, 14) };
    // a single huge one
    let huge = if !long && !many && r.chance(8) { 1 + r.below(4) } else { 0 };
    for _ in 0..m {
        let o = r.below(n);
        if runs[o] > 0 && n > 1 && r.chance(15) {
            let p = (o + 1 + r.below(n - 1)) % n;
            ops.push(Op::Unite(o, p));
            runs[o] += runs[p];
            runs[p] = 0;
            continue;
        }
        if huge == 1 && runs[0] < 9000 {
            let n = *r.pick(&[2000, 9000]);
            ops.push(Op::Runs(n, o, some_sol(r)));
            runs[o] += n;
        }
        let again = runs[o] > 0 && r.chance(40);
        ops.push(Op::Log(if again { "resume" } else { "start" }, o, some_sol(r)));
        if !again {
            // every search is entered through the loop
            ops.push(Op::Log("resume", o, some_sol(r)));
            runs[o] += 1;
        }
        let mut last = some_sol(r);
        let its = if many { r.below(2) as i64 } else if long { r.range(0, 300) } else { *r.pick(&[0, 0, 1, 2, 3, 5]) };
        for _ in 0..its {
            if r.chance(70) {
                last = some_sol(r);
            }
            ops.push(Op::Log("next", o, last));
        }
        if huge == 2 && r.chance(20) {
            ops.push(Op::Nexts(*r.pick(&[5000, 33_000, 70_000]), o, last));
        }
        ops.push(Op::Log("finish", o, if r.chance(80) { last } else { some_sol(r) }));
    }
    ops
}

// ---- real searches ----

/// Answers from a list of iteration numbers; keeps what it saw.
struct Seen<T> {
    left: usize,
    bests: Vec<Option<(T, f64)>>,
}
struct StopSpy<T>(Rc<RefCell<Seen<T>>>);
impl<T> StopChecker<T> for StopSpy<T> {
    fn can_stop(&mut self, st: &dyn AlgorithmState<T>) -> bool {
        let mut x = self.0.borrow_mut();
        x.bests.push(st.get_best_solution());
        if x.left == 0 {
            return true;
        }
        x.left -= 1;
        false
    }
}
struct Quiet;
impl<T> Logger<T> for Quiet {}

type P = Vec<f64>;
struct Spoiled {
    which: usize,
    r: R,
    calls: Rc<RefCell<usize>>,
}
impl Goal<P> for Spoiled {
    fn get(&mut self, x: &P) -> f64 {
        *self.calls.borrow_mut() += 1;
        let v = optlib_testfunc::paraboloid(x);
        match self.which {
            0 => v,
            1 if self.r.chance(40) => f64::NAN,
            2 => f64::NAN,
            3 => *self.r.pick(&[f64::INFINITY, v, f64::NEG_INFINITY]),
            _ => v,
        }
    }
}
/// Counts the points made.
struct Born<C>(C, Rc<RefCell<usize>>);
impl<C: genetic::Creator<P>> genetic::Creator<P> for Born<C> {
    fn create(&mut self) -> Vec<P> {
        let x = self.0.create();
        *self.1.borrow_mut() += x.len();
        x
    }
}
impl genetic::PreBirth<P> for Born<()> {
    fn pre_birth(&mut self, _p: &genetic::Population<P>, x: &mut Vec<P>) {
        *self.1.borrow_mut() += x.len();
    }
}

fn searches(id: &str, r: &mut R) -> Trace {
    let mut ev = vec![];
    let dim = r.range(1, 3) as usize;
    let iv: Vec<(f64, f64)> = (0..dim).map(|_| (-5.0, 5.0)).collect();
    let size = *r.pick(&[1usize, 2, 3, 8, 20]);
    let which = r.below(5);
    let seen = Rc::new(RefCell::new(Seen { left: 0, bests: vec![] }));
    let calls = Rc::new(RefCell::new(0usize));
    let born = Rc::new(RefCell::new(0usize));
    // the library's loggers and counters borrow what they write to as long as the optimizer lives
    let st: *mut Statistics<P> = Box::into_raw(Box::new(Statistics::new()));
    let cc: *mut CallCountData = Box::into_raw(Box::new(CallCountData::new()));
    let goal: *mut Spoiled = Box::into_raw(Box::new(Spoiled { which, r: R::new(r.next()), calls: calls.clone() }));
    let mut ids: HashMap<Vec<u64>, i64> = HashMap::new();
    let mut opt_id = |x: &Option<(P, f64)>| {
        a(x.iter()
            .map(|(x, v)| {
                let n = ids.len() as i64 + 1;
                let k = *ids.entry(x.iter().map(|y| y.to_bits()).collect()).or_insert(n);
                a(vec![J::I(k), J::V(*v)])
            })
            .collect())
    };
    let pso = r.chance(50);
    let others = r.below(4);
    let loggers = || -> Vec<Box<dyn Logger<P>>> {
        let mut l: Vec<Box<dyn Logger<P>>> = vec![];
        if others & 1 != 0 {
            l.push(Box::new(Quiet));
        }
        l.push(Box::new(StatisticsLogger::new(unsafe { &mut *st })));
        if others & 2 != 0 {
            l.push(Box::new(Quiet));
        }
        l
    };
    let counted = || Box::new(GoalCalcStatistics::new(unsafe { &mut *goal }, unsafe { &mut *cc }));
    let stop = Box::new(StopSpy(seen.clone()));
    let sessions = if r.chance(4) { r.range(12, 40) } else { r.range(1, 6) };
    let mut plan = vec![];
    for k in 0..sessions {
        plan.push((k == 0 || r.chance(40), *r.pick(&[0usize, 0, 1, 2, 3, 7]), r.chance(40), r.chance(80)));
    }
    if r.chance(4) {
        plan[0].1 = 150;
    }
    let res = guarded(|| {
        let mut ga;
        let mut sw;
        if pso {
            let pc = Box::new(initializing::RandomCoordinatesInitializer::new(iv.clone(), size));
            let vi = Box::new(initializing::ZeroVelocityInitializer::new(dim, size));
            let vc: Box<dyn VelocityCalculator<f64>> = Box::new(velocitycalc::CanonicalVelocityCalculator::new(2.1, 2.0, 0.9));
            let mut o = ParticleSwarmOptimizer::new(counted(), stop, pc, vi, vc);
            o.set_loggers(loggers());
            sw = Some(o);
            ga = None;
        } else {
            let creator = Born(creation::vec_float::RandomCreator::new(size, iv.clone()), born.clone());
            let mut o = GeneticOptimizer::new(
                counted(),
                stop,
                Box::new(creator),
                Box::new(pairing::RandomPairing::new()),
                Box::new(cross::VecCrossAllGenes::new(Box::new(cross::CrossMean::new()) as Box<dyn genetic::Cross<f64>>)),
                Box::new(mutation::VecMutation::new(20.0, Box::new(mutation::BitwiseMutation::new(1)))),
                vec![
                    Box::new(selection::KillFitnessNaN::new()),
                    Box::new(selection::LimitPopulation::new(size)),
                ],
                vec![Box::new(Born((), born.clone()))],
            );
            o.set_loggers(loggers());
            ga = Some(o);
            sw = None;
        }
        for (new, its, fresh, next_run) in plan {
            {
                let mut x = seen.borrow_mut();
                x.left = its;
                x.bests.clear();
            }
            *born.borrow_mut() = 0;
            let before = *calls.borrow();
            if new && next_run {
                unsafe { (*cc).next_run() };
                ev.push(J::O(vec![("e", s("cnext")), ("o", J::I(1))]));
            }
            if let Some(o) = ga.as_mut() {
                if fresh {
                    o.set_loggers(loggers());
                }
                if new {
                    o.find_min();
                } else {
                    o.next_iterations();
                }
            }
            if let Some(o) = sw.as_mut() {
                if fresh {
                    o.set_loggers(loggers());
                }
                if new {
                    o.find_min();
                } else {
                    o.next_iterations();
                }
                // one evaluation of every particle at the start and after every move
                *born.borrow_mut() = size * (its + if new { 1 } else { 0 });
            }
            let bs: Vec<J> = seen.borrow().bests.iter().map(|b| opt_id(b)).collect();
            ev.push(J::O(vec![("e", s("session")), ("o", J::I(1)), ("new", J::B(new)), ("bs", a(bs))]));
            let _ = before;
            ev.push(J::O(vec![("e", s("csearch")), ("o", J::I(1)), ("n", i(*born.borrow()))]));
            let q = unsafe { &*st };
            ev.push(J::O(vec![
                ("e", s("dump")),
                ("o", J::I(1)),
                ("n", i(q.get_run_count())),
                ("res", a(q.get_results().iter().map(|b| opt_id(b)).collect())),
                (
                    "conv",
                    a(q.get_convergence().iter().map(|r| a(r.iter().map(|b| opt_id(b)).collect())).collect()),
                ),
            ]));
            ev.push(cdump(1, unsafe { &*cc }));
        }
    });
    if res.is_err() {
        ev.push(J::O(vec![("e", s("panic"))]));
    }
    unsafe {
        drop(Box::from_raw(st));
        drop(Box::from_raw(cc));
        drop(Box::from_raw(goal));
    }
    Trace { id: id.to_string(), cfg: J::O(vec![("n", J::I(1)), ("m", J::I(1))]), ev, vals: Vals::Rank }
}

pub fn suite_records(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x8888_0000);
        trng::seed(r.next());
        let id = format!("records-{}-{}", seed, k);
        out.begin(&id);
        if k % 3 == 0 {
            let m = r.range(1, 3) as usize;
            let ops = random_ops(&mut r, m);
            out.emit(records(&id, m, &ops, &mut r));
        } else {
            out.emit(searches(&id, &mut r));
        }
    }
}

// ---- counters ----

fn unit(x: f64, k: f64) -> J {
    J::I(code(x * k))
}
/// Nearest integer.
fn code(y: f64) -> i64 {
    if y.is_nan() {
        NAN
    } else if y == f64::INFINITY {
        PINF
    } else if y == f64::NEG_INFINITY {
        NINF
    } else if y.abs() < 9e8 {
        y.round() as i64
    } else {
        950_000_000
    }
}

fn cdump(o: usize, c: &CallCountData) -> J {
    J::O(vec![
        ("e", s("cdump")),
        ("o", i(o)),
        ("c", us(&c.get_call_count())),
        ("avg", a(c.get_average_call_count().iter().map(|x| unit(*x, 1000.0)).collect())),
    ])
}
/// Counters of which everything is a multiple of u.
fn cdump_by(o: usize, c: &CallCountData, u: usize) -> J {
    let part = |x: usize| if x % u == 0 && x / u < 1_000_000 { J::I((x / u) as i64) } else { J::I(-1) };
    J::O(vec![
        ("e", s("cdump")),
        ("o", i(o)),
        ("c", a(c.get_call_count().iter().map(|x| part(*x)).collect())),
        ("avg", a(c.get_average_call_count().iter().map(|x| unit(*x / u as f64, 1000.0)).collect())),
    ])
}

struct Zero;
impl Goal<i64> for Zero {
    fn get(&mut self, _x: &i64) -> f64 {
        0.0
    }
}

struct GoalSpy {
    seen: Vec<i64>,
    v: f64,
}
impl Goal<i64> for GoalSpy {
    fn get(&mut self, x: &i64) -> f64 {
        self.seen.push(*x);
        self.v
    }
}

/// (what, counter, number)
fn counters(id: &str, n: usize, ops: &[(String, usize, usize)], r: &mut R, u: usize) -> Trace {
    let mut cc: Vec<CallCountData> = (0..n).map(|_| CallCountData::new()).collect();
    let mut ev = vec![];
    let res = guarded(|| {
        for (w, o, m) in ops {
            let o = *o;
            match w.as_str() {
                "next" => {
                    cc[o].next_run();
                    ev.push(J::O(vec![("e", s("cnext")), ("o", i(o + 1))]));
                }
                "add" => {
                    cc[o].add(*m * u);
                    ev.push(J::O(vec![("e", s("cadd")), ("o", i(o + 1)), ("n", i(*m))]));
                }
                "inc" => {
                    for _ in 0..u {
                        cc[o].increment();
                    }
                    ev.push(J::O(vec![("e", s("cadd")), ("o", i(o + 1)), ("n", J::I(1))]));
                }
                "goal" if u > 1 => {
                    let mut g = Zero;
                    for _ in 0..u {
                        GoalCalcStatistics::new(&mut g, &mut cc[o]).get(&1);
                    }
                    ev.push(J::O(vec![("e", s("cadd")), ("o", i(o + 1)), ("n", J::I(1))]));
                }
                "goal" => {
                    let mut g = GoalSpy { seen: vec![], v: 0.0 };
                    for _ in 0..*m {
                        g.v = *r.pick(&[0.0, f64::NAN, f64::INFINITY, -1.0, 1e300, 5e-324]);
                        let x = r.range(-9, 9);
                        g.seen.clear();
                        let y = GoalCalcStatistics::new(&mut g, &mut cc[o]).get(&x);
                        ev.push(J::O(vec![
                            ("e", s("cgoal")),
                            ("o", i(o + 1)),
                            ("x", J::I(x)),
                            ("seen", ints(&g.seen)),
                            ("v", J::V(g.v)),
                            ("r", J::V(y)),
                        ]));
                    }
                }
                _ => {
                    let p = *m;
                    let other = std::mem::replace(&mut cc[p], CallCountData::new());
                    cc[o].unite(other);
                    ev.push(J::O(vec![("e", s("cunite")), ("o", i(o + 1)), ("p", i(p + 1))]));
                }
            }
            if r.chance(40) {
                if r.chance(50) {
                    cc[o] = cc[o].clone();
                }
                ev.push(cdump_by(o + 1, &cc[o], u));
            }
        }
        for o in 0..n {
            ev.push(cdump_by(o + 1, &cc[o], u));
        }
    });
    if res.is_err() {
        ev.push(J::O(vec![("e", s("panic"))]));
    }
    Trace { id: id.to_string(), cfg: J::O(vec![("n", J::I(0)), ("m", i(n))]), ev, vals: Vals::Rank }
}

pub fn suite_counters(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x9999_0000);
        let id = format!("counters-{}-{}", seed, k);
        out.begin(&id);
        let m = r.range(1, 3) as usize;
        let long = r.chance(4);
        // very many calls: all numbers are multiples of a large one
        let u = if r.chance(12) { 1usize << *r.pick(&[16, 16, 16, 31, 32, 33, 40]) } else { 1 };
        let len = if long && u == 1 { r.range(300, 700) } else { r.range(1, 25) };
        let ops: Vec<(String, usize, usize)> = (0..len)
            .map(|_| {
                let o = r.below(m);
                match r.below(if m > 1 { 6 } else { 5 }) {
                    // near 2^32, and calls one by one
                    1 if u == 1 << 16 && r.chance(40) => ("add".to_string(), o, *r.pick(&[65535usize, 65534, 32767])),
                    4 if u == 1 << 16 => ("goal".to_string(), o, 1),
                    3 if u == 1 << 16 => ("inc".to_string(), o, 1),
                    2 | 3 | 4 if u > 1 => ("add".to_string(), o, r.below(4)),
                    0 => ("next".to_string(), o, 0),
                    1 => ("add".to_string(), o, *r.pick(&[0usize, 1, 2, 17, 1000])),
                    2 | 3 => ("inc".to_string(), o, 1),
                    4 => ("goal".to_string(), o, r.below(4)),
                    _ => ("unite".to_string(), o, (o + 1 + r.below(m - 1)) % m),
                }
            })
            .collect();
        out.emit(counters(&id, m, &ops, &mut r, u));
    }
}

// ---- aggregates ----

#[derive(Clone, Debug)]
struct Sol {
    x: Vec<i64>,
    v: i64,
    ok: bool,
}
type Sols = Vec<Option<Sol>>;

fn sols_json(rs: &Sols) -> J {
    a(rs.iter()
        .map(|y| {
            a(y.iter()
                .map(|y| J::O(vec![("x", ints(&y.x)), ("v", J::I(y.v)), ("ok", J::B(y.ok))]))
                .collect())
        })
        .collect())
}

/// Values in the trace are small integers (or codes); the library gets them times sc plus off.
#[derive(Clone, Copy)]
struct Real {
    sc: f64,
    off: f64,
    psc: f64,
}
impl Real {
    fn v(&self, c: i64) -> f64 {
        let y = val_of(c);
        if y.is_finite() {
            y * self.sc + self.off
        } else {
            y
        }
    }
    fn p<F: Float>(&self, c: i64) -> F {
        F::from(val_of(c) * self.psc).unwrap()
    }
}

fn real<F: Float>(rs: &Sols, q: Real) -> Vec<Option<Solution<Vec<F>>>> {
    rs.iter()
        .map(|y| y.as_ref().map(|y| (y.x.iter().map(|c| q.p::<F>(*c)).collect(), q.v(y.v))))
        .collect()
}

fn pt<F: Float>(x: &Option<(Vec<F>, f64)>, q: Real, off: f64, k: f64) -> J {
    a(x.iter()
        .map(|(x, v)| {
            J::O(vec![
                ("x", a(x.iter().map(|y| unit(y.to_f64().unwrap() / q.psc, k)).collect())),
                ("v", unit((*v - off) / q.sc, k)),
            ])
        })
        .collect())
}

const AVG: f64 = 100_000.0;
const DEV: f64 = 128.0;

fn aggregate<F: Float + std::fmt::Debug>(rs: &Sols, q: Real, ev: &mut Vec<J>) {
    let y = real::<F>(rs, q);
    let res = guarded(|| {
        let (ag, dg): (Option<f64>, Option<f64>) =
            (StatFunctionsGoal::get_average_goal(&y), StatFunctionsGoal::get_standard_deviation_goal(&y));
        (ag, dg, y.get_average(), y.get_standard_deviation())
    });
    ev.push(match res {
        Ok((ag, dg, av, dv)) => J::O(vec![
            ("e", s("agg")),
            ("rs", sols_json(rs)),
            ("ag", a(ag.iter().map(|v| unit((*v - q.off) / q.sc, AVG)).collect())),
            ("dg", a(dg.iter().map(|v| unit(*v / q.sc, DEV)).collect())),
            ("av", pt(&av, q, q.off, AVG)),
            ("dv", pt(&dv, q, 0.0, DEV)),
        ]),
        Err(_) => J::O(vec![("e", s("panic"))]),
    });
}

fn table(rows: &[Vec<Option<i64>>], q: Real, ev: &mut Vec<J>) {
    let t: Vec<Vec<Option<Solution<i64>>>> =
        rows.iter().map(|r| r.iter().map(|c| c.map(|c| (3, q.v(c)))).collect()).collect();
    let res = guarded(|| (t.get_average_convergence(), t.get_min_iterations()));
    ev.push(match res {
        Ok((o, n)) => J::O(vec![
            ("e", s("aconv")),
            (
                "rows",
                a(rows.iter().map(|r| a(r.iter().map(|c| a(c.iter().map(|c| J::I(*c)).collect())).collect())).collect()),
            ),
            (
                "o",
                a(o.iter().map(|v| a(v.iter().map(|v| unit((*v - q.off) / q.sc, AVG)).collect())).collect()),
            ),
            ("n", i(n)),
        ]),
        Err(_) => J::O(vec![("e", s("panic"))]),
    });
}

fn rate_json(how: &str, rs: &Sols, x: &[i64], d: &[i64], r: Result<Option<f64>, String>) -> J {
    match r {
        Ok(r) => J::O(vec![
            ("e", s("rate")),
            ("rs", sols_json(rs)),
            ("how", s(how)),
            ("x", ints(x)),
            ("d", ints(d)),
            ("r", a(r.iter().map(|v| unit(*v, 100_000.0)).collect())),
            // how many of them, if it is a whole number
            ("k", a(r.iter().map(|v| {
                let k = *v * rs.len() as f64;
                J::I(if (k - k.round()).abs() < 1e-9 * rs.len() as f64 { code(k) } else { -1 })
            }).collect())),
        ]),
        Err(_) => J::O(vec![("e", s("panic"))]),
    }
}

fn rate_goal<F: Float + std::fmt::Debug>(rs: &Sols, e: i64, d: i64, q: Real, ev: &mut Vec<J>) {
    let y = real::<F>(rs, q);
    let dd = val_of(d) * q.sc;
    ev.push(rate_json("goal", rs, &[e], &[d], guarded(|| y.get_success_rate(get_predicate_success_goal(q.v(e), dd)))));
    for z in rs.iter().filter_map(|z| z.as_ref()).take(400) {
        let p = get_predicate_success_goal::<Vec<F>>(q.v(e), dd);
        let ans = p(&(vec![], q.v(z.v)));
        ev.push(J::O(vec![("e", s("pg")), ("v", J::I(z.v)), ("x", J::I(e)), ("d", J::I(d)), ("a", J::B(ans))]));
    }
}

fn rate_point<F: Float + std::fmt::Debug>(rs: &Sols, e: &[i64], d: &[i64], q: Real, ev: &mut Vec<J>) {
    let y = real::<F>(rs, q);
    let pe = || e.iter().map(|c| q.p::<F>(*c)).collect::<Vec<F>>();
    let pd = || d.iter().map(|c| q.p::<F>(*c)).collect::<Vec<F>>();
    ev.push(rate_json(
        "point",
        rs,
        e,
        d,
        guarded(|| y.get_success_rate(get_predicate_success_vec_solution(pe(), pd()))),
    ));
    for z in rs.iter().filter_map(|z| z.as_ref()).take(400) {
        let p = get_predicate_success_vec_solution::<F>(pe(), pd());
        let ans = p(&(z.x.iter().map(|c| q.p::<F>(*c)).collect(), 0.0));
        ev.push(J::O(vec![("e", s("pp")), ("v", ints(&z.x)), ("x", ints(e)), ("d", ints(d)), ("a", J::B(ans))]));
    }
}

fn rate_any<F: Float + std::fmt::Debug>(rs: &Sols, q: Real, ev: &mut Vec<J>) {
    let y = real::<F>(rs, q);
    // the predicate knows solutions by their bits
    let key = |z: &Solution<Vec<F>>| {
        let mut k: Vec<u64> = z.0.iter().map(|c| c.to_f64().unwrap().to_bits()).collect();
        k.push(z.1.to_bits());
        k
    };
    let mut rs = rs.clone();
    let mut known: HashMap<Vec<u64>, bool> = HashMap::new();
    for (z, w) in y.iter().zip(rs.iter_mut()) {
        if let (Some(z), Some(w)) = (z, w) {
            w.ok = *known.entry(key(z)).or_insert(w.ok);
        }
    }
    let r = guarded(|| y.get_success_rate(|z: &Solution<Vec<F>>| known[&key(z)]));
    ev.push(rate_json("any", &rs, &[], &[], r));
}

fn some_real(r: &mut R, f32s: bool) -> Real {
    let sc = 2f64.powi(*r.pick(&[0, 0, 0, 1, -3, 20, -40, 90]));
    Real {
        sc,
        off: if r.chance(25) { sc * 1_048_576.0 } else { 0.0 },
        psc: 2f64.powi(if f32s { *r.pick(&[0, 0, 3, -5, 12]) } else { *r.pick(&[0, 0, 5, -30, 100]) }),
    }
}

fn some_value(r: &mut R, special: usize, span: i64) -> i64 {
    if r.chance(special) {
        *r.pick(&[NAN, PINF, NINF])
    } else {
        r.range(-span, span)
    }
}

fn some_sols(r: &mut R, dim: usize, max: usize, special: usize) -> Sols {
    let n = if max > 100 { max - r.below(30) } else { r.below(max + 1) };
    // sums of squares of many values
    let span = if max > 30 { 2 } else if max > 6 { 3 } else { 20 };
    let miss = *r.pick(&[0, 20, 60, 95]);
    let same = r.chance(20);
    let mut last: Option<Sol> = None;
    (0..n)
        .map(|_| {
            if r.chance(miss) {
                return None;
            }
            if let (true, Some(l)) = (same, &last) {
                return Some(l.clone());
            }
            let z = Sol {
                x: (0..dim).map(|_| some_value(r, special, span)).collect(),
                v: some_value(r, special, span),
                ok: r.chance(50),
            };
            last = Some(z.clone());
            Some(z)
        })
        .collect()
}

pub fn suite_aggregates(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0xaaaa_0000);
        let id = format!("aggregates-{}-{}", seed, k);
        out.begin(&id);
        let mut ev = vec![];
        for _ in 0..6 {
            let f32s = r.chance(50);
            let q = some_real(&mut r, f32s);
            let dim = if r.chance(4) { *r.pick(&[9, 33, 130]) } else { r.below(4) };
            let special = *r.pick(&[0, 0, 0, 8, 40]);
            let max = if dim < 2 && r.chance(6) { *r.pick(&[120, 300, 1000, 4000]) } else if dim < 9 && r.chance(6) { 30 } else { 6 };
            let rs = some_sols(&mut r, dim, max, special);
            if f32s {
                aggregate::<f32>(&rs, q, &mut ev)
            } else {
                aggregate::<f64>(&rs, q, &mut ev)
            }
            let (nr, nc) = if r.chance(4) { *r.pick(&[(3usize, 20usize), (30, 80), (100, 300), (3, 300), (300, 6), (600, 6), (1500, 3), (2, 3000)]) } else { (r.below(5), r.below(6)) };
            // sometimes one run is much shorter
            let short = if r.chance(50) { r.below(nr + 1) } else { nr };
            // with nothing, little or much missing
            let full = nr > 100 && r.chance(50);
            let rows: Vec<Vec<Option<i64>>> = (0..nr)
                .map(|x| {
                    let miss = if full { *r.pick(&[0, 0, 0, 10]) } else { *r.pick(&[0, 30, 90]) };
                    let span = if nr > 100 { 2 } else if nr > 5 { 3 } else { 20 };
                    let n = if nc > 5 && x == short {
                        r.below(nc)
                    } else if nc > 5 {
                        nc - r.below(3)
                    } else if nr > 100 {
                        nc - r.below(2)
                    } else {
                        r.below(6)
                    };
                    (0..n).map(|_| if r.chance(miss) { None } else { Some(some_value(&mut r, special, span)) }).collect()
                })
                .collect();
            table(&rows, q, &mut ev);
        }
        out.emit(Trace { id, cfg: J::O(vec![("n", J::I(0)), ("m", J::I(0))]), ev, vals: Vals::Rank });
    }
}

pub fn suite_rates(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0xbbbb_0000);
        let id = format!("rates-{}-{}", seed, k);
        out.begin(&id);
        let mut ev = vec![];
        for _ in 0..4 {
            let f32s = r.chance(50);
            let q = some_real(&mut r, f32s);
            let dim = if r.chance(4) { *r.pick(&[9, 33, 130]) } else { r.below(4) };
            let max = if dim < 9 && r.chance(10) { *r.pick(&[60, 60, 300]) } else if dim < 2 && r.chance(3) { 5000 } else { 6 };
            let special = *r.pick(&[0, 10, 40]);
            let rs = some_sols(&mut r, dim, max, special);
            // values right on the border
            let near: Vec<i64> = rs.iter().filter_map(|z| z.as_ref()).map(|z| z.v).filter(|v| v.abs() < 100).collect();
            let d = *r.pick(&[0, 1, 2, 5, 40, PINF, NAN]);
            let mut e = r.range(-20, 20);
            if !near.is_empty() && r.chance(60) {
                e = *r.pick(&near) + *r.pick(&[0, 1, -1]) * if d < 100 { d } else { 1 };
            }
            let mut pe: Vec<i64> = (0..dim).map(|_| r.range(-20, 20)).collect();
            let odd = r.chance(50);
            let pd: Vec<i64> =
                (0..dim).map(|_| if odd { *r.pick(&[0, 1, 3, 40, PINF, NAN, 40, 40]) } else { *r.pick(&[0, 1, 3, 40, PINF]) }).collect();
            if let Some(Some(z)) = rs.get(0) {
                for c in 0..dim {
                    if z.x[c].abs() < 100 && r.chance(80) {
                        pe[c] = z.x[c] + if pd[c] < 100 { *r.pick(&[0, 1, -1]) * pd[c] } else { 0 };
                    }
                }
            }
            // solutions that miss in one coordinate, wherever it is, or in none
            let mut rs = rs;
            if dim > 0 && r.chance(if dim > 8 { 80 } else { 30 }) {
                for z in rs.iter_mut().filter_map(|z| z.as_mut()) {
                    let miss = if r.chance(70) { r.below(dim) } else { dim };
                    for c in 0..dim {
                        let w = if pd[c] < 100 { pd[c] } else { 3 };
                        z.x[c] = if pd[c] == NAN && c != miss { z.x[c] } else { pe[c] + r.range(-w, w) };
                        if c == miss {
                            z.x[c] = if r.chance(20) { NAN } else { pe[c] + *r.pick(&[-1, 1]) * (w + r.range(0, 2)) };
                        }
                    }
                }
            }
            if f32s {
                rate_goal::<f32>(&rs, e, d, q, &mut ev);
                rate_point::<f32>(&rs, &pe, &pd, q, &mut ev);
                rate_any::<f32>(&rs, q, &mut ev);
            } else {
                rate_goal::<f64>(&rs, e, d, q, &mut ev);
                rate_point::<f64>(&rs, &pe, &pd, q, &mut ev);
                rate_any::<f64>(&rs, q, &mut ev);
            }
        }
        out.emit(Trace { id, cfg: J::O(vec![("n", J::I(0)), ("m", J::I(0))]), ev, vals: Vals::Rank });
    }
}

fn leak(x: &str) -> &'static str {
    match x {
        "start" => "start",
        "resume" => "resume",
        "next" => "next",
        _ => "finish",
    }
}

/// Histories and lists enumerated by TLC.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    let one = Real { sc: 1.0, off: 0.0, psc: 1.0 };
    // several lists in one trace
    let (mut ev, mut id) = (vec![], String::new());
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(k as u64);
        let j = parse(line);
        let name = format!("stat-{}-{}", j.gs("mode"), k);
        out.begin(&name);
        let sols = || -> Sols {
            j.ga("x")
                .iter()
                .map(|y| y.arr().get(0).map(|y| Sol { x: y.get("x").unwrap().is(), v: y.gi("v"), ok: y.gb("ok") }))
                .collect()
        };
        match j.gs("mode") {
            "record" => {
                let ops: Vec<Op> = j
                    .ga("ops")
                    .iter()
                    .map(|p| {
                        let o = p.gi("o") as usize - 1;
                        if p.gs("w") == "unite" {
                            return Op::Unite(o, 1 - o);
                        }
                        let sol = p.ga("s").get(0).map(|y| (y.arr()[0].int(), val_of(y.arr()[1].int())));
                        Op::Log(leak(p.gs("w")), o, sol)
                    })
                    .collect();
                out.emit(records(&name, 2, &ops, &mut r));
                continue;
            }
            "count" => {
                let ops: Vec<(String, usize, usize)> = j
                    .ga("ops")
                    .iter()
                    .map(|p| {
                        let o = p.gi("o") as usize - 1;
                        let w = p.gs("w").to_string();
                        let n = if w == "unite" { 1 - o } else { p.gi("s") as usize };
                        (w, o, n)
                    })
                    .collect();
                out.emit(counters(&name, 2, &ops, &mut r, 1));
                continue;
            }
            "agg" => {
                aggregate::<f64>(&sols(), one, &mut ev);
                aggregate::<f32>(&sols(), one, &mut ev);
            }
            "conv" => {
                let rows: Vec<Vec<Option<i64>>> = j
                    .ga("x")
                    .iter()
                    .map(|r| r.arr().iter().map(|c| c.arr().get(0).map(|c| c.int())).collect())
                    .collect();
                table(&rows, one, &mut ev);
            }
            _ => {
                let rs = sols();
                for (e, d) in &[(0, 2), (2, 3), (-1, PINF), (1, 1)] {
                    rate_goal::<f64>(&rs, *e, *d, one, &mut ev);
                }
                rate_point::<f64>(&rs, &[0, 2], &[0, 0], one, &mut ev);
                rate_point::<f32>(&rs, &[1, 1], &[2, 1], one, &mut ev);
                rate_any::<f64>(&rs, one, &mut ev);
            }
        }
        if id.is_empty() {
            id = name;
        }
        if ev.len() >= 30 {
            let cfg = J::O(vec![("n", J::I(0)), ("m", J::I(0))]);
            out.emit(Trace { id: std::mem::take(&mut id), cfg, ev: std::mem::take(&mut ev), vals: Vals::Rank });
        }
    }
    if !ev.is_empty() {
        out.emit(Trace { id, cfg: J::O(vec![("n", J::I(0)), ("m", J::I(0))]), ev, vals: Vals::Rank });
    }
}
