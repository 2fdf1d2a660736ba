//! Text loggers.

use crate::core::guarded;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use optlib::genetic::{self, *};
use optlib::tools::logging::*;
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use rand::rngs::thread as trng;
use std::cell::RefCell;
use std::fmt::Display;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// A value to be printed.
#[derive(Clone, Copy, Debug)]
enum Val {
    Eighths(i64),
    Exact(f64),
}
impl Val {
    fn f(&self) -> f64 {
        match self {
            Val::Eighths(a) => *a as f64 / 8.0,
            Val::Exact(v) => *v,
        }
    }
    fn j(&self, integer: bool) -> J {
        match self {
            Val::Eighths(a) if integer => J::O(vec![("k", s("int")), ("a", J::I(*a))]),
            Val::Eighths(a) => J::O(vec![("k", s("dy")), ("a", J::I(*a))]),
            Val::Exact(v) => J::O(vec![("k", s("v")), ("v", J::V(*v))]),
        }
    }
}
trait Co: Clone + Display + 'static {
    const INTEGER: bool;
    fn of(v: &Val) -> Self;
}
impl Co for f64 {
    const INTEGER: bool = false;
    fn of(v: &Val) -> f64 {
        v.f()
    }
}
impl Co for f32 {
    const INTEGER: bool = false;
    fn of(v: &Val) -> f32 {
        v.f() as f32
    }
}
impl Co for i64 {
    const INTEGER: bool = true;
    fn of(v: &Val) -> i64 {
        match v {
            Val::Eighths(a) => *a,
            Val::Exact(_) => 0,
        }
    }
}

#[derive(Clone, Debug)]
struct Sol {
    x: Vec<Val>,
    v: Val,
}
fn sol_json(x: &Option<Sol>, integer: bool) -> J {
    a(x.iter()
        .map(|y| {
            J::O(vec![
                ("x", a(y.x.iter().map(|c| c.j(integer)).collect())),
                ("v", y.v.j(false)),
            ])
        })
        .collect())
}

struct State<T> {
    best: Option<(Vec<T>, f64)>,
    it: usize,
}
impl<T: Clone> AlgorithmState<Vec<T>> for State<T> {
    fn get_best_solution(&self) -> Option<(Vec<T>, f64)> {
        self.best.clone()
    }
    fn get_iteration(&self) -> usize {
        self.it
    }
}

// ---- output ----

fn token(x: &str) -> J {
    let body = x.trim_start_matches('-');
    let special = body == "NaN" || body == "inf";
    let number = !body.is_empty()
        && x.len() <= body.len() + 1
        && body.matches('.').count() <= 1
        && body.chars().all(|c| c == '.' || c.is_ascii_digit());
    if !special && !number {
        return J::O(vec![("k", s("word")), ("w", s(x))]);
    }
    let mut parts = body.splitn(2, '.');
    let int = parts.next().unwrap();
    let frac = parts.next().unwrap_or("");
    let digits: Vec<i64> = frac.bytes().map(|c| c as i64 - 48).collect();
    J::O(vec![
        ("k", s("num")),
        ("neg", J::B(x.starts_with('-'))),
        ("int", J::I(int.parse::<i64>().ok().filter(|v| *v < 1_000_000_000).unwrap_or(999_999_999))),
        ("frac", ints(&digits)),
        ("v", J::V(x.parse().unwrap_or(f64::NAN))),
    ])
}

fn lines(b: &[u8]) -> J {
    let text = String::from_utf8_lossy(b).to_string();
    let mut l: Vec<&str> = text.split('\n').collect();
    // the last line is ended as well
    if l.last() == Some(&"") {
        l.pop();
    } else {
        l.push("unterminated");
    }
    a(l.iter().map(|x| a(x.split_whitespace().map(token).collect())).collect())
}

#[derive(Clone)]
struct Sink(Rc<RefCell<Vec<u8>>>);
impl Sink {
    fn new() -> Sink {
        Sink(Rc::new(RefCell::new(vec![])))
    }
    fn take(&self) -> J {
        lines(&std::mem::replace(&mut *self.0.borrow_mut(), vec![]))
    }
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Step {
    w: &'static str,
    it: usize,
    sol: Option<Sol>,
    sleep: u64,
}

fn ms(d: Duration) -> J {
    J::I(d.as_millis() as i64)
}

fn calls<T: Co>(id: &str, p: usize, steps: &[Step]) -> Trace {
    let mut ev = vec![];
    let (sv, sr, st) = (Sink::new(), Sink::new(), Sink::new());
    let (mut wv, mut wr, mut wt) = (sv.clone(), sr.clone(), st.clone());
    let res = guarded(|| {
        let mut lv = VerboseLogger::new(&mut wv, p);
        let mut lr = ResultOnlyLogger::new(&mut wr, p);
        let mut lt = TimeLogger::new(&mut wt);
        let (mut early, mut late) = (Instant::now(), Instant::now());
        for x in steps {
            if x.sleep > 0 {
                std::thread::sleep(Duration::from_millis(x.sleep));
            }
            let state = State::<T> {
                best: x.sol.as_ref().map(|y| (y.x.iter().map(|c| T::of(c)).collect(), y.v.f())),
                it: x.it,
            };
            let ls: [&mut dyn Logger<Vec<T>>; 3] = [&mut lv, &mut lr, &mut lt];
            let begin = Instant::now();
            let lo = begin.duration_since(late);
            for l in ls {
                match x.w {
                    "start" => l.start(&state),
                    "resume" => l.resume(&state),
                    "next" => l.next_iteration(&state),
                    _ => l.finish(&state),
                }
            }
            let end = Instant::now();
            let hi = end.duration_since(early);
            if x.w == "resume" {
                early = begin;
                late = end;
            }
            ev.push(J::O(vec![
                ("e", s("call")),
                ("w", s(x.w)),
                ("it", i(x.it)),
                ("s", sol_json(&x.sol, T::INTEGER)),
                ("out", J::O(vec![("verbose", sv.take()), ("result", sr.take()), ("time", st.take())])),
                ("lo", ms(lo)),
                ("hi", ms(hi)),
            ]));
        }
    });
    if res.is_err() {
        ev.push(J::O(vec![("e", s("panic"))]));
    }
    Trace { id: id.to_string(), cfg: J::O(vec![("p", i(p))]), ev, vals: Vals::Rank }
}

fn some_val(r: &mut R, p: usize, f32s: bool) -> Val {
    match r.below(10) {
        0 => Val::Exact(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
        1 if !f32s => Val::Exact(*r.pick(&[1e300, -1e300, 123456789012345678.0, f64::MAX, 4503599627370497.0])),
        1 => Val::Exact(*r.pick(&[f32::MAX, 16777216.0, -1e30f32]) as f64),
        2 if p >= 1080 && !f32s => Val::Exact(*r.pick(&[5e-324, 0.1, -2.5e-300, std::f64::consts::PI])),
        2 | 3 => Val::Eighths(*r.pick(&[0, 1, -1, 4, -4, 8 * 99 + 7, -8 * 9999 - 7, 8 * 999_999 + 7])),
        _ => Val::Eighths(r.range(-200, 200)),
    }
}

fn some_sol(r: &mut R, p: usize, f32s: bool, integer: bool) -> Option<Sol> {
    if r.chance(25) {
        return None;
    }
    let d = if r.chance(2) { *r.pick(&[33usize, 130, 300, 5000]) } else { *r.pick(&[0usize, 1, 1, 2, 3, 8]) };
    Some(Sol {
        x: (0..d)
            .map(|_| if integer { Val::Eighths(r.range(-900, 900)) } else { some_val(r, p, f32s) })
            .collect(),
        v: some_val(r, p, false),
    })
}

fn precision(r: &mut R) -> usize {
    match r.below(12) {
        0 => 1090,
        1 => 40,
        _ => r.below(9),
    }
}

fn some_steps(r: &mut R, p: usize, f32s: bool, integer: bool) -> Vec<Step> {
    let mut out = vec![];
    let mut it = 0;
    let runs = r.range(1, 4);
    let long = r.chance(2);
    for k in 0..runs {
        if k == 0 || r.chance(50) {
            it = 0;
            out.push(Step { w: "start", it, sol: some_sol(r, p, f32s, integer), sleep: 0 });
        } else if r.chance(30) {
            it += r.below(200_000_000);
        }
        let nap = |r: &mut R| if r.chance(12) { r.range(1, 6) as u64 } else { 0 };
        let n = nap(r);
        out.push(Step { w: "resume", it, sol: some_sol(r, p, f32s, integer), sleep: n });
        for _ in 0..(if long { r.below(300) } else { r.below(6) }) {
            it += 1;
            let n = if long { 0 } else { nap(r) };
            out.push(Step { w: "next", it, sol: some_sol(r, p, f32s, integer), sleep: n });
        }
        let n = nap(r);
        out.push(Step { w: "finish", it, sol: some_sol(r, p, f32s, integer), sleep: n });
    }
    out
}

// ---- real searches ----

type P = Vec<f64>;
struct Seen {
    left: usize,
    bests: Vec<J>,
}
struct StopSpy(Rc<RefCell<Seen>>);
impl StopChecker<P> for StopSpy {
    fn can_stop(&mut self, st: &dyn AlgorithmState<P>) -> bool {
        let mut x = self.0.borrow_mut();
        let sol = st.get_best_solution().map(|(x, v)| Sol {
            x: x.iter().map(|c| Val::Eighths((c * 8.0) as i64)).collect(),
            v: if v.is_finite() { Val::Eighths((v * 8.0) as i64) } else { Val::Exact(v) },
        });
        x.bests.push(J::O(vec![("it", i(st.get_iteration())), ("s", sol_json(&sol, false))]));
        if x.left == 0 {
            return true;
        }
        x.left -= 1;
        std::thread::sleep(Duration::from_millis(1));
        false
    }
}
/// Points and goal values are multiples of 1/8.
struct Grid(Rc<RefCell<R>>, usize, usize);
impl genetic::Creator<P> for Grid {
    fn create(&mut self) -> Vec<P> {
        let mut r = self.0.borrow_mut();
        (0..self.1).map(|_| (0..self.2).map(|_| r.range(-80, 80) as f64 / 8.0).collect()).collect()
    }
}
impl genetic::Cross<P> for Grid {
    fn cross(&mut self, x: &[&P]) -> Vec<P> {
        vec![x[0].clone()]
    }
}
impl genetic::Mutation<P> for Grid {
    fn mutation(&mut self, x: &P) -> P {
        let mut r = self.0.borrow_mut();
        x.iter().map(|v| v + r.range(-4, 4) as f64 / 8.0).collect()
    }
}
struct GridGoal(bool);
impl Goal<P> for GridGoal {
    fn get(&mut self, x: &P) -> f64 {
        if self.0 {
            return f64::NAN;
        }
        x.iter().enumerate().map(|(n, v)| if n % 2 == 0 { v.abs() } else { -v }).sum()
    }
}

fn searches(id: &str, r: &mut R) -> Trace {
    let p = precision(r);
    let mut ev = vec![];
    let (sv, sr, st) = (Sink::new(), Sink::new(), Sink::new());
    let (mut wv, mut wr, mut wt) = (sv.clone(), sr.clone(), st.clone());
    let seen = Rc::new(RefCell::new(Seen { left: 0, bests: vec![] }));
    let q = Rc::new(RefCell::new(R::new(r.next())));
    let (size, dim) = (r.range(1, 8) as usize, r.range(1, 4) as usize);
    let grid = || Grid(q.clone(), size, dim);
    let res = guarded(|| {
        let mut o = GeneticOptimizer::new(
            Box::new(GridGoal(r.chance(15))),
            Box::new(StopSpy(seen.clone())),
            Box::new(grid()),
            Box::new(pairing::RandomPairing::new()),
            Box::new(grid()),
            Box::new(grid()),
            vec![Box::new(selection::KillFitnessNaN::new()), Box::new(selection::LimitPopulation::new(size))],
            vec![],
        );
        o.set_loggers(vec![
            Box::new(VerboseLogger::new(&mut wv, p)),
            Box::new(ResultOnlyLogger::new(&mut wr, p)),
            Box::new(TimeLogger::new(&mut wt)),
        ]);
        for k in 0..r.range(1, 5) {
            let new = k == 0 || r.chance(40);
            {
                let mut x = seen.borrow_mut();
                x.left = r.below(5);
                x.bests.clear();
            }
            if r.chance(50) {
                // a pause: it does not count
                std::thread::sleep(Duration::from_millis(3));
            }
            let least = seen.borrow().left;
            let t = Instant::now();
            if new {
                o.find_min();
            } else {
                o.next_iterations();
            }
            let hi = t.elapsed();
            let bs = std::mem::replace(&mut seen.borrow_mut().bests, vec![]);
            ev.push(J::O(vec![
                ("e", s("session")),
                ("new", J::B(new)),
                ("bs", a(bs)),
                ("out", J::O(vec![("verbose", sv.take()), ("result", sr.take()), ("time", st.take())])),
                ("lo", i(least)),
                ("hi", ms(hi)),
            ]));
        }
    });
    if res.is_err() {
        ev.push(J::O(vec![("e", s("panic"))]));
    }
    Trace { id: id.to_string(), cfg: J::O(vec![("p", i(p))]), ev, vals: Vals::Rank }
}

pub fn suite(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0xcccc_0000);
        trng::seed(r.next());
        let id = format!("text-{}-{}", seed, k);
        out.begin(&id);
        let p = precision(&mut r);
        out.emit(match k % 7 {
            0 | 1 => {
                let st = some_steps(&mut r, p, false, false);
                calls::<f64>(&id, p, &st)
            }
            2 | 3 => {
                let st = some_steps(&mut r, p, true, false);
                calls::<f32>(&id, p, &st)
            }
            4 => {
                let mut st = some_steps(&mut r, p, false, true);
                if k < 7 {
                    // longer than a second
                    let last = st.len() - 1;
                    st[last].sleep = 1020;
                }
                calls::<i64>(&id, p, &st)
            }
            _ => searches(&id, &mut r),
        });
    }
}

fn which(x: &str) -> &'static str {
    match x {
        "start" => "start",
        "resume" => "resume",
        "next" => "next",
        _ => "finish",
    }
}

/// Histories enumerated by TLC.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("text-script-{}", k);
        out.begin(&id);
        let j = parse(line);
        let steps: Vec<Step> = j
            .ga("hist")
            .iter()
            .map(|h| Step {
                w: which(h.gs("w")),
                it: h.gi("it") as usize,
                sol: h.ga("s").get(0).map(|y| Sol {
                    x: y.ga("x").iter().map(|c| Val::Eighths(c.gi("a"))).collect(),
                    v: Val::Eighths(y.get("v").unwrap().gi("a")),
                }),
                sleep: if k % 8 == 0 { h.gi("dt") as u64 } else { 0 },
            })
            .collect();
        let p = j.gi("p") as usize;
        out.emit(if k % 2 == 0 { calls::<f64>(&id, p, &steps) } else { calls::<f32>(&id, p, &steps) });
    }
}
