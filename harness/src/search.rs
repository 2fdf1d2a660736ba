//! Whole searches of both optimizers driven by trees of shipped stop criteria.

use crate::comp_stop::{build, build_rle, far, far_tree, gen_tree, j_calls, tree_of, Codes, Rle, Rles, Sh, Shared, Tree};
use crate::core::guarded;
use crate::ga::{self, Env, E};
use crate::j::*;
use crate::out::Out;
use crate::pso::{self, PEnv};
use crate::rng::R;
use optlib::genetic::*;
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::*;
use optlib::{AlgorithmState, IterativeOptimizer, Optimizer};
use rand::rngs::thread as trng;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
enum Cmd {
    Find,
    Next,
    Set(Tree),
}

struct Log {
    ev: Vec<J>,
    /// questions that may still be asked
    left: usize,
    it: usize,
}
type L = Rc<RefCell<Log>>;

/// Records the questions to the whole criterion and gives up after some of them.
struct Root<T> {
    inner: Box<dyn StopChecker<T>>,
    sh: Sh,
    log: L,
    codes: Codes,
}
impl<T> StopChecker<T> for Root<T> {
    fn can_stop(&mut self, st: &dyn AlgorithmState<T>) -> bool {
        self.sh.borrow_mut().calls.clear();
        let (it, v) = (st.get_iteration(), st.get_best_solution().map(|x| x.1));
        let ans = self.inner.can_stop(st);
        let mut l = self.log.borrow_mut();
        l.left = l.left.saturating_sub(1);
        let forced = l.left == 0;
        let calls = self.sh.borrow().calls.clone();
        l.ev.push(J::O(vec![
            ("e", s("ask")),
            ("it", i(it)),
            ("v", self.codes.opt(v)),
            ("calls", a(calls)),
            ("a", J::B(ans)),
            ("forced", J::B(forced)),
        ]));
        if l.ev.len() > 100_000 {
            panic!("runaway");
        }
        ans || forced
    }
}

/// Notes the iteration number at the end of a call.
struct Finish {
    log: L,
}
impl<T> Logger<T> for Finish {
    fn finish(&mut self, st: &dyn AlgorithmState<T>) {
        self.log.borrow_mut().it = st.get_iteration();
    }
}

fn criterion<T: 'static>(t: &Tree, sh: &Sh, log: &L, codes: Codes) -> (Box<Root<T>>, J) {
    let mut nodes = vec![];
    let inner = build::<T>(t, &mut nodes, sh, codes);
    (Box::new(Root { inner, sh: sh.clone(), log: log.clone(), codes }), a(nodes))
}

macro_rules! drive {
    ($opt:expr, $cmds:expr, $sh:expr, $log:expr, $codes:expr, $t:ty, $limit:expr) => {
        for c in $cmds {
            let r = guarded(|| match c {
                Cmd::Set(t) => {
                    let (c, n) = criterion::<$t>(t, $sh, $log, $codes);
                    $opt.set_stop_checker(c);
                    $log.borrow_mut().ev.push(J::O(vec![("e", s("set")), ("nodes", n)]));
                }
                c => {
                    let find = matches!(c, Cmd::Find);
                    {
                        let mut l = $log.borrow_mut();
                        l.ev.push(J::O(vec![("e", s("call")), ("w", s(if find { "find" } else { "next" }))]));
                        if let Some(n) = $limit {
                            l.left = n;
                        }
                    }
                    let b = if find { $opt.find_min() } else { $opt.next_iterations() };
                    let mut l = $log.borrow_mut();
                    let it = l.it;
                    l.ev.push(J::O(vec![("e", s("ret")), ("it", i(it)), ("v", $codes.opt(b.map(|x| x.1)))]));
                }
            });
            if r.is_err() {
                $log.borrow_mut().ev.push(J::O(vec![("e", s("panic"))]));
                break;
            }
        }
    };
}

/// limit: questions per call; left: questions altogether.
fn run_ga(id: &str, e: &E<i64>, tree: &Tree, cmds: &[Cmd], scale: f64, limit: Option<usize>, left: usize, r: R, sels: Vec<Box<dyn Selection<i64>>>) -> Trace {
    let sh: Sh = Rc::new(RefCell::new(Shared { calls: vec![], script: vec![], r }));
    let log: L = Rc::new(RefCell::new(Log { ev: vec![], left, it: 0 }));
    let codes = Codes { scale };
    let (c, nodes) = criterion::<i64>(tree, &sh, &log, codes);
    {
        let mut opt = GeneticOptimizer::new(
            Box::new(ga::SGoal(e.clone())),
            c,
            Box::new(ga::SCreator(e.clone())),
            Box::new(ga::SPairing(e.clone())),
            Box::new(ga::SCross(e.clone())),
            Box::new(ga::SMutation(e.clone())),
            sels,
            vec![],
        );
        opt.set_loggers(vec![Box::new(Finish { log: log.clone() })]);
        drive!(opt, cmds, &sh, &log, codes, i64, limit);
    }
    let ev = std::mem::take(&mut log.borrow_mut().ev);
    Trace { id: id.to_string(), cfg: J::O(vec![("alg", s("ga")), ("nodes", nodes)]), ev, vals: Vals::Int }
}

fn run_pso(id: &str, e: &pso::PE, tree: &Tree, cmds: &[Cmd], scale: f64, limit: Option<usize>, left: usize, r: R) -> Trace {
    let sh: Sh = Rc::new(RefCell::new(Shared { calls: vec![], script: vec![], r }));
    let log: L = Rc::new(RefCell::new(Log { ev: vec![], left, it: 0 }));
    let codes = Codes { scale };
    let (c, nodes) = criterion::<Vec<f64>>(tree, &sh, &log, codes);
    {
        let mut opt = ParticleSwarmOptimizer::<f64>::new(
            Box::new(pso::PG(e.clone())),
            c,
            Box::new(pso::PX(e.clone())),
            Box::new(pso::PV(e.clone())),
            Box::new(pso::PC(e.clone())),
        );
        opt.set_loggers(vec![Box::new(Finish { log: log.clone() })]);
        drive!(opt, cmds, &sh, &log, codes, Vec<f64>, limit);
    }
    let ev = std::mem::take(&mut log.borrow_mut().ev);
    Trace { id: id.to_string(), cfg: J::O(vec![("alg", s("pso")), ("nodes", nodes)]), ev, vals: Vals::Int }
}

/// Goal values: small multiples of scale, sometimes special.
fn values(r: &mut R, n: usize, scale: f64) -> Vec<f64> {
    let style = r.below(5);
    let odd = *r.pick(&[0usize, 0, 5, 40]);
    let mut v = r.range(2, 12);
    (0..n)
        .map(|_| {
            match style {
                0 => v = r.range(0, 12),
                1 => v -= if r.chance(20) { 1 } else { 0 },
                2 => v -= if r.chance(8) { 3 } else { 0 },
                3 => v += r.range(-2, 1),
                _ => {}
            }
            if r.chance(odd) {
                *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
            } else {
                v as f64 * scale
            }
        })
        .collect()
}

pub fn suite(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x5e_a2c4_0000);
        trng::seed(r.next());
        let id = format!("search-{}-{}", seed, k);
        out.begin(&id);
        let scale = 2f64.powi(*r.pick(&[0, 0, 0, -1, -40, 40]));
        let long = r.chance(4);
        let tree = |r: &mut R| match r.below(5) {
            0 => Tree::Max(if long { r.below(600) } else { r.below(12) }),
            1 => Tree::Gnc(if long { r.below(300) } else { r.below(6) }, r.range(0, 3) as f64 * scale),
            2 => Tree::Thr(r.range(-3, 10) as f64 * scale),
            _ => gen_tree(r, 3, scale, true),
        };
        let t0 = tree(&mut r);
        let mut cmds = vec![Cmd::Find];
        for _ in 0..r.below(6) {
            if r.chance(20) {
                cmds.push(Cmd::Set(tree(&mut r)));
            }
            cmds.push(if r.chance(50) { Cmd::Find } else { Cmd::Next });
        }
        let limit = if long { r.range(300, 700) } else { r.range(5, 40) } as usize;
        let vals = values(&mut r, if long { 4000 } else { 600 }, scale);
        let q = R::new(r.next());
        let t = if k % 2 == 0 {
            let mut m = 0i64;
            let e = Env::new(R::new(r.next()), Box::new(move |_| { m += 1; m }));
            let simple = r.chance(50);
            {
                let mut x = e.borrow_mut();
                x.vals = vals.into();
                x.valmode = 9;
                x.n0 = if simple { 1 } else { r.below(5) };
                x.maxpop = if long { 4 } else { 8 };
                x.kill = 30;
            }
            // simple: every child replaces its parent
            let sels: Vec<Box<dyn Selection<i64>>> = if simple {
                vec![Box::new(KillOld)]
            } else if r.chance(50) {
                vec![Box::new(selection::KillFitnessNaN::new()), Box::new(selection::LimitPopulation::new(3))]
            } else {
                vec![Box::new(ga::SSelection(e.clone()))]
            };
            if simple {
                one_child(&e);
            }
            run_ga(&id, &e, &t0, &cmds, scale, Some(limit), 0, q, sels)
        } else {
            let e = PEnv::new(R::new(r.next()));
            {
                let mut x = e.borrow_mut();
                x.vals = vals.into();
                x.valmode = 9;
                x.n0 = r.below(4);
            }
            run_pso(&id, &e, &t0, &cmds, scale, Some(limit), 0, q)
        };
        out.emit(t);
    }
}

/// Keeps the last individual only.
struct KillOld;
impl<T> Selection<T> for KillOld {
    fn kill(&mut self, p: &mut Population<T>) {
        let n = p.len();
        for (k, x) in p.iter_mut().enumerate() {
            if k + 1 < n {
                x.kill();
            }
        }
    }
}

/// Each generation has one family of the only individual, with one child.
fn one_child(e: &E<i64>) {
    let mut x = e.borrow_mut();
    for k in 0..5000 {
        x.fams.push_back(vec![vec![0]]);
        x.crosses.push_back(vec![k + 10]);
        x.muts.push_back(k + 10);
    }
}

/// Searches enumerated by TLC.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("search-script-{}", k);
        out.begin(&id);
        let j = parse(line);
        let (mut tree, mut ga, mut cmds, mut vals, mut asked) = (None, true, vec![], vec![], 0);
        for x in j.arr() {
            match x.gs("c") {
                "cfg" => {
                    ga = x.gs("alg") == "ga";
                    tree = Some(tree_of(x.ga("nodes"), 1));
                }
                "set" => cmds.push(Cmd::Set(tree_of(x.ga("nodes"), 1))),
                "find" => {
                    if ga {
                        vals.push(0.0); // of the first individual, not reported
                    }
                    cmds.push(Cmd::Find)
                }
                "next" => cmds.push(Cmd::Next),
                "v" => vals.push(val_of(x.gi("x"))),
                _ => asked = x.gi("n") as usize,
            }
        }
        let r = R::new(k as u64);
        let t = if ga {
            let mut m = 0i64;
            let e = Env::new(R::new(1), Box::new(move |_| { m += 1; m }));
            {
                let mut x = e.borrow_mut();
                x.vals = vals.into();
                x.n0 = 1;
            }
            one_child(&e);
            run_ga(&id, &e, &tree.unwrap(), &cmds, 1.0, None, asked, r, vec![Box::new(KillOld)])
        } else {
            let e = PEnv::new(R::new(1));
            {
                let mut x = e.borrow_mut();
                x.vals = vals.into();
                x.n0 = 1;
            }
            run_pso(&id, &e, &tree.unwrap(), &cmds, 1.0, None, asked, r)
        };
        out.emit(t);
    }
}

// ---- very long searches ----

#[derive(Default)]
struct Far {
    ev: Vec<J>,
    asks: Rle,
    heard: Vec<(usize, usize)>,
    it: usize,
    left: usize,
}
type F = Rc<RefCell<Far>>;

/// Records the questions to the whole criterion.
struct FarRoot<T> {
    inner: Box<dyn StopChecker<T>>,
    to: Rles,
    log: F,
    codes: Codes,
}
fn flush(l: &mut Far, to: &Rles, codes: Codes, forced: bool) {
    let q = std::mem::take(&mut l.asks);
    if let Some((it, n, v)) = q.first() {
        l.ev.push(J::O(vec![
            ("e", s("asks")),
            ("it", i(it)),
            ("n", i(n)),
            ("v", codes.opt(v)),
            ("calls", j_calls(to, codes)),
            ("segs", q.j_segs()),
            ("forced", J::B(forced)),
        ]));
    }
}
impl<T> StopChecker<T> for FarRoot<T> {
    fn can_stop(&mut self, st: &dyn AlgorithmState<T>) -> bool {
        let (it, v) = (st.get_iteration(), st.get_best_solution().map(|x| x.1));
        {
            let mut l = self.log.borrow_mut();
            if !l.asks.goes_on(it, v) || l.asks.said_yes() {
                flush(&mut l, &self.to, self.codes, false);
            }
        }
        let ans = self.inner.can_stop(st);
        let mut l = self.log.borrow_mut();
        l.asks.put(it, v, ans);
        l.left -= 1;
        if l.left == 0 && !ans {
            flush(&mut l, &self.to, self.codes, true);
        }
        ans || l.left == 0
    }
}
struct FarLog {
    log: F,
}
impl<T> Logger<T> for FarLog {
    fn next_iteration(&mut self, st: &dyn AlgorithmState<T>) {
        let it = st.get_iteration();
        let mut l = self.log.borrow_mut();
        match l.heard.last_mut() {
            Some(x) if x.0 + x.1 == it => x.1 += 1,
            _ => l.heard.push((it, 1)),
        }
    }
    fn finish(&mut self, st: &dyn AlgorithmState<T>) {
        self.log.borrow_mut().it = st.get_iteration();
    }
}

/// The goal value stays the same for long.
struct Course {
    vals: Vec<f64>,
    each: usize,
    n: usize,
}
impl Course {
    fn next(&mut self) -> f64 {
        self.n += 1;
        self.vals[(self.n - 1) / self.each % self.vals.len()]
    }
}
type Co = Rc<RefCell<Course>>;
struct CGoal(Co);
impl<T> optlib::Goal<T> for CGoal {
    fn get(&mut self, _: &T) -> f64 {
        self.0.borrow_mut().next()
    }
}
struct One;
impl Creator<i64> for One {
    fn create(&mut self) -> Vec<i64> {
        vec![0]
    }
}
impl Pairing<i64> for One {
    fn get_pairs(&mut self, _: &Population<i64>) -> Vec<Vec<usize>> {
        vec![vec![0]]
    }
}
impl Cross<i64> for One {
    fn cross(&mut self, p: &[&i64]) -> Vec<i64> {
        vec![*p[0]]
    }
}
impl Mutation<i64> for One {
    fn mutation(&mut self, x: &i64) -> i64 {
        *x
    }
}
impl CoordinatesInitializer<f64> for One {
    fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
        vec![vec![0.0]]
    }
}
impl VelocityInitializer<f64> for One {
    fn get_velocity(&mut self) -> Vec<Vec<f64>> {
        vec![vec![0.0]]
    }
}
impl VelocityCalculator<f64> for One {
    fn calc_new_velocity(&mut self, _: &Swarm<f64>, _: &Particle<f64>) -> Vec<f64> {
        vec![0.0]
    }
}

fn far_criterion<T: 'static>(t: &Tree, to: &Rles, log: &F, codes: Codes) -> (Box<FarRoot<T>>, J) {
    let mut nodes = vec![];
    let inner = build_rle::<T>(t, &mut nodes, to, codes);
    (Box::new(FarRoot { inner, to: to.clone(), log: log.clone(), codes }), a(nodes))
}
macro_rules! march {
    ($opt:expr, $cmds:expr, $to:expr, $log:expr, $codes:expr, $t:ty, $limit:expr) => {
        for c in $cmds {
            let r = guarded(|| match c {
                Cmd::Set(t) => {
                    let (c, n) = far_criterion::<$t>(t, $to, $log, $codes);
                    $opt.set_stop_checker(c);
                    $log.borrow_mut().ev.push(J::O(vec![("e", s("set")), ("nodes", n)]));
                }
                c => {
                    let find = matches!(c, Cmd::Find);
                    {
                        let mut l = $log.borrow_mut();
                        l.left = $limit;
                        l.heard.clear();
                        l.ev.push(J::O(vec![("e", s("call")), ("w", s(if find { "find" } else { "next" }))]));
                    }
                    let b = if find { $opt.find_min() } else { $opt.next_iterations() };
                    let mut l = $log.borrow_mut();
                    flush(&mut l, $to, $codes, false);
                    let h = l.heard.iter().map(|x| J::O(vec![("it", i(x.0)), ("n", i(x.1))])).collect();
                    let it = l.it;
                    l.ev.push(J::O(vec![("e", s("heard")), ("h", a(h))]));
                    l.ev.push(J::O(vec![("e", s("ret")), ("it", i(it)), ("v", $codes.opt(b.map(|x| x.1)))]));
                }
            });
            if r.is_err() {
                $log.borrow_mut().ev.push(J::O(vec![("e", s("panic"))]));
                break;
            }
        }
    };
}

/// Searches of very many iterations.
pub fn marathon(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x5e_a2c4_4000);
        let id = format!("marathon-{}-{}", seed, k);
        out.begin(&id);
        let codes = Codes { scale: 1.0 };
        let most = if k % 16 < 2 { 1 << 25 } else { 200_000 };
        let limit = if k % 16 < 2 { (1 << 24) + 100 } else { 270_000 };
        let tree = |r: &mut R| if r.chance(50) { Tree::Max(far(r, most)) } else { far_tree(r, 2, most, 1.0) };
        let t0 = if k % 16 < 2 { Tree::Max((1 << 24) + 3) } else { tree(&mut r) };
        let mut cmds = vec![Cmd::Find];
        if k % 16 >= 2 {
            for _ in 0..r.below(4) {
                if r.chance(30) {
                    cmds.push(Cmd::Set(tree(&mut r)));
                }
                cmds.push(if r.chance(50) { Cmd::Find } else { Cmd::Next });
            }
        }
        let mut v = 40;
        let vals = (0..30)
            .map(|_| {
                v -= r.range(0, 3);
                v as f64
            })
            .collect();
        let co = Rc::new(RefCell::new(Course { vals, each: (far(&mut r, most) + 1).max(limit / 1000), n: 0 }));
        let to: Rles = Rc::new(RefCell::new(vec![]));
        let log: F = Rc::new(RefCell::new(Far::default()));
        let (alg, nodes) = if k % 2 == 0 {
            let (c, nodes) = far_criterion::<i64>(&t0, &to, &log, codes);
            let mut opt = GeneticOptimizer::new(
                Box::new(CGoal(co)),
                c,
                Box::new(One),
                Box::new(One),
                Box::new(One),
                Box::new(One),
                vec![Box::new(KillOld)],
                vec![],
            );
            opt.set_loggers(vec![Box::new(FarLog { log: log.clone() })]);
            march!(opt, &cmds, &to, &log, codes, i64, limit);
            ("ga", nodes)
        } else {
            let (c, nodes) = far_criterion::<Vec<f64>>(&t0, &to, &log, codes);
            let mut opt = ParticleSwarmOptimizer::<f64>::new(Box::new(CGoal(co)), c, Box::new(One), Box::new(One), Box::new(One));
            opt.set_loggers(vec![Box::new(FarLog { log: log.clone() })]);
            march!(opt, &cmds, &to, &log, codes, Vec<f64>, limit);
            ("pso", nodes)
        };
        let ev = std::mem::take(&mut log.borrow_mut().ev);
        out.emit(Trace { id, cfg: J::O(vec![("alg", s(alg)), ("nodes", nodes)]), ev, vals: Vals::Int });
    }
}
