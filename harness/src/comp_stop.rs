//! Stop criteria: histories of states shown to trees of criteria.

use crate::core::guarded;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use optlib::tools::stopchecker::*;
use optlib::AlgorithmState;
use std::cell::RefCell;
use std::rc::Rc;

struct State {
    it: usize,
    best: Option<f64>,
}
impl AlgorithmState<i64> for State {
    fn get_best_solution(&self) -> Option<(i64, f64)> {
        self.best.map(|v| (7, v))
    }
    fn get_iteration(&self) -> usize {
        self.it
    }
}

#[derive(Clone, Debug)]
pub enum Tree {
    Max(usize),
    Thr(f64),
    /// iterations, delta, both as the library gets them
    Gnc(usize, f64),
    Spy,
    Any(Vec<Tree>),
    All(Vec<Tree>),
}

pub struct Shared {
    pub calls: Vec<J>,
    pub script: Vec<bool>,
    pub r: R,
}
pub type Sh = Rc<RefCell<Shared>>;

/// Records what the member is shown and what it answers.
struct Leaf<T> {
    node: i64,
    inner: Option<Box<dyn StopChecker<T>>>,
    sh: Sh,
    codes: Codes,
}
/// goal values as written in the trace (before the library's scaling)
#[derive(Clone, Copy)]
pub struct Codes {
    pub scale: f64,
}
impl Codes {
    pub fn v(&self, x: f64) -> J {
        // the largest numbers: farther from all others than any delta
        if x.abs() == f64::MAX && self.scale != 0.0 {
            return J::V(899_999_999f64.copysign(x));
        }
        J::V(x / self.scale)
    }
    pub fn opt(&self, x: Option<f64>) -> J {
        a(x.iter().map(|y| self.v(*y)).collect())
    }
}
impl<T> StopChecker<T> for Leaf<T> {
    fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
        let ans = match &mut self.inner {
            Some(c) => c.can_stop(state),
            None => {
                let mut sh = self.sh.borrow_mut();
                if sh.script.is_empty() {
                    sh.r.chance(50)
                } else {
                    sh.script.remove(0)
                }
            }
        };
        let c = J::O(vec![
            ("k", J::I(self.node)),
            ("a", J::B(ans)),
            ("it", i(state.get_iteration())),
            ("v", self.codes.opt(state.get_best_solution().map(|s| s.1))),
        ]);
        self.sh.borrow_mut().calls.push(c);
        ans
    }
}

/// Builds the criterion and its description: nodes in preorder.
pub fn build<T: 'static>(t: &Tree, nodes: &mut Vec<J>, sh: &Sh, codes: Codes) -> Box<dyn StopChecker<T>> {
    let me = nodes.len();
    nodes.push(J::B(false));
    let leaf = |inner: Option<Box<dyn StopChecker<T>>>| {
        Box::new(Leaf { node: me as i64 + 1, inner, sh: sh.clone(), codes }) as Box<dyn StopChecker<T>>
    };
    let node = |k: &str, n: J, d: J, kids: Vec<usize>| J::O(vec![("k", s(k)), ("n", n), ("d", d), ("kids", us(&kids))]);
    let (c, j) = match t {
        Tree::Max(n) => (leaf(Some(Box::new(MaxIterations::new(*n)))), node("max", i(*n), J::I(0), vec![])),
        Tree::Thr(d) => (leaf(Some(Box::new(Threshold::new(*d)))), node("thr", J::I(0), codes.v(*d), vec![])),
        Tree::Gnc(n, d) => (leaf(Some(Box::new(GoalNotChange::new(*n, *d)))), node("gnc", i(*n), codes.v(*d), vec![])),
        Tree::Spy => (leaf(None), node("spy", J::I(0), J::I(0), vec![])),
        Tree::Any(x) | Tree::All(x) => {
            let mut kids = vec![];
            let members: Vec<Box<dyn StopChecker<T>>> = x
                .iter()
                .map(|y| {
                    kids.push(nodes.len() + 1);
                    build(y, nodes, sh, codes)
                })
                .collect();
            if let Tree::Any(_) = t {
                (Box::new(CompositeAny::new(members)) as Box<dyn StopChecker<T>>, node("any", J::I(0), J::I(0), kids))
            } else {
                (Box::new(CompositeAll::new(members)) as Box<dyn StopChecker<T>>, node("all", J::I(0), J::I(0), kids))
            }
        }
    };
    nodes[me] = j;
    c
}

/// Questions in a row about consecutive iterations with the same value, run-length coded.
#[derive(Default)]
pub struct Rle {
    shown: Vec<(usize, usize, Option<f64>)>,
    segs: Vec<(bool, usize)>,
}
fn same(x: Option<f64>, y: Option<f64>) -> bool {
    x.map(|v| v.to_bits()) == y.map(|v| v.to_bits())
}
impl Rle {
    /// Whether this question is about the iteration after that of the previous one, with the same value.
    pub fn goes_on(&self, it: usize, v: Option<f64>) -> bool {
        self.shown.last().map_or(false, |x| x.0 + x.1 == it && same(x.2, v))
    }
    pub fn put(&mut self, it: usize, v: Option<f64>, a: bool) {
        if self.goes_on(it, v) {
            self.shown.last_mut().unwrap().1 += 1;
        } else {
            self.shown.push((it, 1, v));
        }
        match self.segs.last_mut() {
            Some(x) if x.0 == a => x.1 += 1,
            _ => self.segs.push((a, 1)),
        }
    }
    pub fn first(&self) -> Option<(usize, usize, Option<f64>)> {
        self.shown.first().copied()
    }
    pub fn j_segs(&self) -> J {
        a(self.segs.iter().map(|x| J::O(vec![("a", J::B(x.0)), ("n", i(x.1))])).collect())
    }
    pub fn said_yes(&self) -> bool {
        self.segs.last().map_or(false, |x| x.0)
    }
}

/// A member that is asked very often.
struct RleLeaf<T> {
    node: usize,
    inner: Box<dyn StopChecker<T>>,
    to: Rles,
}
pub type Rles = Rc<RefCell<Vec<(usize, Rle)>>>;
impl<T> StopChecker<T> for RleLeaf<T> {
    fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
        let ans = self.inner.can_stop(state);
        let mut to = self.to.borrow_mut();
        let (it, v) = (state.get_iteration(), state.get_best_solution().map(|s| s.1));
        match to.iter_mut().find(|x| x.0 == self.node) {
            Some(x) => x.1.put(it, v, ans),
            None => {
                let mut x = Rle::default();
                x.put(it, v, ans);
                to.push((self.node, x));
            }
        }
        ans
    }
}
pub fn j_calls(to: &Rles, codes: Codes) -> J {
    let mut to = to.borrow_mut();
    let calls: Vec<J> = to.drain(..).map(|(k, x)| {
        J::O(vec![
            ("k", i(k)),
            ("segs", x.j_segs()),
            ("shown", a(x.shown.iter().map(|y| J::O(vec![("it", i(y.0)), ("n", i(y.1)), ("v", codes.opt(y.2))])).collect())),
        ])
    }).collect();
    a(calls)
}
/// As `build`, for trees without spies.
pub fn build_rle<T: 'static>(t: &Tree, nodes: &mut Vec<J>, to: &Rles, codes: Codes) -> Box<dyn StopChecker<T>> {
    let me = nodes.len();
    nodes.push(J::B(false));
    let node = |k: &str, n: J, d: J, kids: Vec<usize>| J::O(vec![("k", s(k)), ("n", n), ("d", d), ("kids", us(&kids))]);
    let leaf = |inner: Box<dyn StopChecker<T>>| Box::new(RleLeaf { node: me + 1, inner, to: to.clone() }) as Box<dyn StopChecker<T>>;
    let (c, j) = match t {
        Tree::Max(n) => (leaf(Box::new(MaxIterations::new(*n))), node("max", i(*n), J::I(0), vec![])),
        Tree::Thr(d) => (leaf(Box::new(Threshold::new(*d))), node("thr", J::I(0), codes.v(*d), vec![])),
        Tree::Gnc(n, d) => (leaf(Box::new(GoalNotChange::new(*n, *d))), node("gnc", i(*n), codes.v(*d), vec![])),
        Tree::Spy => unreachable!(),
        Tree::Any(x) | Tree::All(x) => {
            let mut kids = vec![];
            let mut members: Vec<Box<dyn StopChecker<T>>> = vec![];
            for y in x {
                kids.push(nodes.len() + 1);
                members.push(build_rle(y, nodes, to, codes));
            }
            if let Tree::Any(_) = t {
                (Box::new(CompositeAny::new(members)) as Box<dyn StopChecker<T>>, node("any", J::I(0), J::I(0), kids))
            } else {
                (Box::new(CompositeAll::new(members)) as Box<dyn StopChecker<T>>, node("all", J::I(0), J::I(0), kids))
            }
        }
    };
    nodes[me] = j;
    c
}

/// A number of iterations, often near a power of two.
pub fn far(r: &mut R, most: usize) -> usize {
    let n = if r.chance(80) {
        (1usize << r.range(6, 24)) as i64 + r.range(-2, 3)
    } else {
        r.range(300, 300_000)
    };
    (n as usize).min(most)
}
pub fn far_tree(r: &mut R, depth: usize, most: usize, scale: f64) -> Tree {
    if depth > 0 && r.chance(50) {
        let n = r.range(1, 3);
        let m: Vec<Tree> = (0..n).map(|_| far_tree(r, depth - 1, most, scale)).collect();
        return if r.chance(50) { Tree::Any(m) } else { Tree::All(m) };
    }
    match r.below(5) {
        0 | 1 => Tree::Max(far(r, most)),
        2 | 3 => Tree::Gnc(far(r, most), r.range(0, 3) as f64 * scale),
        _ => Tree::Thr(r.range(-3, 10) as f64 * scale),
    }
}

/// Very long runs, shown to criteria.
pub fn long(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x7777_4000);
        let id = format!("stop-long-{}-{}", seed, k);
        out.begin(&id);
        let codes = Codes { scale: 2f64.powi(*r.pick(&[0, 0, -1, 40])) };
        let most = if k % 8 == 0 { 1 << 25 } else { 300_000 };
        let tree = far_tree(&mut r, 2, most, codes.scale);
        let to: Rles = Rc::new(RefCell::new(vec![]));
        let (mut nodes, mut ev) = (vec![], vec![]);
        let res = guarded(|| {
            let mut c = build_rle::<i64>(&tree, &mut nodes, &to, codes);
            let mut it = 0;
            for _ in 0..r.range(1, 4) {
                let best = match r.below(8) {
                    0 => None,
                    1 => Some(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
                    _ => Some(r.range(-5, 12) as f64 * codes.scale),
                };
                let n = far(&mut r, most);
                let mut q = Rle::default();
                for m in 0..n {
                    let ans = c.can_stop(&State { it: it + m, best });
                    q.put(it + m, best, ans);
                }
                ev.push(J::O(vec![
                    ("e", s("asks")),
                    ("it", i(it)),
                    ("n", i(n)),
                    ("v", codes.opt(best)),
                    ("calls", j_calls(&to, codes)),
                    ("segs", q.j_segs()),
                ]));
                // further, again from the last iteration, or a new run
                it = match r.below(6) {
                    0 => 0,
                    1 | 2 => it + n - 1,
                    _ => it + n,
                };
            }
        });
        if res.is_err() {
            ev.push(J::O(vec![("e", s("panic"))]));
        }
        out.emit(Trace { id, cfg: J::O(vec![("nodes", a(nodes))]), ev, vals: Vals::Int });
    }
}

/// Shows the states to the tree.
fn history(id: &str, t: &Tree, states: &[(usize, Option<f64>)], scale: f64, vals: Vals, r: R, script: Vec<bool>) -> Trace {
    let sh = Rc::new(RefCell::new(Shared { calls: vec![], script, r }));
    let mut nodes = vec![];
    let mut ev = vec![];
    let codes = Codes { scale };
    let res = guarded(|| {
        let mut c = build::<i64>(t, &mut nodes, &sh, codes);
        for (it, v) in states {
            sh.borrow_mut().calls.clear();
            let ans = c.can_stop(&State { it: *it, best: *v });
            ev.push(J::O(vec![
                ("e", s("ask")),
                ("it", i(*it)),
                ("v", codes.opt(*v)),
                ("calls", a(sh.borrow().calls.clone())),
                ("a", J::B(ans)),
            ]));
        }
    });
    if res.is_err() {
        ev.push(J::O(vec![("e", s("panic"))]));
    }
    Trace { id: id.to_string(), cfg: J::O(vec![("nodes", a(nodes))]), ev, vals }
}

pub fn gen_tree(r: &mut R, depth: usize, scale: f64, exact: bool) -> Tree {
    if depth > 0 && r.chance(60) {
        let n = if r.chance(3) { *r.pick(&[9, 20, 40]) } else { r.range(1, 4) };
        let m: Vec<Tree> = (0..n).map(|_| gen_tree(r, depth - 1, scale, exact)).collect();
        return if r.chance(50) { Tree::Any(m) } else { Tree::All(m) };
    }
    match r.below(if exact { 4 } else { 3 }) {
        0 => Tree::Max(match r.below(8) {
            0 => 0,
            1 => usize::max_value(),
            2 => *r.pick(&[63, 64, 127, 128, 200, 255, 256, 257, 300]),
            _ => r.below(10),
        }),
        1 => Tree::Spy,
        2 => Tree::Thr(threshold(r, scale, exact)),
        _ => Tree::Gnc(
            match r.below(8) {
                0 => 0,
                1 => 1000,
                2 => r.range(20, 300) as usize,
                _ => r.below(6),
            },
            if exact && r.chance(4) { f64::INFINITY } else { r.range(0, 4) as f64 * scale },
        ),
    }
}

fn threshold(r: &mut R, scale: f64, exact: bool) -> f64 {
    let x = odd(r);
    if exact && (x.is_finite() || r.chance(60)) {
        r.range(-3, 12) as f64 * scale
    } else {
        x
    }
}

/// goal values of all sorts
pub fn odd(r: &mut R) -> f64 {
    *r.pick(&[
        f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        0.0,
        -0.0,
        1.0,
        1.0 + f64::EPSILON,
        1.0 - f64::EPSILON,
        -1.0,
        5e-324,
        f64::MAX,
        -f64::MAX,
    ])
}

/// The states of runs, pauses and new runs.  exact: small integers times scale.
fn gen_states(r: &mut R, n: usize, scale: f64, exact: bool) -> Vec<(usize, Option<f64>)> {
    let mut out = vec![];
    let mut it = if r.chance(80) { 0 } else { r.below(5) };
    let style = r.below(5);
    let mut val: i64 = r.range(0, 10);
    let mut cur: Option<f64> = None;
    let mut fresh = true;
    // a penalty of the largest number until something better is found
    let penalty = r.chance(12);
    let mut paying = penalty;
    for _ in 0..n {
        if !fresh {
            match r.below(if n > 100 { 300 } else { 12 }) {
                // resumed: the same state is shown again
                0 | 1 => {
                    out.push((it, cur));
                    continue;
                }
                2 => {
                    // a new run
                    it = 0;
                    val = r.range(0, 10);
                    cur = None;
                    paying = penalty;
                }
                3 if r.chance(30) => {
                    it += if r.chance(20) { *r.pick(&[100, 1001, 5000, 70_000]) } else { r.range(2, 4) as usize };
                }
                4 if r.chance(20) => {
                    it = r.below(it + 1);
                }
                _ => it += 1,
            }
        }
        fresh = false;
        match style {
            0 => val -= if r.chance(40) { 1 } else { 0 },
            1 => val -= r.range(0, 2),
            2 => val += r.range(-3, 3),
            3 => val -= if r.chance(15) { 4 } else { 0 },
            _ => val -= 1,
        }
        cur = if it == 0 && r.chance(60) {
            None
        } else if cur.is_some() && r.chance(25) {
            cur
        } else if r.chance(5) {
            None
        } else if paying && r.chance(75) {
            Some(f64::MAX)
        } else if !exact || r.chance(8) {
            let x = odd(r);
            Some(if exact && x.is_finite() && x.abs() != f64::MAX { val as f64 * scale } else { x })
        } else {
            paying = false;
            Some(val as f64 * scale)
        };
        out.push((it, cur));
    }
    out
}

pub fn suite(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x7777_0000);
        let id = format!("stop-{}-{}", seed, k);
        out.begin(&id);
        let exact = k % 3 != 0;
        let far = r.chance(3);
        let scale = if exact { 2f64.powi(*r.pick(&[0, 0, 0, -1, -40, 7, 40])) } else { 1.0 };
        let tree = match k % 9 {
            1 | 4 => Tree::Gnc(
                if far { r.below(300) } else { r.below(5) },
                if exact && r.chance(4) { f64::INFINITY } else { r.range(0, 3) as f64 * scale },
            ),
            0 => Tree::Thr(threshold(&mut r, scale, exact)),
            2 => Tree::Max(if far { r.below(700) } else { r.below(6) }),
            _ => {
                let depth = if r.chance(10) { 6 } else { 3 };
                gen_tree(&mut r, depth, scale, exact)
            }
        };
        let len = if far { r.range(400, 900) } else { r.range(5, 40) } as usize;
        let states = gen_states(&mut r, len, scale, exact);
        let q = R::new(r.next());
        out.emit(history(&id, &tree, &states, scale, if exact { Vals::Int } else { Vals::Rank }, q, vec![]));
        if k % 50 == 0 {
            // criteria without members
            let id = format!("stop-{}-{}-empty", seed, k);
            let none = |all: bool| {
                guarded(|| {
                    if all {
                        CompositeAll::<i64>::new(vec![]);
                    } else {
                        CompositeAny::<i64>::new(vec![]);
                    }
                })
                .is_err()
            };
            let ev = vec![
                J::O(vec![("e", s("empty")), ("refused", J::B(none(true)))]),
                J::O(vec![("e", s("empty")), ("refused", J::B(none(false)))]),
            ];
            out.emit(Trace { id, cfg: J::O(vec![("nodes", a(vec![]))]), ev, vals: Vals::Int });
        }
    }
}

pub fn tree_of(nodes: &[J], n: usize) -> Tree {
    let x = &nodes[n - 1];
    let kids = || x.ga("kids").iter().map(|k| tree_of(nodes, k.int() as usize)).collect::<Vec<Tree>>();
    match x.gs("k") {
        "max" => Tree::Max(x.gi("n") as usize),
        "thr" => Tree::Thr(val_of(x.gi("d"))),
        "gnc" => Tree::Gnc(x.gi("n") as usize, val_of(x.gi("d"))),
        "spy" => Tree::Spy,
        "any" => Tree::Any(kids()),
        _ => Tree::All(kids()),
    }
}

/// Trees and histories enumerated by TLC.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("stop-script-{}", k);
        out.begin(&id);
        let j = parse(line);
        let tree = tree_of(j.ga("nodes"), 1);
        let states: Vec<(usize, Option<f64>)> = j
            .ga("hist")
            .iter()
            .map(|x| (x.gi("it") as usize, x.ga("v").get(0).map(|v| val_of(v.int()))))
            .collect();
        let script: Vec<bool> = j.ga("spies").iter().map(|x| *x == J::B(true)).collect();
        out.emit(history(&id, &tree, &states, 1.0, Vals::Int, R::new(k as u64), script));
    }
}
