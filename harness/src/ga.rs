//! Recorded runs of the genetic optimizer.

use crate::core::*;
use crate::j::*;
use crate::rng::R;
use optlib::genetic::*;
use optlib::tools::logging::Logger;
use optlib::tools::statistics::{CallCountData, GoalCalcStatistics};
use optlib::tools::stopchecker::StopChecker;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

/// Choices made by the environment.  Queues are filled from a script generated by TLC; where a
/// queue is empty the driver's random numbers decide.
pub struct Env<T> {
    pub r: R,
    pub fresh: Box<dyn FnMut(&mut R) -> T>,
    pub seen: Vec<T>,
    pub create: VecDeque<Vec<T>>,
    pub vals: VecDeque<f64>,
    pub tests: VecDeque<bool>,
    pub fams: VecDeque<Vec<Vec<usize>>>,
    pub crosses: VecDeque<Vec<T>>,
    pub muts: VecDeque<T>,
    pub pres: VecDeque<Vec<T>>,
    pub sels: VecDeque<Vec<usize>>,
    pub n0: usize,
    pub valmode: usize,
    pub nval: i64,
    pub left: usize,
    pub max_fams: usize,
    pub max_kids: usize,
    pub max_fam: usize,
    pub kill: usize,
    pub dup: usize,
    pub maxpop: usize,
}

pub type E<T> = Rc<RefCell<Env<T>>>;

impl<T: Pt> Env<T> {
    pub fn new(r: R, fresh: Box<dyn FnMut(&mut R) -> T>) -> E<T> {
        Rc::new(RefCell::new(Env {
            r,
            fresh,
            seen: vec![],
            create: VecDeque::new(),
            vals: VecDeque::new(),
            tests: VecDeque::new(),
            fams: VecDeque::new(),
            crosses: VecDeque::new(),
            muts: VecDeque::new(),
            pres: VecDeque::new(),
            sels: VecDeque::new(),
            n0: 4,
            valmode: 0,
            nval: 0,
            left: 0,
            max_fams: 4,
            max_kids: 3,
            max_fam: 4,
            kill: 30,
            dup: 20,
            maxpop: 40,
        }))
    }
    fn point(&mut self) -> T {
        let d = self.dup;
        if !self.seen.is_empty() && self.r.chance(d) {
            let n = self.r.below(self.seen.len());
            self.seen[n].clone()
        } else {
            let x = (self.fresh)(&mut self.r);
            if self.seen.len() < 64 {
                self.seen.push(x.clone());
            } else {
                let n = self.r.below(64);
                self.seen[n] = x.clone();
            }
            x
        }
    }
    pub fn value(&mut self) -> f64 {
        if let Some(v) = self.vals.pop_front() {
            return v;
        }
        self.nval += 1;
        gen_value(&mut self.r, self.valmode, self.nval)
    }
}

pub fn gen_value(r: &mut R, mode: usize, n: i64) -> f64 {
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
        match mode {
            0 => r.range(0, 5) as f64 - 2.0,
            1 => {
                if r.chance(30) {
                    *r.pick(&sp)
                } else {
                    r.range(0, 4) as f64 - 2.0
                }
            }
            2 => 1000.0 - n as f64,
            3 => n as f64,
            4 => (r.unit() - 0.5) * 1e3,
            5 => *r.pick(&[
                f64::NAN,
                f64::INFINITY,
                f64::NEG_INFINITY,
                0.0,
                -0.0,
                f64::MAX,
                -f64::MAX,
                f64::MIN_POSITIVE,
                -f64::MIN_POSITIVE,
                5e-324,
                1.0,
                1.0 + f64::EPSILON,
            ]),
            6 => f64::NAN,
            7 => {
                if r.chance(60) {
                    f64::NAN
                } else {
                    r.unit()
                }
            }
            8 => *r.pick(&sp),
            _ => 7.0,
        }
    }

// ---- scripted plug-ins ----

pub struct SCreator<T>(pub E<T>);
impl<T: Pt> Creator<T> for SCreator<T> {
    fn create(&mut self) -> Vec<T> {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.create.pop_front() {
            return x;
        }
        let n = e.n0;
        (0..n).map(|_| e.point()).collect()
    }
}
pub struct SGoal<T>(pub E<T>);
impl<T: Pt> Goal<T> for SGoal<T> {
    fn get(&mut self, _x: &T) -> f64 {
        self.0.borrow_mut().value()
    }
}
pub struct SStop<T>(pub E<T>);
impl<T: Pt> StopChecker<T> for SStop<T> {
    fn can_stop(&mut self, _s: &dyn AlgorithmState<T>) -> bool {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.tests.pop_front() {
            return x;
        }
        if e.left == 0 {
            return true;
        }
        e.left -= 1;
        false
    }
}
pub struct SPairing<T>(pub E<T>);
impl<T: Pt> Pairing<T> for SPairing<T> {
    fn get_pairs(&mut self, p: &Population<T>) -> Vec<Vec<usize>> {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.fams.pop_front() {
            return x;
        }
        let n = p.len();
        let k = if n > e.maxpop { 1 } else { e.max_fams };
        let k = e.r.below(k + 1);
        (0..k)
            .map(|_| {
                let m = e.max_fam + 1;
                let m = if n == 0 { 0 } else { e.r.below(m) };
                (0..m).map(|_| e.r.below(n)).collect()
            })
            .collect()
    }
}
pub struct SCross<T>(pub E<T>);
impl<T: Pt> Cross<T> for SCross<T> {
    fn cross(&mut self, parents: &[&T]) -> Vec<T> {
        let mut e = self.0.borrow_mut();
        if let Some(x) = e.crosses.pop_front() {
            return x;
        }
        let m = e.max_kids;
        let k = e.r.below(m + 1);
        (0..k)
            .map(|_| {
                if !parents.is_empty() && e.r.chance(15) {
                    let n = e.r.below(parents.len());
                    parents[n].clone()
                } else {
                    e.point()
                }
            })
            .collect()
    }
}
pub struct SMutation<T>(pub E<T>);
impl<T: Pt> Mutation<T> for SMutation<T> {
    fn mutation(&mut self, x: &T) -> T {
        let mut e = self.0.borrow_mut();
        if let Some(y) = e.muts.pop_front() {
            return y;
        }
        if e.r.chance(30) {
            x.clone()
        } else {
            e.point()
        }
    }
}
pub struct SPreBirth<T>(pub E<T>);
impl<T: Pt> PreBirth<T> for SPreBirth<T> {
    fn pre_birth(&mut self, _p: &Population<T>, l: &mut Vec<T>) {
        let mut e = self.0.borrow_mut();
        if let Some(y) = e.pres.pop_front() {
            *l = y;
            return;
        }
        match e.r.below(7) {
            0 => {}
            1 => l.clear(),
            2 => {
                let x = e.point();
                l.push(x)
            }
            3 => e.r.shuffle(l),
            4 => {
                if !l.is_empty() {
                    let n = e.r.below(l.len());
                    let x = l[n].clone();
                    let m = e.r.below(l.len() + 1);
                    l.insert(m, x);
                }
            }
            5 => {
                if !l.is_empty() {
                    let n = e.r.below(l.len());
                    l[n] = e.point();
                }
            }
            _ => {
                let r = &mut e.r;
                l.retain(|_| r.chance(60))
            }
        }
    }
}
pub struct SSelection<T>(pub E<T>);
impl<T: Pt> Selection<T> for SSelection<T> {
    fn kill(&mut self, p: &mut Population<T>) {
        let mut e = self.0.borrow_mut();
        let n = p.len();
        let mut picked = vec![];
        if let Some(y) = e.sels.pop_front() {
            picked.extend(y.into_iter().filter(|k| *k < n));
        } else {
            let kill = e.kill;
            let how = e.r.below(10);
            for k in 0..n {
                let d = match how {
                    0 => true,
                    1 => false,
                    2 => k + 1 == n,
                    3 => k == 0,
                    4 => k % 2 == 0,
                    _ => e.r.chance(kill) || (n > e.maxpop && e.r.chance(50)),
                };
                if d {
                    picked.push(k);
                }
            }
        }
        if e.r.chance(50) {
            for k in &picked {
                p[*k].kill();
            }
        } else {
            for (k, x) in p.iter_mut().enumerate() {
                if picked.contains(&k) {
                    x.kill();
                }
            }
        }
        INTENT.with(|i| *i.borrow_mut() = Some(picked));
    }
}
thread_local! {
    /// the individuals the scripted selection meant to kill
    static INTENT: RefCell<Option<Vec<usize>>> = RefCell::new(None);
}

// ---- recording wrappers ----

pub fn sol<T: Pt>(rec: &Rec, b: &Option<(T, f64)>) -> J {
    match b {
        None => a(vec![]),
        Some((x, v)) => {
            let k = rec.borrow_mut().id(x.key());
            a(vec![J::I(k), J::V(*v)])
        }
    }
}

fn ind<T: Pt>(rec: &Rec, b: &Option<Individual<T>>) -> J {
    match b {
        None => a(vec![]),
        Some(x) => {
            let k = rec.borrow_mut().id(x.get_chromosomes().key());
            a(vec![J::I(k), J::V(x.get_fitness())])
        }
    }
}

pub fn view<T: Pt>(rec: &Rec, p: &Population<T>) -> Vec<(&'static str, J)> {
    let n = p.len();
    let mut xs = vec![];
    let mut vs = vec![];
    let mut d = vec![];
    let mut ok = p.iter().count() == n && p.get_agents().len() == n;
    let mut alive = 0;
    for (k, x) in p.iter().enumerate() {
        let id = rec.borrow_mut().id(x.get_chromosomes().key());
        xs.push(J::I(id));
        vs.push(J::V(x.get_fitness()));
        if x.is_alive() {
            alive += 1
        } else {
            d.push(J::I(k as i64 + 1))
        }
        let y = &p[k];
        ok = ok
            && std::ptr::eq(x, y)
            && x.get_goal().to_bits() == x.get_fitness().to_bits()
            && x.get_parameter().key() == x.get_chromosomes().key();
    }
    for (k, y) in p.get_agents().iter().enumerate() {
        ok = ok && std::ptr::eq(*y, &p[k]);
    }
    ok = ok && alive == p.len_alive() && AlgorithmState::get_iteration(p) == p.get_iteration();
    let b1 = sol(rec, &AlgorithmState::get_best_solution(p));
    let b2 = ind(rec, p.get_best());
    ok = ok && format!("{:?}", b1) == format!("{:?}", b2);
    vec![
        ("xs", a(xs)),
        ("vs", a(vs)),
        ("d", a(d)),
        ("it", i(p.get_iteration())),
        ("b", b2),
        ("w", ind(rec, p.get_worst())),
        ("ok", J::B(ok)),
    ]
}

pub struct WCreator<T> {
    pub rec: Rec,
    pub g: i64,
    pub inner: Box<dyn Creator<T>>,
}
impl<T: Pt> Creator<T> for WCreator<T> {
    fn create(&mut self) -> Vec<T> {
        nest_tick();
        let x = self.inner.create();
        let mut r = self.rec.borrow_mut();
        let ids = x.iter().map(|p| J::I(r.id(p.key()))).collect();
        r.push("create", vec![("g", J::I(self.g)), ("xs", a(ids))]);
        x
    }
}
pub struct WGoal<'a, T> {
    pub rec: Rec,
    pub inside: Option<Rc<dyn Fn(&T) -> bool>>,
    pub inner: Box<dyn Goal<T> + 'a>,
}
impl<'a, T: Pt> Goal<T> for WGoal<'a, T> {
    fn get(&mut self, x: &T) -> f64 {
        nest_tick();
        let v = self.inner.get(x);
        let inb = self.inside.as_ref().map_or(true, |f| f(x));
        let mut r = self.rec.borrow_mut();
        let k = r.id(x.key());
        r.push_c("eval", 0, a(vec![J::I(k), J::V(v), J::I(inb as i64), J::I(faithful())]));
        v
    }
}
pub struct WStop<T> {
    pub rec: Rec,
    pub g: i64,
    pub inner: Box<dyn StopChecker<T>>,
}
impl<T: Pt> StopChecker<T> for WStop<T> {
    fn can_stop(&mut self, st: &dyn AlgorithmState<T>) -> bool {
        nest_tick();
        let ans = self.inner.can_stop(st);
        let b = sol(&self.rec, &st.get_best_solution());
        self.rec.borrow_mut().push(
            "test",
            vec![
                ("g", J::I(self.g)),
                ("it", i(st.get_iteration())),
                ("b", b),
                ("a", J::B(ans)),
            ],
        );
        ans
    }
}
pub struct WLogger {
    pub rec: Rec,
    pub g: i64,
}
impl WLogger {
    fn put<T: Pt>(&self, w: &str, st: &dyn AlgorithmState<T>) {
        nest_tick();
        let b = sol(&self.rec, &st.get_best_solution());
        self.rec.borrow_mut().push(
            "log",
            vec![
                ("g", J::I(self.g)),
                ("w", s(w)),
                ("it", i(st.get_iteration())),
                ("b", b),
            ],
        );
    }
}
impl<T: Pt> Logger<T> for WLogger {
    fn start(&mut self, st: &dyn AlgorithmState<T>) {
        self.put("start", st)
    }
    fn resume(&mut self, st: &dyn AlgorithmState<T>) {
        self.put("resume", st)
    }
    fn next_iteration(&mut self, st: &dyn AlgorithmState<T>) {
        self.put("next", st)
    }
    fn finish(&mut self, st: &dyn AlgorithmState<T>) {
        self.put("finish", st)
    }
}
pub struct WPairing<T> {
    pub rec: Rec,
    pub g: i64,
    pub inner: Box<dyn Pairing<T>>,
}
impl<T: Pt> Pairing<T> for WPairing<T> {
    fn get_pairs(&mut self, p: &Population<T>) -> Vec<Vec<usize>> {
        nest_tick();
        let f = self.inner.get_pairs(p);
        let mut v = vec![("g", J::I(self.g))];
        v.append(&mut view(&self.rec, p));
        v.push((
            "f",
            a(f.iter()
                .map(|x| a(x.iter().map(|y| J::I(*y as i64 + 1)).collect()))
                .collect()),
        ));
        self.rec.borrow_mut().push("pair", v);
        f
    }
}
pub struct WCross<T> {
    pub rec: Rec,
    pub g: i64,
    pub inner: Box<dyn Cross<T>>,
}
impl<T: Pt> Cross<T> for WCross<T> {
    fn cross(&mut self, parents: &[&T]) -> Vec<T> {
        nest_tick();
        let k = self.inner.cross(parents);
        let mut r = self.rec.borrow_mut();
        let ps = parents.iter().map(|x| J::I(r.id(x.key()))).collect();
        let ks = k.iter().map(|x| J::I(r.id(x.key()))).collect();
        r.push_c("cross", self.g, a(vec![a(ps), a(ks)]));
        k
    }
}
pub struct WMutation<T> {
    pub rec: Rec,
    pub g: i64,
    pub inner: Box<dyn Mutation<T>>,
}
impl<T: Pt> Mutation<T> for WMutation<T> {
    fn mutation(&mut self, x: &T) -> T {
        nest_tick();
        let y = self.inner.mutation(x);
        let mut r = self.rec.borrow_mut();
        let e = a(vec![J::I(r.id(x.key())), J::I(r.id(y.key()))]);
        r.push_c("mut", self.g, e);
        y
    }
}
pub struct WPreBirth<T> {
    pub rec: Rec,
    pub g: i64,
    pub inner: Box<dyn PreBirth<T>>,
}
impl<T: Pt> PreBirth<T> for WPreBirth<T> {
    fn pre_birth(&mut self, p: &Population<T>, l: &mut Vec<T>) {
        nest_tick();
        let i0: Vec<J> = l.iter().map(|x| J::I(self.rec.borrow_mut().id(x.key()))).collect();
        let mut v = vec![("g", J::I(self.g))];
        v.append(&mut view(&self.rec, p));
        self.inner.pre_birth(p, l);
        let o: Vec<J> = l.iter().map(|x| J::I(self.rec.borrow_mut().id(x.key()))).collect();
        v.push(("i", a(i0)));
        v.push(("o", a(o)));
        self.rec.borrow_mut().push("pre", v);
    }
}
pub struct WSelection<T> {
    pub rec: Rec,
    pub g: i64,
    pub inner: Box<dyn Selection<T>>,
}
impl<T: Pt> Selection<T> for WSelection<T> {
    fn kill(&mut self, p: &mut Population<T>) {
        nest_tick();
        let mut v = vec![("g", J::I(self.g))];
        v.append(&mut view(&self.rec, p));
        let n = p.len();
        let at: Vec<*const Individual<T>> = p.iter().map(|x| x as *const _).collect();
        let mut sides = p.iter_mut().map(|x| x as *const Individual<T>).collect::<Vec<_>>() == at;
        for k in 0..n {
            sides = sides && std::ptr::eq(&mut p[k] as *const Individual<T>, at[k]);
        }
        if n > 0 {
            // the death of a copy is not that of the original
            let mut c = p[n / 2].clone();
            let was = p[n / 2].is_alive();
            sides = sides && c.is_alive() == was;
            c.kill();
            sides = sides && !c.is_alive() && p[n / 2].is_alive() == was;
        }
        INTENT.with(|i| *i.borrow_mut() = None);
        self.inner.kill(p);
        let meant = INTENT.with(|i| i.borrow_mut().take());
        let w = view(&self.rec, p);
        let same = format!("{:?}{:?}{:?}{:?}{:?}", w[0], w[1], w[3], w[4], w[5])
            == format!("{:?}{:?}{:?}{:?}{:?}", v[1], v[2], v[4], v[5], v[6]);
        v.push(("d2", w[2].1.clone()));
        let sound = w[6].1 == J::B(true);
        v.push(("same", J::B(same && sides && sound)));
        let m = meant.iter().map(|x| us(&x.iter().map(|k| k + 1).collect::<Vec<_>>()));
        v.push(("meant", a(m.collect())));
        self.rec.borrow_mut().push("sel", v);
    }
}

// ---- runs ----

/// Makes the components of a run (also the replacements set later).
pub struct Fac<T> {
    pub creator: Box<dyn Fn() -> Box<dyn Creator<T>>>,
    pub goal: Box<dyn Fn() -> Box<dyn Goal<T>>>,
    pub stop: Box<dyn Fn() -> Box<dyn StopChecker<T>>>,
    pub pairing: Box<dyn Fn() -> Box<dyn Pairing<T>>>,
    pub cross: Box<dyn Fn() -> Box<dyn Cross<T>>>,
    pub mutation: Box<dyn Fn() -> Box<dyn Mutation<T>>>,
    pub sels: Box<dyn Fn() -> Vec<Box<dyn Selection<T>>>>,
    pub pres: Box<dyn Fn() -> Vec<Box<dyn PreBirth<T>>>>,
    pub nlog: Box<dyn Fn() -> usize>,
    pub inside: Option<Rc<dyn Fn(&T) -> bool>>,
    /// N if the selections are exactly the non-finite filter and the limit N, otherwise 0
    pub lim: usize,
    pub boxed: bool,
}

pub fn scripted<T: Pt>(e: &E<T>, npre: Vec<usize>, nsel: Vec<usize>, nlog: Vec<usize>) -> Fac<T> {
    let c = |e: &E<T>| e.clone();
    let (e1, e2, e3, e4, e5, e6, e7, e8) = (c(e), c(e), c(e), c(e), c(e), c(e), c(e), c(e));
    let cyc = |v: Vec<usize>| {
        let k = std::cell::Cell::new(0usize);
        move || {
            let n = k.get();
            k.set(n + 1);
            v[n % v.len()]
        }
    };
    let (npre, nsel, nlog) = (cyc(npre), cyc(nsel), cyc(nlog));
    Fac {
        creator: Box::new(move || Box::new(SCreator(e1.clone()))),
        goal: Box::new(move || {
            let plain = e2.borrow_mut().r.chance(40);
            if plain {
                let e = e2.clone();
                Box::new(FnGoal::new(Box::new(move || e.borrow_mut().value())))
            } else {
                Box::new(SGoal(e2.clone()))
            }
        }),
        stop: Box::new(move || Box::new(SStop(e3.clone()))),
        pairing: Box::new(move || Box::new(SPairing(e4.clone()))),
        cross: Box::new(move || Box::new(SCross(e5.clone()))),
        mutation: Box::new(move || Box::new(SMutation(e6.clone()))),
        sels: Box::new(move || {
            (0..nsel())
                .map(|_| Box::new(SSelection(e7.clone())) as Box<dyn Selection<T>>)
                .collect()
        }),
        pres: Box::new(move || {
            (0..npre())
                .map(|_| Box::new(SPreBirth(e8.clone())) as Box<dyn PreBirth<T>>)
                .collect()
        }),
        nlog: Box::new(nlog),
        inside: None,
        lim: 0,
        boxed: false,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    /// find_min; the scripted criterion allows this many iterations
    Find(usize),
    /// next_iterations
    Next(usize),
    SetPairing,
    SetCross,
    SetMutation,
    SetSelection,
    SetPreBirth,
    SetStop,
    SetLoggers,
    /// choices from this seed on, and the record starts anew
    Reseed(u64),
    /// find_min (or next_iterations), of which the plug-in call with this number panics
    Crash(bool, usize, usize),
}

struct Ids {
    next: i64,
    creator: i64,
    stop: i64,
    pair: i64,
    cross: i64,
    mutn: i64,
    sel: Vec<i64>,
    pre: Vec<i64>,
    log: Vec<i64>,
}
impl Ids {
    fn new(&mut self) -> i64 {
        self.next += 1;
        self.next
    }
    fn j<T>(&self, f: &Fac<T>) -> J {
        J::O(vec![
            ("create", J::I(self.creator)),
            ("stop", J::I(self.stop)),
            ("pair", J::I(self.pair)),
            ("cross", J::I(self.cross)),
            ("mut", J::I(self.mutn)),
            ("sel", ints(&self.sel)),
            ("pre", ints(&self.pre)),
            ("log", ints(&self.log)),
            ("lim", i(f.lim)),
            ("box", J::B(f.boxed)),
        ])
    }
}

pub fn run<T: Pt>(id: &str, env: &E<T>, f: &Fac<T>, cmds: &[Cmd], counted: bool) -> Trace {
    run_on(&rec(), id, env, f, cmds, counted)
}

pub fn run_on<T: Pt>(rc: &Rec, id: &str, env: &E<T>, f: &Fac<T>, cmds: &[Cmd], counted: bool) -> Trace {
    let rc = rc.clone();
    let mut ids = Ids {
        next: 0,
        creator: 0,
        stop: 0,
        pair: 0,
        cross: 0,
        mutn: 0,
        sel: vec![],
        pre: vec![],
        log: vec![],
    };
    ids.creator = ids.new();
    ids.stop = ids.new();
    ids.pair = ids.new();
    ids.cross = ids.new();
    ids.mutn = ids.new();
    let mut cc = CallCountData::new();
    let cfg;
    {
        let mut goal = WGoal { rec: rc.clone(), inside: f.inside.clone(), inner: (f.goal)() };
        let goal: Box<dyn Goal<T> + '_> = if counted {
            Box::new(GoalCalcStatistics::new(&mut goal, &mut cc))
        } else {
            Box::new(goal)
        };
        let wsel = |ids: &mut Ids| -> Vec<Box<dyn Selection<T>>> {
            ids.sel.clear();
            (f.sels)()
                .into_iter()
                .map(|x| {
                    let g = ids.new();
                    ids.sel.push(g);
                    Box::new(WSelection { rec: rc.clone(), g, inner: x }) as Box<dyn Selection<T>>
                })
                .collect()
        };
        let wpre = |ids: &mut Ids| -> Vec<Box<dyn PreBirth<T>>> {
            ids.pre.clear();
            (f.pres)()
                .into_iter()
                .map(|x| {
                    let g = ids.new();
                    ids.pre.push(g);
                    Box::new(WPreBirth { rec: rc.clone(), g, inner: x }) as Box<dyn PreBirth<T>>
                })
                .collect()
        };
        let wlog = |ids: &mut Ids| -> Vec<Box<dyn Logger<T>>> {
            ids.log.clear();
            (0..(f.nlog)())
                .map(|_| {
                    let g = ids.new();
                    ids.log.push(g);
                    Box::new(WLogger { rec: rc.clone(), g }) as Box<dyn Logger<T>>
                })
                .collect()
        };
        let sels = wsel(&mut ids);
        let pres = wpre(&mut ids);
        let mut opt = GeneticOptimizer::new(
            goal,
            Box::new(WStop { rec: rc.clone(), g: ids.stop, inner: (f.stop)() }),
            Box::new(WCreator { rec: rc.clone(), g: ids.creator, inner: (f.creator)() }),
            Box::new(WPairing { rec: rc.clone(), g: ids.pair, inner: (f.pairing)() }),
            Box::new(WCross { rec: rc.clone(), g: ids.cross, inner: (f.cross)() }),
            Box::new(WMutation { rec: rc.clone(), g: ids.mutn, inner: (f.mutation)() }),
            sels,
            pres,
        );
        let lg = wlog(&mut ids);
        if !lg.is_empty() {
            opt.set_loggers(lg);
        }
        cfg = ids.j(f);
        for c in cmds {
            let r = match c {
                Cmd::Find(n) | Cmd::Next(n) => {
                    env.borrow_mut().left = *n;
                    let find = matches!(c, Cmd::Find(_));
                    rc.borrow_mut()
                        .push(if find { "find" } else { "nextit" }, vec![]);
                    let t = ticks();
                    let q = guarded(|| {
                        let b = if find { opt.find_min() } else { opt.next_iterations() };
                        let b = sol(&rc, &b);
                        rc.borrow_mut().push("ret", vec![("b", b)]);
                    });
                    rc.borrow_mut().calls = ticks() - t;
                    q
                }
                Cmd::Reseed(x) => {
                    let mut e = env.borrow_mut();
                    e.r = R::new(*x);
                    e.nval = 0;
                    e.seen.clear();
                    rand::rngs::thread::seed(*x);
                    rc.borrow_mut().clear();
                    Ok(())
                }
                Cmd::Crash(find, n, at) => {
                    env.borrow_mut().left = *n;
                    let x = bombed(*at, || {
                        if *find {
                            opt.find_min();
                        } else {
                            opt.next_iterations();
                        }
                    });
                    rc.borrow_mut().aborts.extend(x);
                    Ok(())
                }
                c => {
                    match c {
                        Cmd::SetPairing => {
                            ids.pair = ids.new();
                            opt.set_pairing(Box::new(WPairing {
                                rec: rc.clone(),
                                g: ids.pair,
                                inner: (f.pairing)(),
                            }))
                        }
                        Cmd::SetCross => {
                            ids.cross = ids.new();
                            opt.set_cross(Box::new(WCross {
                                rec: rc.clone(),
                                g: ids.cross,
                                inner: (f.cross)(),
                            }))
                        }
                        Cmd::SetMutation => {
                            ids.mutn = ids.new();
                            opt.set_mutation(Box::new(WMutation {
                                rec: rc.clone(),
                                g: ids.mutn,
                                inner: (f.mutation)(),
                            }))
                        }
                        Cmd::SetStop => {
                            ids.stop = ids.new();
                            opt.set_stop_checker(Box::new(WStop {
                                rec: rc.clone(),
                                g: ids.stop,
                                inner: (f.stop)(),
                            }))
                        }
                        Cmd::SetSelection => opt.set_selection(wsel(&mut ids)),
                        Cmd::SetPreBirth => opt.set_pre_birth(wpre(&mut ids)),
                        _ => {
                            let l = wlog(&mut ids);
                            opt.set_loggers(l)
                        }
                    }
                    rc.borrow_mut().push("set", vec![("cfg", ids.j(f))]);
                    Ok(())
                }
            };
            if let Err(m) = r {
                let mut r = rc.borrow_mut();
                r.limit = usize::MAX;
                r.push("panic", vec![("msg", s(&m))]);
                break;
            }
        }
    }
    if counted {
        let n = i(cc.get_call_count().iter().sum::<usize>());
        rc.borrow_mut().push("cc", vec![("n", n)]);
    }
    let ev = std::mem::take(&mut rc.borrow_mut().ev);
    Trace { id: id.to_string(), cfg, ev, vals: Vals::Rank }
}
