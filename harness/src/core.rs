//! Recording: interning of points, event list, run-away limit.

use crate::j::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::rc::Rc;

pub trait Pt: Clone + 'static {
    fn key(&self) -> String;
}
impl Pt for Vec<f64> {
    fn key(&self) -> String {
        let mut o = String::from("d");
        for x in self {
            write!(o, "{:x},", x.to_bits()).unwrap();
        }
        o
    }
}
impl Pt for Vec<f32> {
    fn key(&self) -> String {
        let mut o = String::from("f");
        for x in self {
            write!(o, "{:x},", x.to_bits()).unwrap();
        }
        o
    }
}
impl Pt for String {
    fn key(&self) -> String {
        self.clone()
    }
}
impl Pt for i64 {
    fn key(&self) -> String {
        format!("{}", self)
    }
}
impl Pt for Vec<i32> {
    fn key(&self) -> String {
        format!("{:?}", self)
    }
}

pub struct RecI {
    pub map: HashMap<String, i64>,
    pub ev: Vec<J>,
    pub count: usize,
    pub limit: usize,
    pub off: bool,
    /// panics of plug-ins: see `bombed`
    pub aborts: Vec<(bool, usize)>,
    /// calls of plug-ins in the last search
    pub calls: usize,
}

pub type Rec = Rc<RefCell<RecI>>;

pub fn rec() -> Rec {
    Rc::new(RefCell::new(RecI {
        map: HashMap::new(),
        ev: vec![],
        count: 0,
        limit: 400_000,
        off: false,
        aborts: vec![],
        calls: 0,
    }))
}

impl RecI {
    /// Forgets what was recorded.
    pub fn clear(&mut self) {
        self.map.clear();
        self.ev.clear();
        self.count = 0;
    }
    pub fn id(&mut self, key: String) -> i64 {
        let n = self.map.len() as i64 + 1;
        *self.map.entry(key).or_insert(n)
    }
    pub fn tick(&mut self) {
        self.count += 1;
        if self.count > self.limit {
            panic!("runaway: more than {} calls", self.limit);
        }
    }
    pub fn push(&mut self, e: &'static str, mut f: Vec<(&'static str, J)>) {
        self.tick();
        let mut v = vec![("e", s(e))];
        v.append(&mut f);
        self.ev.push(J::O(v));
    }
    /// Appends `item` to the previous event if that has the same kind and plug-in.
    pub fn push_c(&mut self, e: &'static str, g: i64, item: J) {
        self.tick();
        if let Some(J::O(f)) = self.ev.last_mut() {
            if f[0].1 == J::S(e.to_string()) && f[1].1 == J::I(g) {
                if let J::A(c) = &mut f[2].1 {
                    c.push(item);
                    return;
                }
            }
        }
        self.ev
            .push(J::O(vec![("e", s(e)), ("g", J::I(g)), ("c", J::A(vec![item]))]));
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(x) = e.downcast_ref::<&str>() {
        x.to_string()
    } else if let Some(x) = e.downcast_ref::<String>() {
        x.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs code under test; a panic is data.
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(panic_text)
}

thread_local! {
    /// what is to be done inside a later call of a plug-in, and after how many calls
    static NEST: RefCell<Option<(usize, Box<dyn FnMut()>)>> = RefCell::new(None);
}
pub fn nest(after: usize, f: Box<dyn FnMut()>) {
    NEST.with(|n| *n.borrow_mut() = Some((after, f)));
}
pub fn no_nest() {
    NEST.with(|n| *n.borrow_mut() = None);
}
/// The payload of a panic of a plug-in.
struct Bomb(u64);
thread_local! {
    /// calls of plug-ins before the one that panics, and the payload
    static BOMB: std::cell::Cell<Option<(usize, u64)>> = std::cell::Cell::new(None);
    /// calls of plug-ins after it
    static LATE: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None);
    static TICKS: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
/// Number of calls of plug-ins so far.
pub fn ticks() -> usize {
    TICKS.with(|t| t.get())
}
/// Runs code of which the plug-in call number `at` panics: whether the very panic came out of it,
/// and how many plug-ins were called later. None: there was no such call.
pub fn bombed(at: usize, f: impl FnOnce()) -> Option<(bool, usize)> {
    let key = 0xb0b0_0000 + at as u64;
    BOMB.with(|b| b.set(Some((at, key))));
    LATE.with(|l| l.set(None));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    BOMB.with(|b| b.set(None));
    let late = LATE.with(|l| l.replace(None))?;
    let same = match r {
        Ok(()) => false,
        Err(e) => e.downcast_ref::<Bomb>().map_or(false, |b| b.0 == key),
    };
    Some((same, late))
}
fn bomb_tick() {
    TICKS.with(|t| t.set(t.get() + 1));
    LATE.with(|l| l.set(l.get().map(|n| n + 1)));
    match BOMB.with(|b| b.get()) {
        Some((0, key)) => {
            BOMB.with(|b| b.set(None));
            LATE.with(|l| l.set(Some(0)));
            std::panic::resume_unwind(Box::new(Bomb(key)))
        }
        Some((n, key)) => BOMB.with(|b| b.set(Some((n - 1, key)))),
        None => {}
    }
}

/// Called at the beginning of every recorded call of a plug-in.
pub fn nest_tick() {
    bomb_tick();
    let f = NEST.with(|n| {
        let mut n = n.borrow_mut();
        match n.as_mut() {
            None => None,
            Some((0, _)) => n.take().map(|x| x.1),
            Some((k, _)) => {
                *k -= 1;
                None
            }
        }
    });
    if let Some(mut f) = f {
        f()
    }
}

thread_local! {
    static VALUE: std::cell::Cell<(f64, usize, u64)> = std::cell::Cell::new((0.0, 0, 0));
    static FAITHFUL: std::cell::Cell<bool> = std::cell::Cell::new(true);
}
fn address<T>(x: &T) -> u64 {
    x as *const T as *const u8 as u64
}
fn plain<T>(x: &T) -> f64 {
    VALUE.with(|v| {
        let (y, n, _) = v.get();
        v.set((y, n + 1, address(x)));
        y
    })
}
/// A goal given as a plain function by the adapter of the library.
pub struct FnGoal<T> {
    adapter: optlib::GoalFromFunction<T>,
    value: Box<dyn FnMut() -> f64>,
}
impl<T: 'static> FnGoal<T> {
    pub fn new(value: Box<dyn FnMut() -> f64>) -> Self {
        FnGoal { adapter: optlib::GoalFromFunction::new(plain::<T>), value }
    }
}
impl<T> optlib::Goal<T> for FnGoal<T> {
    fn get(&mut self, x: &T) -> f64 {
        let v = (self.value)();
        VALUE.with(|c| c.set((v, 0, 0)));
        let w = self.adapter.get(x);
        let (_, n, at) = VALUE.with(|c| c.get());
        if w.to_bits() != v.to_bits() || n != 1 || at != address(x) {
            FAITHFUL.with(|f| f.set(false));
        }
        w
    }
}
/// Whether the adapter called its function once, with the point, and returned its value.
pub fn faithful() -> i64 {
    FAITHFUL.with(|f| f.replace(true)) as i64
}
