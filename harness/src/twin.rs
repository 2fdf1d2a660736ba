//! Searches repeated: alone, again, with other searches nested in their plug-ins, and next to
//! searches of other threads.

use crate::core::*;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use rand::rngs::thread as trng;
use std::cell::RefCell;
use std::rc::Rc;

/// The scenario with this number; the same number gives the same plug-ins and choices.
fn scenario(which: u64) -> Vec<J> {
    let mut r = R::new(which ^ 0x7117_0000);
    trng::seed(r.next());
    let kind = (which % 8) as usize;
    let t = if (which / 8) % 2 == 0 {
        crate::ga_suite::scenario("x", &mut r, kind)
    } else {
        crate::pso_suite::scenario("x", &mut r, kind)
    };
    let mut ev = vec![t.cfg];
    ev.extend(t.ev);
    ev
}

/// The scenario, with the other one run inside its plug-in call number `at`.
fn nested(which: u64, other: u64, at: usize) -> (Vec<J>, Vec<J>) {
    let inner: Rc<RefCell<Vec<J>>> = Rc::new(RefCell::new(vec![]));
    let put = inner.clone();
    nest(
        at,
        Box::new(move || {
            let saved = trng::save();
            *put.borrow_mut() = scenario(other);
            trng::rewind(saved);
        }),
    );
    let ev = scenario(which);
    no_nest();
    let i = inner.borrow().clone();
    (ev, i)
}

fn beside(which: u64, others: &[u64]) -> Vec<J> {
    let hs: Vec<_> = others
        .iter()
        .map(|o| {
            let o = *o;
            std::thread::spawn(move || {
                for _ in 0..2 {
                    scenario(o);
                }
            })
        })
        .collect();
    let h = std::thread::spawn(move || scenario(which));
    let ev = h.join().unwrap_or_else(|_| vec![]);
    for h in hs {
        let _ = h.join();
    }
    ev
}

pub fn suite(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let id = format!("twin-{}-{}", seed, k);
        out.begin(&id);
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0x7717);
        let pick = |r: &mut R, g: u64| (r.next() >> 8) * 16 + g;
        // the same kind of optimizer and the other one, all kinds of scenarios
        let a0 = pick(&mut r, k as u64 % 16);
        let g = r.below(16) as u64;
        let b0 = pick(&mut r, if k % 3 == 0 { k as u64 % 16 } else { g });
        let mut ev = vec![];
        let alone = scenario(a0);
        let limit = 1500;
        let put = |how: &str, x: Vec<J>, of: i64, ev: &mut Vec<J>| {
            ev.push(J::O(vec![("e", s("run")), ("m", J::I(of)), ("how", s(how)), ("why", s("C31"))]));
            let n = x.len();
            for y in x.into_iter().take(limit) {
                ev.push(J::O(vec![("e", s("see")), ("m", J::I(of)), ("x", y)]));
            }
            ev.push(J::O(vec![("e", s("end")), ("m", J::I(of)), ("n", i(n))]));
        };
        let calls = alone.len();
        put("alone", alone, 1, &mut ev);
        let other = scenario(b0);
        put("alone", other, 2, &mut ev);
        match k % 3 {
            0 => put("again", scenario(a0), 1, &mut ev),
            1 => {
                let at = r.below(calls + 1);
                let (x, y) = nested(a0, b0, at);
                if !y.is_empty() {
                    put("nested", y, 2, &mut ev);
                }
                put("around", x, 1, &mut ev);
            }
            _ => put("beside", beside(a0, &[b0, b0 + 16, a0]), 1, &mut ev),
        }
        out.emit(Trace { id, cfg: J::O(vec![("pieces", J::B(false))]), ev, vals: Vals::Rank });
    }
}
