//! Crossovers and mutations on bits and numbers.

use crate::core::guarded;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use optlib::genetic::cross::*;
use optlib::genetic::mutation::*;
use optlib::genetic::{Cross, Mutation};
use rand::rngs::thread as trng;
use std::cell::RefCell;
use std::rc::Rc;

fn panicked() -> J {
    J::O(vec![("e", s("panic"))])
}

/// A word as its 16-bit chunks, lowest first.
fn chunks(x: u64, width: usize) -> J {
    let n = (width + 15) / 16;
    a((0..n).map(|k| J::I(((x >> (16 * k)) & 0xffff) as i64)).collect())
}

#[derive(Clone, Copy)]
enum W {
    U8,
    I8,
    U16,
    I16,
    U32,
    F32,
    U64,
    F64,
}
const WIDE: [W; 6] = [W::U16, W::I16, W::U32, W::F32, W::U64, W::F64];

impl W {
    fn name(self) -> &'static str {
        match self {
            W::U8 => "u8",
            W::I8 => "i8",
            W::U16 => "u16",
            W::I16 => "i16",
            W::U32 => "u32",
            W::F32 => "f32",
            W::U64 => "u64",
            W::F64 => "f64",
        }
    }
    fn width(self) -> usize {
        match self {
            W::U8 | W::I8 => 8,
            W::U16 | W::I16 => 16,
            W::U32 | W::F32 => 32,
            W::U64 | W::F64 => 64,
        }
    }
    fn cross(self, a: u64, b: u64, p: usize) -> u64 {
        match self {
            W::U8 => cross_u8(a as u8, b as u8, p) as u64,
            W::I8 => cross_i8(a as u8 as i8, b as u8 as i8, p) as u8 as u64,
            W::U16 => cross_u16(a as u16, b as u16, p) as u64,
            W::I16 => cross_i16(a as u16 as i16, b as u16 as i16, p) as u16 as u64,
            W::U32 => cross_u32(a as u32, b as u32, p) as u64,
            W::F32 => cross_f32(f32::from_bits(a as u32), f32::from_bits(b as u32), p).to_bits() as u64,
            W::U64 => cross_u64(a, b, p),
            W::F64 => cross_f64(f64::from_bits(a), f64::from_bits(b), p).to_bits(),
        }
    }
}

fn word(r: &mut R, width: usize) -> u64 {
    let m = if width == 64 { !0 } else { (1u64 << width) - 1 };
    let w = match r.below(12) {
        0 => 0,
        1 => !0,
        2 => 0x5555_5555_5555_5555,
        3 => 0xaaaa_aaaa_aaaa_aaaa,
        4 => 1u64 << r.below(width),
        5 => !(1u64 << r.below(width)),
        6 => (r.range(-9, 9) as f64).to_bits(),
        7 => (r.unit() as f32 * 100.0).to_bits() as u64,
        8 => 1u64 << (width - 1),
        9 => (1u64 << (width - 1)) - 1,
        _ => r.next(),
    };
    w & m
}

/// Every pair of bytes at every position: one trace per first parent.
pub fn bytes(out: &mut Out) {
    for x in 0..256u64 {
        if !out.mine(x as usize) {
            continue;
        }
        let id = format!("bytes-{}", x);
        out.begin(&id);
        let mut ev = vec![];
        for w in &[W::U8, W::I8] {
            for p in 1..8 {
                let res = guarded(|| (0..256).map(|y| w.cross(x, y, p) as i64).collect::<Vec<i64>>());
                ev.push(match res {
                    Ok(o) => J::O(vec![
                        ("e", s("bytes")),
                        ("t", s(w.name())),
                        ("a", J::I(x as i64)),
                        ("p", i(p)),
                        ("o", ints(&o)),
                    ]),
                    Err(_) => panicked(),
                });
            }
        }
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Int });
    }
}

fn words(ev: &mut Vec<J>, r: &mut R) {
    for w in &WIDE {
        let n = w.width();
        for round in 0..2 {
            let (x, y) = match (round, r.below(3)) {
                (0, 0) => (0, if n == 64 { !0 } else { (1 << n) - 1 }),
                (0, 1) => (if n == 64 { !0 } else { (1 << n) - 1 }, 0),
                _ => (word(r, n), word(r, n)),
            };
            let res = guarded(|| (1..n).map(|p| chunks(w.cross(x, y, p), n)).collect::<Vec<J>>());
            ev.push(match res {
                Ok(o) => J::O(vec![
                    ("e", s("words")),
                    ("t", s(w.name())),
                    ("w", i(n)),
                    ("a", chunks(x, n)),
                    ("b", chunks(y, n)),
                    ("o", a(o)),
                ]),
                Err(_) => panicked(),
            });
        }
    }
}

/// `mix`: the same crossover also serves other parents and the other type in between.
fn cross_random(wide: bool, x: u64, y: u64, n: usize, mix: bool) -> Vec<Vec<u64>> {
    let mut c = CrossBitwise::new();
    (0..n)
        .map(|k| {
            if mix && k % 2 == 0 {
                let _: Vec<f64> = c.cross(&[&1.5, &-2.25]);
            }
            if mix && k % 3 == 0 {
                let _: Vec<f32> = c.cross(&[&-3.5, &0.75]);
            }
            if wide {
                let o: Vec<f64> = c.cross(&[&f64::from_bits(x), &f64::from_bits(y)]);
                o.iter().map(|v| v.to_bits()).collect()
            } else {
                let o: Vec<f32> = c.cross(&[&f32::from_bits(x as u32), &f32::from_bits(y as u32)]);
                o.iter().map(|v| v.to_bits() as u64).collect()
            }
        })
        .collect()
}

fn bitwise_cross(ev: &mut Vec<J>, r: &mut R, big: bool) {
    for wide in &[false, true] {
        let n = if *wide { 64 } else { 32 };
        for mode in &[trng::Mode::Seeded, trng::Mode::Mixed, trng::Mode::Const(0), trng::Mode::Const(!0)] {
            trng::set_mode(*mode);
            let (x, y) = (word(r, n), word(r, n));
            let res = guarded(|| cross_random(*wide, x, y, 2, r.chance(50)));
            ev.push(match res {
                Ok(o) => J::O(vec![
                    ("e", s("bitwise")),
                    ("w", i(n)),
                    ("a", chunks(x, n)),
                    ("b", chunks(y, n)),
                    ("o", a(o.iter().map(|v| a(v.iter().map(|z| chunks(*z, n)).collect())).collect())),
                ]),
                Err(_) => panicked(),
            });
        }
        trng::seed(r.next());
        for bad in &[0usize, 1, 3, 4] {
            let z = 1.5f64;
            let z4 = 1.5f32;
            let res = if *wide { guarded(|| CrossBitwise::new().cross(&vec![&z; *bad]).len()) } else { guarded(|| CrossBitwise::new().cross(&vec![&z4; *bad]).len()) };
            ev.push(J::O(vec![("e", s("parents16")), ("n", i(*bad)), ("refused", J::B(res.is_err()))]));
        }
        if big {
            // parents that differ in every bit: the position can be read off the child
            let all = if *wide { !0u64 } else { 0xffff_ffff };
            let x = word(r, n);
            let y = x ^ all;
            let res = guarded(|| cross_random(*wide, x, y, 4000, r.chance(50)));
            ev.push(match res {
                Ok(o) => {
                    let mut kinds: Vec<u64> = o.iter().flat_map(|v| v.iter().cloned()).collect();
                    kinds.sort();
                    kinds.dedup();
                    J::O(vec![
                        ("e", s("reach")),
                        ("w", i(n)),
                        ("a", chunks(x, n)),
                        ("b", chunks(y, n)),
                        ("o", a(kinds.iter().map(|z| chunks(*z, n)).collect())),
                    ])
                }
                Err(_) => panicked(),
            });
        }
    }
}

// ---- mutations ----

fn mutate(wide: bool, m: &mut BitwiseMutation, x: u64) -> u64 {
    if wide {
        let y: f64 = m.mutation(&f64::from_bits(x));
        y.to_bits()
    } else {
        let y: f32 = m.mutation(&f32::from_bits(x as u32));
        y.to_bits() as u64
    }
}
/// positions of the bits that differ
fn flips(x: u64, y: u64) -> J {
    a((0..64).filter(|k| (x ^ y) >> k & 1 == 1).map(|k| i(k)).collect())
}

fn bit_mutation(ev: &mut Vec<J>, r: &mut R, big: bool) {
    for wide in &[false, true] {
        let n = if *wide { 64 } else { 32 };
        for count in &[0usize, 1, 2, 3, r.below(8), r.below(300), *r.pick(&[0, 1025, 5001, 70_001])] {
            trng::set_mode(*r.pick(&[
                trng::Mode::Seeded,
                trng::Mode::Seeded,
                trng::Mode::Mixed,
                trng::Mode::Const(0),
                trng::Mode::Const(!0),
            ]));
            let mix = r.chance(50);
            let res = guarded(|| {
                let mut m = BitwiseMutation::new(*count);
                (0..3)
                    .map(|_| {
                        if mix {
                            // the same mutation also serves the other type
                            mutate(!*wide, &mut m, 0x3fc0_0000);
                        }
                        let x = word(r, n);
                        flips(x, mutate(*wide, &mut m, x))
                    })
                    .collect::<Vec<J>>()
            });
            ev.push(match res {
                Ok(o) => J::O(vec![("e", s("flip")), ("w", i(n)), ("k", i(*count)), ("o", a(o))]),
                Err(_) => panicked(),
            });
        }
        trng::seed(r.next());
        if big {
            for count in &[1usize, 2, 3] {
                let mut hits = vec![0i64; 64];
                let mut sizes = vec![0i64; 65];
                let mix = r.chance(50);
                let res = guarded(|| {
                    let mut m = BitwiseMutation::new(*count);
                    for _ in 0..4000 {
                        if mix {
                            mutate(!*wide, &mut m, 0x3fc0_0000);
                        }
                        let x = word(r, n);
                        let d = x ^ mutate(*wide, &mut m, x);
                        sizes[d.count_ones() as usize] += 1;
                        for k in 0..64 {
                            hits[k] += (d >> k & 1) as i64;
                        }
                    }
                });
                ev.push(match res {
                    Ok(_) => J::O(vec![
                        ("e", s("hits")),
                        ("w", i(n)),
                        ("k", i(*count)),
                        ("n", J::I(4000)),
                        ("h", ints(&hits)),
                        ("sizes", ints(&sizes)),
                    ]),
                    Err(_) => panicked(),
                });
            }
        }
    }
}

struct Inner {
    calls: Rc<RefCell<Vec<i64>>>,
    by: i64,
}
impl Mutation<i64> for Inner {
    fn mutation(&mut self, g: &i64) -> i64 {
        self.calls.borrow_mut().push(*g);
        g + self.by
    }
}

/// m: probability in tenths of a percent
fn vec_mutation_events(ev: &mut Vec<J>, m: i64, list: &[Vec<i64>]) {
    let calls = Rc::new(RefCell::new(vec![]));
    let by = 1000;
    let res = guarded(|| {
        let mut v = VecMutation::new(m as f64 / 10.0, Box::new(Inner { calls: calls.clone(), by }));
        for g in list {
            calls.borrow_mut().clear();
            let before = g.clone();
            let o = v.mutation(g);
            ev.push(J::O(vec![
                ("e", s("vmut")),
                ("m", J::I(m)),
                ("by", J::I(by)),
                ("g", ints(g)),
                ("same", J::B(*g == before)),
                ("o", ints(&o)),
                ("calls", ints(&calls.borrow())),
            ]));
        }
    });
    if res.is_err() {
        ev.push(panicked());
    }
}

fn vec_mutation(ev: &mut Vec<J>, r: &mut R, big: bool) {
    for mode in &[trng::Mode::Seeded, trng::Mode::Mixed, trng::Mode::Const(0), trng::Mode::Const(!0)] {
        let list: Vec<Vec<i64>> = (0..3)
            .map(|_| {
                let n = if r.chance(4) { *r.pick(&[33, 70, 300, 1100, 6000]) } else { r.below(8) as i64 };
                (0..n).map(|k| if r.chance(50) { k } else { r.range(0, 9) }).collect()
            })
            .collect();
        for m in &[0, 1000, r.range(1, 999)] {
            trng::set_mode(*mode);
            vec_mutation_events(ev, *m, &list);
        }
    }
    trng::seed(r.next());
    if big {
        let dim = r.range(1, 5) as usize;
        for m in &[0, 1000, 500, r.range(1, 999)] {
            let n = 4000;
            let mut hits = vec![0i64; dim];
            let mut rows: Vec<Vec<i64>> = vec![];
            let g: Vec<i64> = (0..dim as i64).collect();
            let res = guarded(|| {
                let calls = Rc::new(RefCell::new(vec![]));
                let mut v = VecMutation::new(*m as f64 / 10.0, Box::new(Inner { calls, by: 1000 }));
                for _ in 0..n {
                    let o = v.mutation(&g);
                    for k in 0..dim {
                        hits[k] += (o[k] != g[k]) as i64;
                    }
                    if rows.len() < 400 && *m == 500 {
                        rows.push((0..dim).map(|k| (o[k] != g[k]) as i64).collect());
                    }
                }
            });
            ev.push(match res {
                Ok(_) => J::O(vec![
                    ("e", s("vfreq")),
                    ("m", J::I(*m)),
                    ("n", J::I(n)),
                    ("h", ints(&hits)),
                    ("rows", a(rows.iter().map(|x| ints(x)).collect())),
                ]),
                Err(_) => panicked(),
            });
        }
    }
    if big {
        // very small and very large probabilities: rare cases out of a million
        for (ppm, whole) in &[(r.range(1, 900), false), (r.range(1, 900), true)] {
            let p = if *whole { 100.0 - *ppm as f64 / 1e4 } else { *ppm as f64 / 1e4 };
            let (n, mut hit) = (1_000_000, 0);
            let res = guarded(|| {
                let calls = Rc::new(RefCell::new(vec![]));
                let mut v = VecMutation::new(p, Box::new(Inner { calls: calls.clone(), by: 1000 }));
                let g = vec![1i64; 1000];
                for _ in 0..n / 1000 {
                    hit += v.mutation(&g).iter().filter(|x| **x != 1).count() as i64;
                    calls.borrow_mut().clear();
                }
            });
            ev.push(match res {
                Ok(_) => J::O(vec![("e", s("vrare")), ("ppm", J::I(*ppm)), ("h", J::I(if *whole { n - hit } else { hit }))]),
                Err(_) => panicked(),
            });
        }
    }
    // the gene mutation of the library inside
    for wide in &[false, true] {
        let count = r.below(4);
        let n = if *wide { 64 } else { 32 };
        let g: Vec<u64> = (0..r.below(6)).map(|_| word(r, n)).collect();
        let res = guarded(|| {
            if *wide {
                let v: Vec<f64> = g.iter().map(|x| f64::from_bits(*x)).collect();
                VecMutation::new(100.0, Box::new(BitwiseMutation::new(count))).mutation(&v).iter().map(|x| x.to_bits()).collect::<Vec<u64>>()
            } else {
                let v: Vec<f32> = g.iter().map(|x| f32::from_bits(*x as u32)).collect();
                VecMutation::new(100.0, Box::new(BitwiseMutation::new(count))).mutation(&v).iter().map(|x| x.to_bits() as u64).collect::<Vec<u64>>()
            }
        });
        ev.push(match res {
            Ok(o) if o.len() == g.len() => J::O(vec![
                ("e", s("flip")),
                ("w", i(n)),
                ("k", i(count)),
                ("o", a(g.iter().zip(o.iter()).map(|(x, y)| flips(*x, *y)).collect())),
            ]),
            _ => panicked(),
        });
    }
}

// ---- numeric crossovers ----

/// y as an integer if it is one up to rounding
fn near(y: f64, tol: f64) -> i64 {
    let n = y.round();
    if (y - n).abs() <= tol * y.abs().max(1.0) && n.abs() < 900_000_000.0 {
        n as i64
    } else {
        // equals no expected value
        NAN
    }
}

fn means(ev: &mut Vec<J>, r: &mut R) {
    for kind in 0..3 {
        for _ in 0..3 {
            let n = if r.chance(4) { *r.pick(&[33usize, 70, 300]) } else { *r.pick(&[2usize, 2, 3, 4, 5, 7, 12]) };
            let g: Vec<i64> = (0..n).map(|_| r.range(-1000, 1000)).collect();
            let k = if kind == 2 { 0 } else if kind == 1 { r.range(-100, 100) } else { r.range(-900, 900) } as i32;
            let k = if r.chance(50) { 0 } else { k };
            let res = guarded(|| match kind {
                0 => {
                    let sc = 2f64.powi(k);
                    let p: Vec<f64> = g.iter().map(|x| *x as f64 * sc).collect();
                    CrossMean::new().cross(&p.iter().collect::<Vec<&f64>>()).iter().map(|x| near(*x / sc * n as f64, 1e-12)).collect::<Vec<i64>>()
                }
                1 => {
                    let sc = 2f32.powi(k);
                    let p: Vec<f32> = g.iter().map(|x| *x as f32 * sc).collect();
                    CrossMean::new().cross(&p.iter().collect::<Vec<&f32>>()).iter().map(|x| near((*x / sc) as f64 * n as f64, 1e-5)).collect()
                }
                _ => {
                    let p: Vec<i32> = g.iter().map(|x| *x as i32).collect();
                    CrossMean::new().cross(&p.iter().collect::<Vec<&i32>>()).iter().map(|x| *x as i64).collect()
                }
            });
            ev.push(match res {
                Ok(o) => J::O(vec![("e", s("mean")), ("int", J::B(kind == 2)), ("g", ints(&g)), ("o", ints(&o))]),
                Err(_) => panicked(),
            });
            if kind < 2 {
                let many = r.chance(25);
                let n = if many { *r.pick(&[7usize, 8, 9, 10, 13, 20, 33]) } else { *r.pick(&[2usize, 2, 3, 4, 5, 6]) };
                let n = if many && kind == 0 && r.chance(20) { *r.pick(&[70usize, 260, 300]) } else { n };
                let mut g: Vec<i64> = (0..n).map(|m| if m < 4 || !many { r.range(1, 9) } else { 1 }).collect();
                if r.chance(10) {
                    g[0] = 0;
                }
                if r.chance(20) {
                    g = vec![if many { 1 } else { r.range(1, 9) }; n];
                }
                r.shuffle(&mut g);
                // the product can be represented
                let k = (if kind == 1 { r.range(-90, 90) } else { r.range(-900, 900) } / n.max(6) as i64) as i32;
                let res = guarded(|| {
                    if kind == 0 {
                        let sc = 2f64.powi(k);
                        let p: Vec<f64> = g.iter().map(|x| *x as f64 * sc).collect();
                        FloatCrossGeometricMean::new().cross(&p.iter().collect::<Vec<&f64>>()).iter().map(|x| near((*x / sc).powi(n as i32), 1e-11)).collect::<Vec<i64>>()
                    } else {
                        let sc = 2f32.powi(k);
                        let p: Vec<f32> = g.iter().map(|x| *x as f32 * sc).collect();
                        FloatCrossGeometricMean::new().cross(&p.iter().collect::<Vec<&f32>>()).iter().map(|x| near(((*x / sc) as f64).powi(n as i32), 2e-5)).collect()
                    }
                });
                let small = kind == 0 || g.iter().product::<i64>() < 10_000;
                ev.push(match res {
                    Ok(o) if small => J::O(vec![("e", s("geo")), ("g", ints(&g)), ("o", ints(&o))]),
                    Ok(o) => J::O(vec![("e", s("one")), ("n", i(o.len()))]),
                    Err(_) => panicked(),
                });
            }
        }
    }
    for n in &[0usize, 1] {
        let z = 2.0f64;
        let res = guarded(|| CrossMean::new().cross(&vec![&z; *n]).len());
        ev.push(J::O(vec![("e", s("parents20")), ("k", s("mean")), ("n", i(*n)), ("refused", J::B(res.is_err()))]));
        let res = guarded(|| FloatCrossGeometricMean::new().cross(&vec![&z; *n]).len());
        ev.push(J::O(vec![("e", s("parents20")), ("k", s("geo")), ("n", i(*n)), ("refused", J::B(res.is_err()))]));
    }
    for n in &[0usize, 1, 3, 4] {
        let z = 2.0f64;
        let z4 = 2.0f32;
        let v = vec![z];
        let res = guarded(|| FloatCrossExp::new().cross(&vec![&z; *n]).len() + FloatCrossExp::new().cross(&vec![&z; *n]).len());
        ev.push(J::O(vec![("e", s("parents20")), ("k", s("exp")), ("n", i(*n)), ("refused", J::B(res.is_err()))]));
        let res = guarded(|| FloatCrossExp::new().cross(&vec![&z4; *n]).len());
        ev.push(J::O(vec![("e", s("parents20")), ("k", s("exp")), ("n", i(*n)), ("refused", J::B(res.is_err()))]));
        let res = guarded(|| VecCrossAllGenes::new(Box::new(CrossMean::new())).cross(&vec![&v; *n]).len());
        ev.push(J::O(vec![("e", s("parents20")), ("k", s("vec")), ("n", i(*n)), ("refused", J::B(res.is_err()))]));
    }
}

/// mantissa, exponent, sign of a normal number
fn decode(x: f64, wide: bool) -> (u64, i64, i64) {
    if wide {
        let b = x.to_bits();
        let e = (b >> 52 & 0x7ff) as i64;
        ((b & ((1 << 52) - 1)) | if e > 0 { 1 << 52 } else { 0 }, e - 1075, if b >> 63 == 1 { -1 } else { 1 })
    } else {
        let b = (x as f32).to_bits();
        let e = (b >> 23 & 0xff) as i64;
        (
            ((b & ((1 << 23) - 1)) | if e > 0 { 1 << 23 } else { 0 }) as u64,
            e - 150,
            if b >> 31 == 1 { -1 } else { 1 },
        )
    }
}
fn encode(m: u64, e: i64, neg: bool, wide: bool) -> f64 {
    if wide {
        f64::from_bits((neg as u64) << 63 | ((e + 1075) as u64) << 52 | (m & ((1 << 52) - 1)))
    } else {
        f32::from_bits((neg as u32) << 31 | ((e + 150) as u32) << 23 | (m as u32 & ((1 << 23) - 1))) as f64
    }
}
fn parts(x: f64, wide: bool) -> J {
    if !x.is_finite() || x == 0.0 {
        return J::O(vec![("m", a(vec![])), ("e", J::I(0)), ("s", J::I(0))]);
    }
    let (m, e, sg) = decode(x, wide);
    J::O(vec![("m", chunks(m, 64)), ("e", J::I(e & 0xffff)), ("s", J::I(sg))])
}
fn exp_cross(c: &mut FloatCrossExp, x: f64, y: f64, wide: bool) -> Vec<f64> {
    if wide {
        c.cross(&[&x, &y])
    } else {
        let (p, q) = (x as f32, y as f32);
        c.cross(&[&p, &q]).iter().map(|z: &f32| *z as f64).collect()
    }
}

fn exponents(ev: &mut Vec<J>, r: &mut R, big: bool) {
    for wide in &[false, true] {
        let (bits, low) = if *wide { (52, 1024) } else { (23, 128) };
        let mut number = |r: &mut R| {
            let m = match r.below(4) {
                0 => 0,
                1 => !0,
                2 => 1u64 << r.below(bits),
                _ => r.next(),
            };
            let e = match r.below(4) {
                0 => -(bits as i64) - r.range(0, 3),
                1 => -1,
                2 => -low,
                _ => -r.range(1, low),
            };
            encode(m, e, r.chance(50), *wide)
        };
        for mode in &[trng::Mode::Seeded, trng::Mode::Seeded, trng::Mode::Mixed, trng::Mode::Const(0), trng::Mode::Const(!0)] {
            let (x, y) = (number(r), number(r));
            trng::set_mode(*mode);
            let mix = r.chance(50);
            let (x2, y2, w2) = (number(r), number(r), *wide ^ r.chance(50));
            let (x2, y2) = if w2 == *wide { (x2, y2) } else { (1.5, -0.375) };
            let res = guarded(|| {
                let mut c = FloatCrossExp::new();
                if mix {
                    exp_cross(&mut c, x2, y2, w2);
                }
                (0..3).map(|_| a(exp_cross(&mut c, x, y, *wide).iter().map(|z| parts(*z, *wide)).collect())).collect::<Vec<J>>()
            });
            ev.push(match res {
                Ok(o) => J::O(vec![("e", s("exp")), ("a", parts(x, *wide)), ("b", parts(y, *wide)), ("o", a(o))]),
                Err(_) => panicked(),
            });
        }
        trng::seed(r.next());
        if big {
            // every position can be read off the child
            let neg = r.chance(50);
            let x = encode(0, -low, neg, *wide);
            let y = encode(!0, -1, !neg, *wide);
            let mix = r.chance(50);
            let res = guarded(|| {
                let mut c = FloatCrossExp::new();
                if mix {
                    exp_cross(&mut c, 1.5, -0.375, !*wide);
                    exp_cross(&mut c, 1.5, 1.5, *wide);
                }
                let mut ms: Vec<u64> = vec![];
                let mut es: Vec<i64> = vec![];
                let mut ss: Vec<i64> = vec![];
                for _ in 0..4000 {
                    for z in exp_cross(&mut c, x, y, *wide) {
                        let (m, e, sg) = decode(z, *wide);
                        ms.push(m);
                        es.push(e & 0xffff);
                        ss.push(sg);
                    }
                }
                ms.sort();
                ms.dedup();
                es.sort();
                es.dedup();
                ss.sort();
                ss.dedup();
                (ms, es, ss)
            });
            ev.push(match res {
                Ok((ms, es, ss)) => J::O(vec![
                    ("e", s("expreach")),
                    ("a", parts(x, *wide)),
                    ("b", parts(y, *wide)),
                    ("m", a(ms.iter().map(|z| chunks(*z, 64)).collect())),
                    ("ex", ints(&es)),
                    ("s", ints(&ss)),
                ]),
                Err(_) => panicked(),
            });
        }
    }
}

struct InnerCross {
    calls: Rc<RefCell<Vec<J>>>,
    next: i64,
}
impl Cross<i64> for InnerCross {
    fn cross(&mut self, p: &[&i64]) -> Vec<i64> {
        self.next += 1;
        let mut c: Vec<i64> = p.iter().map(|x| **x).collect();
        c.push(self.next);
        self.calls.borrow_mut().push(ints(&c));
        vec![self.next]
    }
}

fn vec_cross_events(ev: &mut Vec<J>, list: &[(Vec<i64>, Vec<i64>)]) {
    let calls = Rc::new(RefCell::new(vec![]));
    let res = guarded(|| {
        let mut v = VecCrossAllGenes::new(Box::new(InnerCross { calls: calls.clone(), next: 5000 }));
        for (p, q) in list {
            calls.borrow_mut().clear();
            let o = v.cross(&[p, q]);
            ev.push(J::O(vec![
                ("e", s("vec")),
                ("a", ints(p)),
                ("b", ints(q)),
                ("o", a(o.iter().map(|x| ints(x)).collect())),
                ("calls", a(calls.borrow().clone())),
            ]));
        }
    });
    if res.is_err() {
        ev.push(panicked());
    }
}

fn vec_cross(ev: &mut Vec<J>, r: &mut R) {
    let list: Vec<(Vec<i64>, Vec<i64>)> = (0..4)
        .map(|_| {
            let n = if r.chance(4) { *r.pick(&[33, 70, 300, 1100, 6000]) } else { r.below(9) };
            (
                (0..n as i64).map(|k| if r.chance(50) { k } else { r.range(0, 5) }).collect(),
                (0..n as i64).map(|k| if r.chance(50) { 100 + k } else { r.range(0, 5) }).collect(),
            )
        })
        .collect();
    vec_cross_events(ev, &list);
    // the mean inside
    let n = r.below(6);
    let g: Vec<Vec<i64>> = (0..2).map(|_| (0..n).map(|_| r.range(-50, 50)).collect()).collect();
    let res = guarded(|| {
        let p: Vec<Vec<f64>> = g.iter().map(|x| x.iter().map(|y| *y as f64).collect()).collect();
        VecCrossAllGenes::new(Box::new(CrossMean::new())).cross(&[&p[0], &p[1]])
    });
    ev.push(match res {
        Ok(o) => J::O(vec![
            ("e", s("vecmean")),
            ("a", ints(&g[0])),
            ("b", ints(&g[1])),
            ("o", a(o.iter().map(|x| ints(&x.iter().map(|y| near(*y * 2.0, 1e-12)).collect::<Vec<i64>>())).collect())),
        ]),
        Err(_) => panicked(),
    });
}

fn run(out: &mut Out, seed: u64, n: usize, name: &str, salt: u64, f: &dyn Fn(&mut Vec<J>, &mut R, usize)) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ salt);
        trng::seed(r.next());
        let id = format!("{}-{}-{}", name, seed, k);
        out.begin(&id);
        let mut ev = vec![];
        f(&mut ev, &mut r, k);
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Int });
    }
}

pub fn suite_words(out: &mut Out, seed: u64, n: usize) {
    run(out, seed, n, "words", 0x4444_0000, &|ev, r, k| {
        words(ev, r);
        bitwise_cross(ev, r, k % 10 == 0);
    });
}
pub fn suite_mutation(out: &mut Out, seed: u64, n: usize) {
    run(out, seed, n, "mutation", 0x5555_0000, &|ev, r, k| {
        bit_mutation(ev, r, k % 10 == 0);
        vec_mutation(ev, r, k % 4 == 0);
    });
}
pub fn suite_numeric(out: &mut Out, seed: u64, n: usize) {
    run(out, seed, n, "numeric", 0x6666_0000, &|ev, r, k| {
        means(ev, r);
        exponents(ev, r, k % 10 == 0);
        vec_cross(ev, r);
    });
}

/// Words and gene lists enumerated by TLC.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    for (k, line) in text.lines().enumerate() {
        if !out.mine(k) {
            continue;
        }
        let id = format!("bits-script-{}", k);
        out.begin(&id);
        trng::seed(k as u64 + 1);
        let j = parse(line);
        let (x, y) = (j.ga("a").iter().map(|x| x.int()).collect::<Vec<i64>>(), j.ga("b").iter().map(|x| x.int()).collect::<Vec<i64>>());
        let mut ev = vec![];
        // as genes
        let g: Vec<i64> = x.iter().enumerate().map(|(k, v)| 2 * k as i64 + v).collect();
        let h: Vec<i64> = y.iter().enumerate().map(|(k, v)| 100 + 2 * k as i64 + v).collect();
        vec_cross_events(&mut ev, &[(g.clone(), h.clone()), (x.clone(), y.clone())]);
        for m in &[0, 500, 1000] {
            vec_mutation_events(&mut ev, *m, &[g.clone(), h.clone(), x.clone()]);
        }
        // as the bits of words: the pattern repeated, at every position
        if !x.is_empty() {
            let rep = |v: &[i64], n: usize| (0..n).fold(0u64, |acc, k| acc | (v[k % v.len()] as u64) << k);
            for w in &WIDE {
                let n = w.width();
                let (p, q) = (rep(&x, n), rep(&y, n));
                let res = guarded(|| (1..n).map(|p0| chunks(w.cross(p, q, p0), n)).collect::<Vec<J>>());
                ev.push(match res {
                    Ok(o) => J::O(vec![
                        ("e", s("words")),
                        ("t", s(w.name())),
                        ("w", i(n)),
                        ("a", chunks(p, n)),
                        ("b", chunks(q, n)),
                        ("o", a(o)),
                    ]),
                    Err(_) => panicked(),
                });
            }
        }
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Int });
    }
}
