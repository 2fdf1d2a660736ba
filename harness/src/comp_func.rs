//! Test functions.

use crate::core::guarded;
use crate::j::*;
use crate::out::Out;
use crate::rng::R;
use num::Float;
use optlib_testfunc::*;

const NAMES: [&str; 4] = ["paraboloid", "rosenbrock", "rastrigin", "schwefel"];

fn call<F: Float>(f: &str, x: &Vec<F>) -> f64 {
    guarded(|| match f {
        "paraboloid" => paraboloid(x),
        "rosenbrock" => rosenbrock(x),
        "rastrigin" => rastrigin(x),
        _ => schwefel(x),
    })
    .unwrap_or(f64::NAN)
}

fn near(y: f64) -> J {
    J::I(if y.is_nan() {
        NAN
    } else if y.abs() < 9e8 {
        y.round() as i64
    } else {
        950_000_000
    })
}

fn point<F: Float>(f: &str, x: &[i64], u: i64) -> Vec<F> {
    x.iter()
        .map(|c| {
            let y = if f == "schwefel" {
                let r = *c as f64 * std::f64::consts::PI / 6.0;
                r * r * if *c < 0 { -1.0 } else { 1.0 }
            } else {
                *c as f64 / u as f64
            };
            F::from(y).unwrap()
        })
        .collect()
}

fn value<F: Float>(f: &'static str, x: &[i64], u: i64, ev: &mut Vec<J>) {
    let y = call(f, &point::<F>(f, x, u));
    let k = match f {
        "paraboloid" => (u * u) as f64,
        "rosenbrock" => (u * u * u * u) as f64,
        "rastrigin" => (u * u) as f64 * 1000.0,
        _ => 10000.0,
    };
    let big = |y: f64| if y.is_nan() { J::I(NAN) } else { J::I(y.round().max(-2.1e9).min(2.1e9) as i64) };
    let v = if f == "paraboloid" || f == "rosenbrock" { J::I(int_code(y * k)) } else if f == "schwefel" { big(y * k) } else { near(y * k) };
    ev.push(J::O(vec![
        ("e", s("val")),
        ("f", s(f)),
        ("x", ints(x)),
        ("u", J::I(u)),
        ("v", v),
        ("single", J::B(single::<F>())),
    ]));
}

fn single<F: Float>() -> bool {
    F::epsilon().to_f64().unwrap() > 1e-10
}

fn lattice_points<F: Float>(r: &mut R, ev: &mut Vec<J>) {
    let one = single::<F>();
    for f in NAMES.iter().copied() {
        // in single precision sums are only exact where the terms are integers
        let whole = one && (f == "paraboloid" || f == "rosenbrock");
        let many = r.chance(4) && (!one || whole);
        let dim = match r.below(6) {
            _ if many => *r.pick(&[33, 64, 130, 257, 300]),
            0 => if r.chance(25) { 0 } else { 1 },
            1 => r.range(6, if one { 10 } else { 25 }) as usize,
            _ => r.range(1, 6) as usize,
        };
        let (u, w) = match f {
            "paraboloid" => *r.pick(&[(1, 60), (4, 80), (16, 320), (2, 30)]),
            "rosenbrock" => {
                if one {
                    *r.pick(&[(1, 4), (2, 6), (4, 8)])
                } else {
                    *r.pick(&[(1, 25), (2, 12), (4, 12)])
                }
            }
            "rastrigin" => *r.pick(&[(4, 20), (6, 30)]),
            _ => (1, 42),
        };
        // f32: the largest values would not be exact
        let dim = if f == "paraboloid" && one && !many { dim.min(10) } else { dim };
        let near_min = many || r.chance(30);
        let w = if many && f != "schwefel" { 2 * u } else { w };
        let x: Vec<i64> = (0..dim)
            .map(|n| {
                if many && whole {
                    let c = r.range(-1, 1);
                    return if f == "paraboloid" { u * (n as i64 + 1 + c) } else { u * c };
                }
                if near_min && r.chance(if many { 95 } else { 70 }) {
                    return match f {
                        "paraboloid" => u * (n as i64 + 1),
                        "rosenbrock" => u,
                        _ => 0,
                    };
                }
                loop {
                    let c = r.range(-w, w);
                    if f != "schwefel" || [0, 1, 3, 5, 6, 7, 9, 11].contains(&(c.abs() % 12)) {
                        return c;
                    }
                }
            })
            .collect();
        value::<F>(f, &x, u, ev);
    }
}

fn everywhere<F: Float>(r: &mut R, ev: &mut Vec<J>) {
    let one = single::<F>();
    let flag = || J::B(one);
    let dim = if !one && r.chance(4) { *r.pick(&[33usize, 64, 100]) } else { r.range(1, 8) as usize };
    for f in NAMES.iter().copied() {
        let w = match f {
            "rastrigin" => 5.12,
            "schwefel" => 500.0,
            _ => 30.0,
        };
        let x: Vec<F> = (0..dim).map(|_| F::from((r.unit() * 2.0 - 1.0) * w).unwrap()).collect();
        let y = call(f, &x);
        ev.push(J::O(vec![
            ("e", s("pos")),
            ("f", s(f)),
            ("v", J::I(if y.is_nan() { NINF } else { (y.min(8e4) * 10000.0).floor() as i64 })),
            ("n", i(dim)),
            ("single", flag()),
        ]));
        let m: Vec<F> = (0..dim)
            .map(|n| {
                F::from(match f {
                    "paraboloid" => n as f64 + 1.0,
                    "rosenbrock" => 1.0,
                    "rastrigin" => 0.0,
                    _ => 420.9687,
                })
                .unwrap()
            })
            .collect();
        ev.push(J::O(vec![
            ("e", s("min")),
            ("f", s(f)),
            ("v", near(call(f, &m) * 10000.0)),
            ("n", i(dim)),
            ("single", flag()),
        ]));
        if f == "rastrigin" || f == "schwefel" {
            let cut = r.below(dim + 1);
            ev.push(J::O(vec![
                ("e", s("parts")),
                ("f", s(f)),
                ("v", near(y * 10000.0)),
                (
                    "vs",
                    a(vec![
                        near(call(f, &x[..cut].to_vec()) * 10000.0),
                        near(call(f, &x[cut..].to_vec()) * 10000.0),
                    ]),
                ),
                ("single", flag()),
            ]));
        }
        if f == "schwefel" {
            let z: Vec<F> = x.iter().map(|c| -*c).collect();
            ev.push(J::O(vec![
                ("e", s("mirror")),
                ("v", near(y * 10000.0)),
                ("w", near(call(f, &z) * 10000.0)),
                ("n", i(dim)),
                ("single", flag()),
            ]));
        }
    }
    let c = r.range(-320, 287);
    let p = |c: i64| near(call("rastrigin", &vec![F::from(c as f64 / 64.0).unwrap()]) * 10000.0);
    ev.push(J::O(vec![
        ("e", s("half")),
        ("a", J::I(c)),
        ("v", p(c)),
        ("w", p(c + 32)),
        ("single", flag()),
    ]));
}

/// Far away the leading powers are all that is left.
fn far<F: Float>(r: &mut R, ev: &mut Vec<J>) {
    let one = single::<F>();
    for f in ["paraboloid", "rosenbrock", "rastrigin"].iter().copied() {
        let p = if f == "rosenbrock" { 4 } else { 2 };
        let k = if one { r.range(20, 24) } else { r.range(20, 220) } as i32;
        let w = if p == 4 { 9 } else { 100 };
        let dim = r.range(2, 4) as usize;
        let x: Vec<i64> = (0..dim).map(|_| r.range(-w, w)).collect();
        let sc = 2f64.powi(k);
        let y: Vec<F> = x.iter().map(|c| F::from(*c as f64 * sc).unwrap()).collect();
        let v = near(call(f, &y) / 2f64.powi(k * p));
        ev.push(J::O(vec![("e", s("far")), ("f", s(f)), ("x", ints(&x)), ("v", v)]));
    }
}

pub fn suite(out: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !out.mine(k) {
            continue;
        }
        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64) ^ 0xdddd_0000);
        let id = format!("func-{}-{}", seed, k);
        out.begin(&id);
        let mut ev = vec![];
        for _ in 0..4 {
            lattice_points::<f64>(&mut r, &mut ev);
            lattice_points::<f32>(&mut r, &mut ev);
        }
        everywhere::<f64>(&mut r, &mut ev);
        everywhere::<f32>(&mut r, &mut ev);
        far::<f64>(&mut r, &mut ev);
        far::<f32>(&mut r, &mut ev);
        out.emit(Trace { id, cfg: J::O(vec![]), ev, vals: Vals::Rank });
    }
}

/// Lattice points enumerated by TLC.
pub fn scripts(out: &mut Out, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    let mut ev = vec![];
    let mut m = 0;
    for line in text.lines() {
        let x = parse(line).get("x").unwrap().is();
        for (f, u) in &[("paraboloid", 1), ("rosenbrock", 2), ("rastrigin", 4), ("rastrigin", 6), ("schwefel", 1)] {
            let y: Vec<i64> = if *f == "schwefel" { x.iter().map(|c| 3 * c).collect() } else { x.clone() };
            value::<f64>(f, &y, *u, &mut ev);
            value::<f32>(f, &y, *u, &mut ev);
        }
        if ev.len() > 60 {
            m += 1;
            out.emit(Trace {
                id: format!("func-script-{}", m),
                cfg: J::O(vec![]),
                ev: std::mem::take(&mut ev),
                vals: Vals::Rank,
            });
        }
    }
    if !ev.is_empty() {
        out.emit(Trace { id: "func-script-0".to_string(), cfg: J::O(vec![]), ev, vals: Vals::Rank });
    }
}
