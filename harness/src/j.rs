//! Minimal JSON values, traces and the output file.

use std::collections::HashMap;
use std::fmt::Write as _;

/// JSON value.  `V` is a goal value; it is written as an integer code: finite values as their rank
/// among the finite values of the trace (or as themselves in integer traces), and
/// -inf, +inf, NaN as NINF, PINF, NAN.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    S(String),
    B(bool),
    V(f64),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

pub const NINF: i64 = -1_000_000_000;
pub const PINF: i64 = 1_000_000_000;
pub const NAN: i64 = 1_000_000_001;

pub fn i<T: std::convert::TryInto<i64>>(x: T) -> J {
    match x.try_into() {
        Ok(v) => J::I(v),
        Err(_) => J::I(NAN + 1),
    }
}
pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
pub fn a(x: Vec<J>) -> J {
    J::A(x)
}
pub fn ints(x: &[i64]) -> J {
    J::A(x.iter().map(|v| J::I(*v)).collect())
}
pub fn us(x: &[usize]) -> J {
    J::A(x.iter().map(|v| J::I(*v as i64)).collect())
}

/// How goal values are written.
#[derive(Clone, Copy, PartialEq)]
pub enum Vals {
    Rank,
    Int,
}

fn collect(j: &J, out: &mut Vec<f64>) {
    match j {
        J::V(v) => {
            if v.is_finite() {
                out.push(*v)
            }
        }
        J::A(x) => x.iter().for_each(|y| collect(y, out)),
        J::O(x) => x.iter().for_each(|(_, y)| collect(y, out)),
        _ => {}
    }
}

fn key(v: f64) -> u64 {
    // -0.0 and 0.0 are the same number
    (v + 0.0).to_bits()
}

fn put(j: &J, m: Vals, ranks: &HashMap<u64, i64>, o: &mut String) {
    match j {
        J::I(v) => write!(o, "{}", v).unwrap(),
        J::B(v) => o.push_str(if *v { "true" } else { "false" }),
        J::S(v) => {
            o.push('"');
            for c in v.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'),
                    c => o.push(c),
                }
            }
            o.push('"');
        }
        J::V(v) => {
            let n = if v.is_nan() {
                NAN
            } else if *v == f64::INFINITY {
                PINF
            } else if *v == f64::NEG_INFINITY {
                NINF
            } else if m == Vals::Int {
                int_code(*v)
            } else {
                ranks[&key(*v)]
            };
            write!(o, "{}", n).unwrap()
        }
        J::A(x) => {
            o.push('[');
            for (k, y) in x.iter().enumerate() {
                if k > 0 {
                    o.push(',')
                }
                put(y, m, ranks, o);
            }
            o.push(']');
        }
        J::O(x) => {
            o.push('{');
            for (k, (n, y)) in x.iter().enumerate() {
                if k > 0 {
                    o.push(',')
                }
                write!(o, "\"{}\":", n).unwrap();
                put(y, m, ranks, o);
            }
            o.push('}');
        }
    }
}

/// Integer code of a float that is expected to be a small integer; anything else gets a code
/// outside the range used by the specifications.
pub fn int_code(v: f64) -> i64 {
    if v.is_nan() {
        NAN
    } else if v == f64::INFINITY {
        PINF
    } else if v == f64::NEG_INFINITY {
        NINF
    } else if v.fract() == 0.0 && v.abs() < 900_000_000.0 {
        v as i64
    } else {
        // not an integer: a code that equals no expected value
        950_000_000 + (key(v) % 40_000_000) as i64
    }
}

pub struct Trace {
    pub id: String,
    pub cfg: J,
    pub ev: Vec<J>,
    pub vals: Vals,
}

impl Trace {
    pub fn line(&self) -> String {
        let all = J::O(vec![
            ("id", s(&self.id)),
            ("cfg", self.cfg.clone()),
            ("ev", J::A(self.ev.clone())),
        ]);
        let mut vs = vec![];
        if self.vals == Vals::Rank {
            collect(&all, &mut vs);
            vs.sort_by(|x, y| x.partial_cmp(y).unwrap());
            vs.dedup_by(|x, y| x == y);
        }
        let ranks: HashMap<u64, i64> = vs
            .iter()
            .enumerate()
            .map(|(n, v)| (key(*v), n as i64))
            .collect();
        let mut o = String::new();
        put(&all, self.vals, &ranks, &mut o);
        o
    }
}

// ---- parser (for scripts) ----

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| *n == k).map(|(_, x)| x),
            _ => None,
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(v) => *v,
            x => panic!("not an integer: {:?}", x),
        }
    }
    pub fn gi(&self, k: &str) -> i64 {
        self.get(k).map_or(0, |x| x.int())
    }
    pub fn gs(&self, k: &str) -> &str {
        match self.get(k) {
            Some(J::S(x)) => x,
            _ => "",
        }
    }
    pub fn gb(&self, k: &str) -> bool {
        self.get(k) == Some(&J::B(true))
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            x => panic!("not an array: {:?}", x),
        }
    }
    pub fn ga(&self, k: &str) -> &[J] {
        self.get(k).map_or(&[], |x| x.arr())
    }
    pub fn is(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
}

/// Goal value of a code used in the specifications.
pub fn val_of(c: i64) -> f64 {
    match c {
        NAN => f64::NAN,
        PINF => f64::INFINITY,
        NINF => f64::NEG_INFINITY,
        c => c as f64,
    }
}

pub fn parse(t: &str) -> J {
    let b = t.as_bytes();
    let mut p = 0;
    let j = val(b, &mut p);
    ws(b, &mut p);
    assert!(p == b.len(), "trailing characters");
    j
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1
    }
}
fn text(b: &[u8], p: &mut usize) -> String {
    *p += 1;
    let mut o = String::new();
    while b[*p] != b'"' {
        if b[*p] == b'\\' {
            *p += 1
        }
        o.push(b[*p] as char);
        *p += 1;
    }
    *p += 1;
    o
}
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::O(o);
                }
                if b[*p] == b',' {
                    *p += 1;
                    ws(b, p);
                }
                let k = text(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                o.push((&*Box::leak(k.into_boxed_str()), val(b, p)));
            }
        }
        b'[' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::A(o);
                }
                if b[*p] == b',' {
                    *p += 1;
                }
                o.push(val(b, p));
            }
        }
        b'"' => J::S(text(b, p)),
        b't' => {
            *p += 4;
            J::B(true)
        }
        b'f' => {
            *p += 5;
            J::B(false)
        }
        _ => {
            let q = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1
            }
            J::I(std::str::from_utf8(&b[q..*p]).unwrap().parse().unwrap())
        }
    }
}
