//! Output shard, watchdog and counts.

use crate::j::*;
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Out {
    pub shard: usize,
    pub shards: usize,
    f: std::io::BufWriter<std::fs::File>,
    cur: Arc<Mutex<(String, Instant)>>,
    pub traces: usize,
    pub events: usize,
    started: Instant,
    budget: Duration,
}

impl Out {
    pub fn new(path: &str, shard: usize, shards: usize, budget: u64) -> Out {
        let cur = Arc::new(Mutex::new((String::new(), Instant::now())));
        let c = cur.clone();
        let p = path.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = c.lock().unwrap();
            if !g.0.is_empty() && g.1.elapsed() > Duration::from_secs(60) {
                // The code under test does not return: that is a result, not an error.
                let t = Trace {
                    id: g.0.clone(),
                    cfg: J::O(vec![]),
                    ev: vec![J::O(vec![("e", s("hang"))])],
                    vals: Vals::Int,
                };
                std::fs::write(format!("{}.hang", p), t.line() + "\n").unwrap();
                std::process::exit(7);
            }
        });
        Out {
            shard,
            shards,
            f: std::io::BufWriter::new(std::fs::File::create(path).unwrap()),
            cur,
            traces: 0,
            events: 0,
            started: Instant::now(),
            budget: Duration::from_secs(budget),
        }
    }
    pub fn mine(&self, k: usize) -> bool {
        k % self.shards == self.shard && self.started.elapsed() < self.budget
    }
    pub fn begin(&self, id: &str) {
        *self.cur.lock().unwrap() = (id.to_string(), Instant::now());
    }
    pub fn emit(&mut self, t: Trace) {
        self.cur.lock().unwrap().0.clear();
        self.traces += 1;
        self.events += t.ev.len();
        writeln!(self.f, "{}", t.line()).unwrap();
    }
    pub fn finish(&mut self) {
        self.f.flush().unwrap();
        println!("traces={} events={}", self.traces, self.events);
    }
}
