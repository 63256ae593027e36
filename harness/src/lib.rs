//! Shared machinery of the executable contracts.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % (b - a + 1) as u64) as i64
    }
    /// true once in n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

struct Current {
    desc: String,
    since: Option<Instant>,
}
static CURRENT: Mutex<Current> = Mutex::new(Current { desc: String::new(), since: None });
static PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Fail {
    pub case: String,
    pub what: String,
}

pub struct Rep {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub out: String,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub fail_count: u64,
    pub bounds: Vec<String>,
    trace: Option<std::fs::File>,
    only: Option<String>,
    start: Instant,
}

pub fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

impl Rep {
    pub fn new(property: &str, thorough: bool, seed: u64, out: &str, trace: bool, only: Option<String>) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
            let file = match file.find("/repo/") {
                Some(i) => file[i + 6..].to_string(),
                None => file.rsplit('/').next().unwrap_or("").to_string(),
            };
            *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("panicked in {file}: {msg}");
        }));
        let trace = if trace { Some(std::fs::File::create(format!("{out}.trace")).unwrap()) } else { None };
        Rep {
            property: property.to_string(),
            thorough,
            seed,
            out: out.to_string(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            fails: Vec::new(),
            fail_count: 0,
            bounds: Vec::new(),
            trace,
            only,
            start: Instant::now(),
        }
    }

    pub fn rng(&self, salt: u64) -> Rng {
        let mut r = Rng::new(self.seed.wrapping_mul(1000003).wrapping_add(salt));
        r.next();
        r
    }

    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    /// quick or thorough amount
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }

    pub fn stop(&self) -> bool {
        self.fails.len() >= 40
    }

    /// Runs one case: `f` returns what is wrong, if anything. A panic is a failure.
    pub fn check(&mut self, desc: String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only {
            if *o != desc {
                return;
            }
        }
        if self.stop() {
            return;
        }
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.distinct.insert(h.finish()) {
                let n = self.distinct.len();
                if n <= 2 || (n.is_power_of_two() && n >= 64 && self.samples.len() < 12) {
                    self.samples.push(desc.clone());
                }
            }
        }
        if let Some(t) = &mut self.trace {
            let _ = writeln!(t, "{}", esc(&desc));
            let _ = t.flush();
        }
        {
            let mut c = CURRENT.lock().unwrap();
            c.desc = desc.clone();
            c.since = Some(Instant::now());
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        CURRENT.lock().unwrap().since = None;
        let what = match r {
            Ok(Ok(())) => return,
            Ok(Err(w)) => w,
            Err(_) => PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone(),
        };
        self.fail_count += 1;
        // keep one failure per kind so that different findings all show up
        let kind: String = what.chars().take(40).collect();
        let same = self.fails.iter().filter(|f| f.what.starts_with(&kind)).count();
        if same < 3 {
            self.fails.push(Fail { case: desc, what });
        }
    }

    pub fn json(&self) -> String {
        let fails: Vec<String> = self
            .fails
            .iter()
            .map(|f| format!("{{\"case\":{},\"what\":{}}}", esc(&f.case), esc(&f.what)))
            .collect();
        let samples: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let bounds: Vec<String> = self.bounds.iter().map(|s| esc(s)).collect();
        format!(
            "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"fail_count\":{},\"wall_s\":{:.2},\"bounds\":[{}],\"samples\":[{}],\"fails\":[{}]}}",
            esc(&self.property),
            self.evaluations,
            self.distinct.len(),
            self.fail_count,
            self.start.elapsed().as_secs_f64(),
            bounds.join(","),
            samples.join(","),
            fails.join(",")
        )
    }

    pub fn finish(&self) {
        std::fs::write(&self.out, self.json()).unwrap();
    }
}

/// A case that runs longer than `limit` is a failure (non-termination).
pub fn watchdog(property: String, out: String, limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let c = CURRENT.lock().unwrap();
        if let Some(t) = c.since {
            if t.elapsed() > limit {
                let s = format!(
                    "{{\"property\":{},\"evaluations\":1,\"distinct_nontrivial\":1,\"fail_count\":1,\"wall_s\":0,\"bounds\":[],\"samples\":[],\"fails\":[{{\"case\":{},\"what\":\"does not terminate (stopped after {} s)\"}}]}}",
                    esc(&property),
                    esc(&c.desc),
                    limit.as_secs()
                );
                std::fs::write(&out, s).unwrap();
                std::process::exit(0);
            }
        }
    });
}

pub mod gen;
pub mod model;
pub mod naive;
pub mod syn;
pub mod xsd;
