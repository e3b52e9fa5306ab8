use std::collections::HashSet;

pub struct Violation {
    pub key: String,
    pub msg: String,
    pub replay: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub root: String,
    pub cases: usize,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub rule: String,
    pub violations: Vec<Violation>,
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn hash(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: &str, root: &str) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed,
            thorough: tier == "thorough",
            root: root.into(),
            cases: 0,
            distinct: HashSet::new(),
            samples: vec![],
            rule: String::new(),
            violations: vec![],
        }
    }
    pub fn case(&mut self, sample: &str) {
        self.cases += 1;
        if self.distinct.insert(hash(sample.as_bytes())) && self.samples.len() < 3 {
            self.samples.push(sample.chars().take(400).collect());
        }
    }
    pub fn bad(&mut self, key: &str, msg: impl Into<String>, replay: impl Into<String>) {
        let key = &key.replace(' ', "_")[..];
        if self.violations.iter().filter(|v| v.key == key).count() < 2 && self.violations.len() < 40 {
            self.violations.push(Violation { key: key.into(), msg: msg.into(), replay: replay.into() });
        }
    }
    /// Runs `f` for 0..n on several threads; results are merged.
    pub fn par(&mut self, n: usize, f: impl Fn(&mut Ctx, usize) + Sync) {
        let k = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 8);
        let (prop, seed, thorough, root, f) = (&self.prop, self.seed, self.thorough, &self.root, &f);
        let parts: Vec<Ctx> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..k)
                .map(|t| {
                    std::thread::Builder::new()
                        .stack_size(128 << 20)
                        .spawn_scoped(s, move || {
                            let mut c = Ctx::new(prop, seed, if thorough { "thorough" } else { "quick" }, root);
                            let mut i = t;
                            while i < n && !c.full() {
                                f(&mut c, i);
                                i += k;
                            }
                            c
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(c) => c,
                    Err(e) => panic!("worker: {}", panic_msg(&e)),
                })
                .collect()
        });
        for p in parts {
            self.cases += p.cases;
            self.distinct.extend(p.distinct);
            if self.samples.len() < 3 {
                self.samples.extend(p.samples);
                self.samples.truncate(3);
            }
            for v in p.violations {
                self.bad(&v.key, v.msg, v.replay);
            }
        }
    }
    pub fn full(&self) -> bool {
        self.violations.len() >= 30
    }
    pub fn write(&self, out: &str) {
        let v: Vec<_> = self
            .violations
            .iter()
            .map(|v| serde_json::json!({"key": v.key, "msg": v.msg, "replay": v.replay}))
            .collect();
        let j = serde_json::json!({
            "cases": self.cases, "distinct": self.distinct.len(), "samples": self.samples,
            "rule": self.rule, "violations": v,
        });
        std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).expect("write result");
    }
}
