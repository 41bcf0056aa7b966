//! Evidence, known findings, verdicts.
use crate::json::q;
use crate::util::*;
use std::collections::BTreeMap;
use std::fs;
use std::time::Instant;

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub evaluations: u64,
    pub distinct: std::collections::HashSet<u64>,
    /// distinct non-trivial cases counted elsewhere
    pub distinct_extra: u64,
    pub lib_samples: u64,
    pub samples: Vec<String>,
    pub classes: BTreeMap<String, u64>,
    pub violations: Vec<String>,
    pub known: Vec<String>,
    pub assumptions: Vec<String>,
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let tier = std::env::var("VERIF_TIER").unwrap_or_default();
        Ctx {
            prop: prop.into(),
            tier: if tier == "thorough" { tier } else { "quick".into() },
            seed,
            start: Instant::now(),
            evaluations: 0,
            distinct: Default::default(),
            distinct_extra: 0,
            lib_samples: 0,
            samples: vec![],
            classes: BTreeMap::new(),
            violations: vec![],
            known: vec![],
            assumptions: vec![],
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Work amount for the tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough() { thorough } else { quick };
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64 * f) as usize).max(1),
            None => n,
        }
    }
    pub fn class(&mut self, k: &str, n: u64) {
        *self.classes.entry(k.to_string()).or_insert(0) += n;
    }
    /// Counts a case; it is non-trivial if `nt`.
    pub fn case(&mut self, text: &str, nt: bool) {
        self.evaluations += 1;
        if nt {
            self.distinct.insert(vrt::choice::hash_str(text));
        }
    }
    pub fn sample(&mut self, s: &str) {
        if self.samples.len() < 5 {
            let mut s = s.to_string();
            if s.len() > 3000 {
                let mut k = 3000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, name: &str, replay: &str) {
        let dir = verif().join("replays").join(&self.prop);
        let _ = fs::create_dir_all(&dir);
        let p = dir.join(name);
        fs::write(&p, replay).unwrap_or_else(|e| die(&format!("cannot write replay: {e}")));
        println!("VIOLATION property={} replay={}", self.prop, p.display());
        self.violations.push(p.display().to_string());
    }
    /// A specific failure: reported as known if `key` is in the committed list.
    pub fn finding(&mut self, key: &str, what: &str, replay: &str) {
        let list = fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
        let head = format!("known: property={} key={key} ", self.prop);
        if list.lines().any(|l| format!("{l} ").starts_with(&head)) {
            println!("KNOWN-FINDING: property={} {key}: {what}", self.prop);
            self.known.push(format!("{key}: {what}"));
        } else {
            println!("---- {}: {what}", self.prop);
            self.violation(&format!("{key}.txt"), replay);
        }
    }
    pub fn finish(&mut self, rule: &str) -> ! {
        clean_scratch();
        let dir = verif().join("evidence");
        let _ = fs::create_dir_all(&dir);
        let list = |v: &[String]| v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ");
        let classes =
            self.classes.iter().map(|(k, v)| format!("{}: {v}", q(k))).collect::<Vec<_>>().join(", ");
        let wall = self.start.elapsed().as_secs_f64();
        let text = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"classes\": {{{classes}}},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"known_findings_hit\": [{}],\n  \"violations\": {},\n  \"wall_s\": {wall:.2}\n}}\n",
            q(&self.prop),
            q(&self.tier),
            self.seed,
            self.evaluations,
            self.distinct.len() as u64 + self.distinct_extra,
            q(rule),
            list(&self.samples),
            list(&self.assumptions),
            list(&self.known),
            self.violations.len(),
        );
        fs::write(dir.join(format!("{}.json", self.prop)), text)
            .unwrap_or_else(|e| die(&format!("cannot write evidence: {e}")));
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violation(s), {wall:.1} s",
            self.prop,
            self.evaluations,
            self.distinct.len() as u64 + self.distinct_extra,
            self.violations.len()
        );
        if std::env::var("VERIF_DEBUG").is_ok() {
            println!("{:#?}", self.classes);
        }
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
    }
}
