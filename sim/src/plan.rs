// A plan is everything that determines one simulated execution. Its text form is the replay file.
use std::collections::BTreeMap;
use crate::ffi::{self, Decision, SimConfig, KIND_NAMES, NKINDS};

#[derive(Clone)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub params: BTreeMap<String, String>,
    pub ops: Vec<String>,
    pub decisions: Option<Vec<Decision>>,
    pub cfg: SimConfig,
    pub class: String,
    pub note: String,
}
unsafe impl Send for Plan {}
unsafe impl Sync for Plan {}

pub fn default_cfg() -> SimConfig {
    SimConfig {
        seed: 0, replay: 0, table: std::ptr::null(), ntable: 0, sched_prob: 16384, policy: 0, preempt_mean: 0,
        max_ticks: 400_000_000, max_points: 3_000_000, prob: [0; NKINDS], max: [0; NKINDS],
        inotify_queue: 0, ns_per_tick: 2, trace: 0, disk_bytes: 0,
    }
}
impl Plan {
    pub fn new(property: &str, seed: u64) -> Plan {
        let mut cfg = default_cfg();
        cfg.seed = seed;
        Plan { property: property.to_string(), seed, params: BTreeMap::new(), ops: Vec::new(), decisions: None, cfg, class: String::new(), note: String::new() }
    }
    pub fn set<T: std::fmt::Display>(&mut self, k: &str, v: T) { self.params.insert(k.to_string(), v.to_string()); }
    pub fn get(&self, k: &str) -> &str { self.params.get(k).map(|s| s.as_str()).unwrap_or("") }
    pub fn num(&self, k: &str) -> u64 { self.get(k).parse().unwrap_or(0) }
    pub fn flag(&self, k: &str) -> bool { self.num(k) != 0 }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s += "fallsim-replay 1\n";
        s += &format!("property {}\nseed {}\nclass {}\n", self.property, self.seed, self.class);
        for l in self.note.lines() { s += &format!("# {}\n", l); }
        let c = &self.cfg;
        s += &format!("cfg sched_prob {}\ncfg policy {}\ncfg preempt_mean {}\ncfg max_ticks {}\ncfg max_points {}\ncfg inotify_queue {}\ncfg ns_per_tick {}\ncfg disk_bytes {}\n",
            c.sched_prob, c.policy, c.preempt_mean, c.max_ticks, c.max_points, c.inotify_queue, c.ns_per_tick, c.disk_bytes);
        for k in 0..NKINDS { if c.prob[k] != 0 { s += &format!("prob {} {} {}\n", KIND_NAMES[k], c.prob[k], c.max[k]); } }
        for (k, v) in &self.params { s += &format!("param {} {}\n", k, esc(v)); }
        for o in &self.ops { s += &format!("op {}\n", esc(o)); }
        match &self.decisions {
            None => s += "mode seeded\n",
            Some(d) => { s += "mode trace\n"; for x in d { s += &format!("d {} {} {}\n", KIND_NAMES[x.kind as usize], x.idx, x.val); } }
        }
        s
    }
    pub fn from_text(t: &str) -> Result<Plan, String> {
        let mut p = Plan::new("", 0);
        let mut lines = t.lines();
        if lines.next() != Some("fallsim-replay 1") { return Err("not a replay file".into()); }
        let kind = |n: &str| KIND_NAMES.iter().position(|k| *k == n).ok_or(format!("kind {}", n));
        for l in lines {
            let mut it = l.splitn(2, ' ');
            let (k, r) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
            let w: Vec<&str> = r.split(' ').collect();
            let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
            match k {
                "property" => p.property = r.into(),
                "seed" => { p.seed = n(0); p.cfg.seed = p.seed }
                "class" => p.class = r.into(),
                "#" => { p.note += r; p.note += "\n" }
                "cfg" => match w[0] {
                    "sched_prob" => p.cfg.sched_prob = n(1) as u32, "policy" => p.cfg.policy = n(1) as u32, "preempt_mean" => p.cfg.preempt_mean = n(1),
                    "max_ticks" => p.cfg.max_ticks = n(1), "max_points" => p.cfg.max_points = n(1), "inotify_queue" => p.cfg.inotify_queue = n(1) as u32,
                    "ns_per_tick" => p.cfg.ns_per_tick = n(1) as u32, "disk_bytes" => p.cfg.disk_bytes = n(1), _ => {}
                },
                "prob" => { let i = kind(w[0])?; p.cfg.prob[i] = n(1) as u32; p.cfg.max[i] = n(2) as u32; }
                "param" => { let mut i = r.splitn(2, ' '); p.params.insert(i.next().unwrap_or("").into(), unesc(i.next().unwrap_or(""))); }
                "op" => p.ops.push(unesc(r)),
                "mode" => if r == "trace" { p.decisions = Some(Vec::new()) },
                "d" => { let i = kind(w[0])?; if let Some(d) = &mut p.decisions { d.push(Decision { kind: i as u32, pad: 0, idx: n(1), val: n(2) as u32, pad2: 0 }) } }
                _ => {}
            }
        }
        Ok(p)
    }
}
pub fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t") }
pub fn unesc(s: &str) -> String {
    let mut o = String::new(); let mut it = s.chars();
    while let Some(ch) = it.next() { if ch == '\\' { match it.next() { Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'), Some(x) => o.push(x), None => {} } } else { o.push(ch) } }
    o
}
/// Swarm choices shared by all scenarios: scheduler policy and preemption density.
pub fn swarm_sched(r: &mut crate::rng::Rng, p: &mut Plan, preempt: &[u64]) {
    p.cfg.policy = *r.pick(&[0, 0, 0, 1, 1, 2]);
    p.cfg.sched_prob = *r.pick(&[65535, 32768, 16384, 4096, 1024]);
    p.cfg.preempt_mean = *r.pick(preempt);
    if r.chance(1, 4) { p.cfg.prob[ffi::SPURIOUS] = 4000; }
    if r.chance(1, 4) { p.cfg.prob[ffi::STALL] = *r.pick(&[50, 400, 2000]); p.cfg.max[ffi::STALL] = 40; }
    p.set("hash_seed", r.next() % 1000000);
}
