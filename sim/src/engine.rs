//! Seeded search: generates schedules with faults, runs worlds, minimises and replays failures.
use crate::chain::Chain;
use crate::rng::{hash_str, mix, Rng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub property: String,
    pub msg: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub c: BTreeMap<String, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.c.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.c {
            *self.c.entry(k.clone()).or_insert(0) += v;
        }
    }
}

/// Context of one simulated run.
pub struct Cx {
    pub target: String,
    pub violations: Vec<Violation>,
    pub stats: Stats,
    pub states: BTreeSet<u64>,
    pub known: Vec<Known>,
    pub known_hits: BTreeSet<String>,
    pub verbose: bool,
    /// every failure counts for this property: the whole run is about it
    pub alias: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    /// every one of these texts must occur in the violation message
    pub contains: Vec<String>,
    pub what: String,
}

impl Cx {
    pub fn new(target: &str) -> Self {
        Cx {
            target: target.into(),
            violations: vec![],
            stats: Stats::default(),
            states: BTreeSet::new(),
            known: vec![],
            known_hits: BTreeSet::new(),
            verbose: false,
            alias: None,
        }
    }
    pub fn fail(&mut self, prop: &str, msg: String) {
        if let Some(k) = self
            .known
            .iter()
            .find(|k| k.property == prop && k.contains.iter().all(|c| msg.contains(c.as_str())))
        {
            self.known_hits.insert(k.what.clone());
            return;
        }
        let (prop, msg) = match &self.alias {
            Some(a) if a != prop => (a.clone(), format!("[{}] {}", prop, msg)),
            _ => (prop.to_string(), msg),
        };
        let prop = prop.as_str();
        if self.verbose {
            eprintln!("  !! {}: {}", prop, msg);
        }
        if self.violations.len() < 40 || prop == self.target {
            self.violations.push(Violation {
                property: prop.into(),
                msg,
            });
        }
    }
    pub fn check(&mut self, ok: bool, prop: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(prop, msg());
        }
        ok
    }
    /// a listing is wrong: the property it belongs to, and that of listings
    pub fn list(&mut self, ok: bool, prop: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            let m = msg();
            self.fail("C33", m.clone());
            self.fail(prop, m);
        }
        ok
    }
    pub fn hit(&mut self, k: &str) {
        self.stats.add(k, 1);
    }
    pub fn reach(&mut self, k: &str) {
        self.stats.add(&format!("reach/{}", k), 1);
    }
    pub fn op(&mut self, k: &str, ok: bool) {
        self.stats
            .add(&format!("op/{}/{}", k, if ok { "ok" } else { "refused" }), 1);
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn targeted(&self) -> Option<&Violation> {
        self.violations.iter().find(|v| v.property == self.target)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Step<O> {
    /// a transaction (or a group of them) by some party; gas: abort at the n-th contract call
    Tx {
        op: O,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        gas: Option<u32>,
    },
    /// the chain produces blocks and the clock moves
    Time { blocks: u64, secs: u64 },
    /// all processes restart from durable storage
    Restart,
}

pub trait World: Sized {
    const NAME: &'static str;
    type Cfg: Serialize + DeserializeOwned + Clone + Debug + Sync;
    type Op: Serialize + DeserializeOwned + Clone + Debug + Sync;
    fn gen_cfg(rng: &mut Rng, target: &str) -> Self::Cfg;
    fn new(cfg: &Self::Cfg, cx: &mut Cx) -> Self;
    fn chain(&mut self) -> &mut Chain;
    fn gen_op(&mut self, rng: &mut Rng) -> Self::Op;
    fn step(&mut self, op: &Self::Op, cx: &mut Cx);
    /// after the clock moved or a restart
    fn tick(&mut self, cx: &mut Cx);
    /// end of run: faults have stopped; liveness and history checks
    fn finish(&mut self, cx: &mut Cx);
    /// typical time steps in seconds that matter to this world
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 100, 1000, 10_000]
    }
    fn max_steps() -> u64 {
        70
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay<C, O> {
    pub property: String,
    pub world: String,
    pub seed: u64,
    pub run: u64,
    pub violation: String,
    pub cfg: C,
    pub steps: Vec<Step<O>>,
}

#[derive(Clone, Debug, Default)]
pub struct FaultPlan {
    gas: u64,
    dup: u64,
    delay: u64,
    drop: u64,
    restart: u64,
    jump: u64,
    time: u64,
    halt: u64,
}

impl FaultPlan {
    fn gen(rng: &mut Rng) -> Self {
        let mut p = FaultPlan {
            time: rng.range(150, 500),
            ..Default::default()
        };
        if rng.chance(25) {
            return p; // fault free
        }
        let sw = |rng: &mut Rng, hi: u64| if rng.chance(50) { rng.range(5, hi) } else { 0 };
        p.gas = sw(rng, 80);
        p.dup = sw(rng, 120);
        p.delay = sw(rng, 150);
        p.drop = sw(rng, 60);
        p.restart = sw(rng, 25);
        p.jump = sw(rng, 40);
        p.halt = sw(rng, 40);
        p
    }
    fn faulty(&self) -> bool {
        self.gas + self.dup + self.delay + self.drop + self.restart + self.jump + self.halt > 0
    }
}

pub struct RunOut {
    pub violation: Option<(Violation, serde_json::Value)>,
    pub stats: Stats,
    pub states: BTreeSet<u64>,
    pub trace: u64,
    pub shape: u64,
    pub txs_ok: u64,
    pub sim_secs: u64,
    pub known_hits: BTreeSet<String>,
    pub sample: Option<serde_json::Value>,
}

fn apply<W: World>(w: &mut W, s: &Step<W::Op>, cx: &mut Cx) {
    match s {
        Step::Tx { op, gas } => {
            w.chain().armed = *gas;
            w.step(op, cx);
            w.chain().armed = None;
        }
        Step::Time { blocks, secs } => {
            w.chain().advance(*blocks, *secs);
            w.tick(cx);
        }
        Step::Restart => {
            w.chain().restart();
            w.tick(cx);
        }
    }
}

fn guard<T>(cx: &mut Cx, what: &str, f: impl FnOnce(&mut Cx) -> T) -> Option<T> {
    let mut inner = std::mem::replace(cx, Cx::new(""));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let v = f(&mut inner);
        v
    }));
    let out = match r {
        Ok(v) => Some(v),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let t = inner.target.clone();
            inner.fail(&t, format!("{}: {}", what, m));
            None
        }
    };
    *cx = inner;
    out
}

fn load_known() -> Vec<Known> {
    std::fs::read_to_string("/verif/known_findings.json")
        .ok()
        .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
        .and_then(|v| v.get("known").cloned())
        .and_then(|v| serde_json::from_value(v).ok())
        .unwrap_or_default()
}

/// Every execution gets a thread of its own, so that the randomness seam below (keys of hash
/// tables, which decide the order of stored maps) starts from the same point each time.
fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| s.spawn(f).join().expect("simulation thread"))
}
/// Stands in for the operating system's randomness.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11) }
    }
    len as isize
}

pub fn run_one<W: World>(target: &str, seed: u64, run: u64, known: &[Known], verbose: bool) -> RunOut {
    fresh(|| run_one_in::<W>(target, seed, run, known, verbose))
}
fn run_one_in<W: World>(target: &str, seed: u64, run: u64, known: &[Known], verbose: bool) -> RunOut {
    let mut rng = Rng::new(mix(&[seed, hash_str(W::NAME), hash_str(target), run]));
    let cfg = W::gen_cfg(&mut rng, target);
    let plan = FaultPlan::gen(&mut rng);
    let mut cx = Cx::new(target);
    cx.known = known.to_vec();
    cx.verbose = verbose;
    let mut steps: Vec<Step<W::Op>> = vec![];
    let mut shape = 0u64;
    let world = guard(&mut cx, "setup", |cx| W::new(&cfg, cx));
    let mut out = RunOut {
        violation: None,
        stats: Stats::default(),
        states: BTreeSet::new(),
        trace: 0,
        shape: 0,
        txs_ok: 0,
        sim_secs: 0,
        known_hits: BTreeSet::new(),
        sample: None,
    };
    if let Some(mut w) = world {
        let n = rng.range(W::max_steps() / 4, W::max_steps());
        let mut mempool: VecDeque<(u64, W::Op)> = VecDeque::new();
        let mut recent: Vec<W::Op> = vec![];
        if plan.faulty() {
            cx.hit("runs/faulty");
        } else {
            cx.hit("runs/fault_free");
        }
        for i in 0..n {
            let step = if rng.permille(plan.restart) {
                cx.hit("fault/restart");
                Step::Restart
            } else if rng.permille(plan.jump) {
                cx.hit("fault/clock_jump");
                Step::Time {
                    blocks: 1,
                    secs: rng.range(100_000, 3_000_000),
                }
            } else if rng.permille(plan.halt) {
                // slow chain: many blocks in no time, or a halt: time without blocks
                cx.hit("fault/slow_or_fast_blocks");
                if rng.chance(50) {
                    Step::Time {
                        blocks: rng.range(50, 2000),
                        secs: rng.range(0, 10),
                    }
                } else {
                    Step::Time {
                        blocks: 1,
                        secs: rng.range(500, 50_000),
                    }
                }
            } else if rng.permille(plan.time) {
                let sc = w.time_scale();
                let s = *rng.pick(&sc);
                let secs = if rng.chance(50) { s } else { rng.range(0, s.max(1)) };
                let blocks = 1 + if rng.chance(50) { secs / 6 } else { rng.below(secs / 3 + 2) };
                Step::Time { blocks, secs }
            } else {
                let due = mempool.iter().position(|(t, _)| *t <= i);
                let op = if let Some(p) = due {
                    mempool.remove(p).unwrap().1
                } else {
                    let mut sub = Rng::new(rng.next());
                    let g = guard(&mut cx, "generator", |_| w.gen_op(&mut sub));
                    match g {
                        Some(g) => g,
                        None => break,
                    }
                };
                if due.is_none() && rng.permille(plan.drop) {
                    cx.hit("fault/tx_dropped");
                    continue;
                }
                if due.is_none() && rng.permille(plan.delay) {
                    cx.hit("fault/tx_delayed_reordered");
                    mempool.push_back((i + rng.range(1, 12), op));
                    continue;
                }
                if rng.permille(plan.dup) {
                    cx.hit("fault/tx_duplicated");
                    let o = if !recent.is_empty() && rng.chance(40) {
                        rng.pick(&recent).clone()
                    } else {
                        op.clone()
                    };
                    mempool.push_back((i + rng.range(1, 8), o));
                }
                recent.push(op.clone());
                let gas = if rng.permille(plan.gas) {
                    cx.hit("fault/gas_abort_armed");
                    Some(rng.range(1, 8) as u32)
                } else {
                    None
                };
                Step::Tx { op, gas }
            };
            if cx.verbose {
                eprintln!("[{}] {}", i, serde_json::to_string(&step).unwrap_or_default());
            }
            steps.push(step.clone());
            let nv = cx.violations.len();
            let r = guard(&mut cx, "the system stopped answering", |cx| apply(&mut w, &step, cx));
            shape = mix(&[shape, w.chain().trace]);
            if r.is_none() || cx.targeted().is_some() {
                break;
            }
            if cx.violations.len() > nv {
                // an oracle of another property: this check only reports its own, and goes on
                cx.hit("other_property_alarm");
            }
        }
        if cx.targeted().is_none() {
            guard(&mut cx, "end of run", |cx| w.finish(cx));
        }
        let c = w.chain();
        out.trace = mix(&[c.trace, c.storage_hash(), c.height()]);
        out.txs_ok = c.tx_ok;
        out.sim_secs = c.now() - c.start.time.seconds();
        let (txs, ok, ent, ab, rs) = (c.txs, c.tx_ok, c.entries, c.aborts, c.restarts);
        cx.stats.add("txs", txs);
        cx.stats.add("txs_ok", ok);
        cx.stats.add("contract_calls", ent);
        cx.stats.add("fault/gas_abort_fired", ab);
        cx.stats.add("restarts", rs);
        out.shape = shape;
    }
    if let Some(v) = cx.targeted() {
        let rep = Replay {
            property: target.to_string(),
            world: W::NAME.to_string(),
            seed,
            run,
            violation: v.msg.clone(),
            cfg: cfg.clone(),
            steps: steps.clone(),
        };
        out.violation = Some((v.clone(), serde_json::to_value(&rep).unwrap()));
    }
    out.sample = Some(serde_json::json!({"world": W::NAME, "run": run, "cfg": cfg, "steps": steps.len(),
        "first_steps": steps.iter().take(6).collect::<Vec<_>>() }));
    out.stats = cx.stats;
    out.states = cx.states;
    out.known_hits = cx.known_hits;
    out
}

/// Executes an explicit schedule; returns the first violation of the target property.
pub fn run_steps<W: World>(target: &str, cfg: &W::Cfg, steps: &[Step<W::Op>], verbose: bool) -> (Option<Violation>, u64, usize) {
    fresh(|| run_steps_in::<W>(target, cfg, steps, verbose))
}
fn run_steps_in<W: World>(target: &str, cfg: &W::Cfg, steps: &[Step<W::Op>], verbose: bool) -> (Option<Violation>, u64, usize) {
    let mut cx = Cx::new(target);
    cx.known = load_known();
    cx.verbose = verbose;
    let w = guard(&mut cx, "setup", |cx| W::new(cfg, cx));
    let mut trace = 0;
    let mut used = steps.len();
    if let Some(mut w) = w {
        for (i, s) in steps.iter().enumerate() {
            if verbose {
                let b = w.chain().block();
                eprintln!("[{}] h={} t={} {}", i, b.height, b.time.seconds(), serde_json::to_string(s).unwrap());
            }
            let r = guard(&mut cx, "the system stopped answering", |cx| apply(&mut w, s, cx));
            if r.is_none() || cx.targeted().is_some() {
                used = i + 1;
                break;
            }
        }
        if cx.targeted().is_none() {
            guard(&mut cx, "end of run", |cx| w.finish(cx));
        }
        trace = mix(&[w.chain().trace, w.chain().storage_hash()]);
    }
    (cx.targeted().cloned(), trace, used)
}

/// Property of the message that must stay while minimising: the text up to the first digit-bearing
/// detail, so that a schedule is not "minimised" into a different failure.
fn kind(m: &str) -> String {
    m.split(|c: char| c == ':' || c == '=').next().unwrap_or("").to_string()
}

pub fn minimise<W: World>(target: &str, rep: Replay<W::Cfg, W::Op>, budget: Duration) -> Replay<W::Cfg, W::Op> {
    let t0 = Instant::now();
    let want = kind(&rep.violation);
    let mut best = rep.clone();
    let still = |steps: &[Step<W::Op>]| -> Option<(Violation, usize)> {
        let (v, _, used) = run_steps::<W>(target, &rep.cfg, steps, false);
        v.filter(|v| kind(&v.msg) == want).map(|v| (v, used))
    };
    match still(&best.steps) {
        Some((v, used)) => {
            best.steps.truncate(used);
            best.violation = v.msg;
        }
        None => return rep,
    }
    // drop fault annotations first, then chunks, then single steps
    let mut i = 0;
    while i < best.steps.len() && t0.elapsed() < budget {
        if let Step::Tx { gas: Some(_), op } = &best.steps[i] {
            let mut s = best.steps.clone();
            s[i] = Step::Tx {
                op: op.clone(),
                gas: None,
            };
            if let Some((v, used)) = still(&s) {
                s.truncate(used);
                best.steps = s;
                best.violation = v.msg;
            }
        }
        i += 1;
    }
    let mut size = (best.steps.len() / 2).max(1);
    loop {
        let mut changed = false;
        let mut at = 0;
        while at < best.steps.len() && t0.elapsed() < budget {
            let end = (at + size).min(best.steps.len());
            let mut s = best.steps.clone();
            s.drain(at..end);
            if let Some((v, used)) = still(&s) {
                s.truncate(used);
                best.steps = s;
                best.violation = v.msg;
                changed = true;
            } else {
                at += size;
            }
        }
        if t0.elapsed() >= budget {
            break;
        }
        if size > 1 {
            size /= 2;
        } else if !changed {
            break;
        }
    }
    best
}

pub type RunFn = fn(&str, u64, u64, &[Known], bool) -> RunOut;
pub type FinFn = fn(&str, serde_json::Value, Duration) -> (serde_json::Value, Option<Violation>);
pub type RepFn = fn(serde_json::Value, bool) -> Option<Violation>;

#[derive(Clone, Copy)]
pub struct WorldEntry {
    pub name: &'static str,
    pub run: RunFn,
    pub finalize: FinFn,
    pub replay: RepFn,
}

fn finalize<W: World>(target: &str, v: serde_json::Value, budget: Duration) -> (serde_json::Value, Option<Violation>) {
    let rep: Replay<W::Cfg, W::Op> = serde_json::from_value(v).unwrap();
    let m = minimise::<W>(target, rep, budget);
    // through the file format, twice: must reproduce exactly
    let j = serde_json::to_value(&m).unwrap();
    let m2: Replay<W::Cfg, W::Op> = serde_json::from_value(j.clone()).unwrap();
    let (a, ta, _) = run_steps::<W>(target, &m2.cfg, &m2.steps, false);
    let (b, tb, _) = run_steps::<W>(target, &m2.cfg, &m2.steps, false);
    if a.is_some() && a == b && ta == tb {
        (j, a)
    } else {
        (j, None)
    }
}

fn replay<W: World>(v: serde_json::Value, verbose: bool) -> Option<Violation> {
    let rep: Replay<W::Cfg, W::Op> = serde_json::from_value(v).unwrap();
    run_steps::<W>(&rep.property, &rep.cfg, &rep.steps, verbose).0
}

pub const fn entry<W: World>() -> WorldEntry {
    WorldEntry {
        name: W::NAME,
        run: run_one::<W>,
        finalize: finalize::<W>,
        replay: replay::<W>,
    }
}

pub struct Plan {
    pub property: &'static str,
    /// (world, quick runs)
    pub worlds: Vec<(WorldEntry, u64)>,
}

pub fn check(plan: &Plan, seed: u64, tier: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let env_u = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let cap = Duration::from_secs(env_u("SIM_CAP_SECS").unwrap_or(if thorough { 3000 } else { 240 }));
    let mult = env_u("SIM_MULT").unwrap_or(if thorough { 100 } else { 1 });
    let known = load_known();
    let mut jobs: Vec<(usize, u64)> = vec![];
    let most = plan.worlds.iter().map(|w| w.1 * mult).max().unwrap_or(0);
    for i in 0..most {
        for (wi, (_, n)) in plan.worlds.iter().enumerate() {
            // spread the worlds evenly over the job list
            let total = n * mult;
            if i * total / most != (i + 1) * total / most {
                jobs.push((wi, i * total / most));
            }
        }
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let next = AtomicUsize::new(0);
    let best: Mutex<Option<(usize, Violation, serde_json::Value)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    struct Agg {
        stats: Stats,
        states: BTreeSet<u64>,
        shapes: BTreeSet<u64>,
        runs: u64,
        nontrivial: BTreeSet<u64>,
        sim_secs: u64,
        known: BTreeSet<String>,
        samples: Vec<serde_json::Value>,
        per_world: BTreeMap<String, u64>,
        det_ok: u64,
        det_bad: Vec<String>,
        states_capped: bool,
    }
    let agg = Mutex::new(Agg {
        stats: Stats::default(),
        states: BTreeSet::new(),
        shapes: BTreeSet::new(),
        runs: 0,
        nontrivial: BTreeSet::new(),
        sim_secs: 0,
        known: BTreeSet::new(),
        samples: vec![],
        per_world: BTreeMap::new(),
        det_ok: 0,
        det_bad: vec![],
        states_capped: false,
    });
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let j = next.fetch_add(1, Ordering::SeqCst);
                if j >= jobs.len() || stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                    break;
                }
                if let Some((b, _, _)) = &*best.lock().unwrap() {
                    if *b < j {
                        break;
                    }
                }
                let (wi, run) = jobs[j];
                let w = plan.worlds[wi].0;
                let o = (w.run)(plan.property, seed, run, &known, false);
                // determinism self-test: the same seed again must give the same execution
                let mut det = None;
                if run % 97 == 0 {
                    let o2 = (w.run)(plan.property, seed, run, &known, false);
                    det = Some(o2.trace == o.trace && o2.shape == o.shape);
                }
                let mut a = agg.lock().unwrap();
                match det {
                    Some(true) => a.det_ok += 1,
                    Some(false) => a.det_bad.push(format!("{} run {}", w.name, run)),
                    None => {}
                }
                a.runs += 1;
                *a.per_world.entry(w.name.to_string()).or_insert(0) += 1;
                a.stats.merge(&o.stats);
                if a.states.len() < 2_000_000 {
                    a.states.extend(o.states.iter());
                } else {
                    a.states_capped = true;
                }
                a.shapes.insert(o.shape);
                if o.txs_ok >= 8 {
                    a.nontrivial.insert(o.shape);
                }
                a.sim_secs += o.sim_secs;
                a.known.extend(o.known_hits.iter().cloned());
                if a.samples.len() < 3 {
                    a.samples.extend(o.sample.clone());
                }
                drop(a);
                if let Some((v, rep)) = o.violation {
                    let mut b = best.lock().unwrap();
                    if b.as_ref().map_or(true, |(i, _, _)| j < *i) {
                        *b = Some((j, v, rep));
                    }
                }
            });
        }
    });
    let a = agg.into_inner().unwrap();
    let found = best.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut rc = 0;
    let mut lines = vec![];
    if let Some((j, v, rep)) = found {
        violations = 1;
        let w = plan.worlds[jobs[j].0].0;
        let (m, repro) = (w.finalize)(plan.property, rep, Duration::from_secs(60));
        let dir = std::env::var("SIM_REPLAYS").unwrap_or("/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-seed{}.json", dir, plan.property, w.name, seed);
        std::fs::write(&path, serde_json::to_string_pretty(&m).unwrap()).expect("write replay");
        rc = 1;
        match repro {
            Some(v2) => {
                println!("{}: {}", plan.property, v2.msg);
                println!("minimised to {} steps; replay: bash /verif/tools/replay.sh {}", m["steps"].as_array().map_or(0, |s| s.len()), path);
            }
            None => println!("{}: {} (full schedule kept: the reduced one did not reproduce)", plan.property, v.msg),
        }
        lines.push(format!("VIOLATION property={} replay={}", plan.property, path));
    }
    if !a.det_bad.is_empty() && rc == 0 {
        println!("determinism self-test failed: {:?}", a.det_bad);
        rc = 3;
    }
    let faults: BTreeMap<_, _> = a.stats.c.iter().filter(|(k, _)| k.starts_with("fault/")).collect();
    let ops: BTreeMap<_, _> = a.stats.c.iter().filter(|(k, _)| k.starts_with("op/")).collect();
    let reach: BTreeMap<_, _> = a.stats.c.iter().filter(|(k, _)| k.starts_with("reach/")).collect();
    let other: BTreeMap<_, _> = a
        .stats
        .c
        .iter()
        .filter(|(k, _)| !k.starts_with("fault/") && !k.starts_with("op/") && !k.starts_with("reach/"))
        .collect();
    let about: Vec<_> = plan.worlds.iter().map(|w| crate::plans::about(w.0.name)).collect();
    let join = |f: fn(&(&'static str, &'static str, &'static str)) -> &'static str| about.iter().map(f).collect::<Vec<_>>().join("; ");
    let ev = serde_json::json!({
        "property": plan.property, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": format!("{} One evaluation is one simulated run: configuration, schedule and faults drawn from one seed. Distinct: by the hash of the sequence of all transaction outcomes and events of the run; non-trivial: at least 8 transactions succeeded.", join(|a| a.0)),
            "samples": a.samples,
            "runs_per_world": a.per_world,
            "runs_per_hour": (a.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (a.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": a.sim_secs,
            "distinct_interleavings": a.shapes.len(),
            "distinct_abstract_states": a.states.len(),
            "state_measure": "hash of the world's abstract state (statuses, balances bucketed, phase) after each step",
            "states_capped": a.states_capped,
            "faults_injected": faults,
            "operations": ops,
            "reach_probes": reach,
            "counters": other,
            "determinism_selftest_runs_equal": a.det_ok,
            "known_findings_seen": a.known,
            "real_code": join(|a| a.1),
            "stubs": format!("the chain itself (cw-multi-test: wasm, bank, block clock); {}", join(|a| a.2)),
            "wall_capped": t0.elapsed() > cap && (a.runs as usize) < jobs.len(),
        },
        "assumptions": [
            "transactions of a block execute one after another, atomically, as in the Cosmos SDK; cw-multi-test plays the wasm, bank, staking and distribution modules",
            "contracts run as native Rust, not as wasm bytecode; gas is modelled as an abort at the n-th contract call"
        ]
    });
    let dir = std::env::var("SIM_EVIDENCE").unwrap_or("/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, plan.property), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    for k in &known {
        if k.property == plan.property {
            println!("KNOWN-FINDING: property={} {}{}", k.property, k.what, if a.known.contains(&k.what) { "" } else { " (not met in this run)" });
        }
    }
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} txs, {:.1} simulated days, {:.1}s",
        plan.property, tier, a.runs, a.nontrivial.len(),
        a.stats.c.get("txs").unwrap_or(&0), a.sim_secs as f64 / 86400.0, wall
    );
    for l in lines {
        println!("{}", l);
    }
    rc
}

/// u128 amounts as strings, so that schedules survive the file format
pub mod amt {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u128, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
/// lists of amounts as strings
pub mod amts {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &[u128], s: S) -> Result<S::Ok, S::Error> {
        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u128>, D::Error> {
        Vec::<String>::deserialize(d)?.iter().map(|x| x.parse().map_err(serde::de::Error::custom)).collect()
    }
}
