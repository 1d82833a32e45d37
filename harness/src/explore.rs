//! Running many cases on many threads, with a watchdog, keeping what TLC is to see.

use std::{collections::{BTreeMap, HashMap}, hash::{Hash, Hasher}, io::Write, path::PathBuf, sync::{atomic::{AtomicUsize, Ordering}, Arc, Mutex}, time::{Duration, Instant}};

use serde_json::{json, Value};

use crate::{geom::Input, lists::*, oracle, record::*, rng::Rng};

pub type Orders = Option<Vec<Vec<usize>>>;

#[derive(Clone)]
pub struct Case {
    pub family: &'static str,
    pub input: Arc<Input>,
    /// None: the library's own random order
    pub orders: Orders,
    pub mode: Mode,
    pub fault: Option<usize>,
    pub reject: Res,
}

impl Case {
    pub fn to_json(&self) -> Value {
        json!({
            "family": self.family,
            "pts": self.input.pts,
            "rings": self.input.rings,
            "place": self.input.place.text(),
            "orders": self.orders,
            "mode": self.mode.text(),
            "fault": self.fault,
        })
    }
}

pub struct Trace {
    pub case: Case,
    pub events: Vec<Event>,
    pub suspicious: bool,
    /// Executions which produced exactly this trace
    pub count: usize,
    pub key: (u64, u64),
}

pub fn events_json(events: &[Event]) -> Value {
    Value::Array(events.iter().map(|e| {
        let res = e.res.text();
        match e.op {
            Op::Initialize | Op::NewFan | Op::AddTriangle => json!({"e": e.op.text(), "v": e.v, "r": res}),
            Op::ExtendFan => json!({"e": e.op.text(), "v": [e.v[0]], "r": res}),
            _ => json!({"e": e.op.text(), "v": [], "r": res}),
        }
    }).collect())
}

pub fn one_based(rings: &[Vec<usize>]) -> Vec<Vec<usize>> {
    rings.iter().map(|r| r.iter().map(|i| i + 1).collect()).collect()
}

impl Trace {
    pub fn to_json(&self) -> Value {
        json!({
            "pts": self.case.input.pts,
            "rings": one_based(&self.case.input.rings),
            "general": self.case.input.place.jitter.is_some(),
            "winding": if self.case.mode.clockwise() { "cw" } else { "ccw" },
            "reject": if self.case.reject == Res::Ok { "none".to_string() } else { self.case.reject.text() },
            "ev": events_json(&self.events),
        })
    }
}

/// An execution recorded for another trace specification than Triangulation's
pub struct Raw {
    pub trace: Value,
    pub meta: Value,
    pub suspicious: bool,
    pub size: usize,
    pub key: (u64, u64),
}

/// Describes the running case, as (trace, meta) of a run that never returned
type Describe = Box<dyn Fn() -> (Value, Value) + Send>;

type Slot = Mutex<Option<(Instant, Describe)>>;

pub struct Ctx {
    pub seed: u64,
    pub out: PathBuf,
    pub deadline: Instant,
    pub threads: usize,
    slots: Vec<Slot>,
    pub traces: Mutex<Vec<Trace>>,
    pub raws: Mutex<Vec<Raw>>,
    pub counts: Mutex<BTreeMap<String, u64>>,
    pub journal: Option<PathBuf>,
    pub started: Instant,
}

pub const HANG_SECONDS: u64 = 20;
const MAX_SUSPICIOUS: usize = 300;

impl Ctx {
    pub fn new(seed: u64, out: PathBuf, seconds: u64) -> Arc<Self> {
        let threads = std::env::var("HARNESS_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        std::fs::create_dir_all(&out).unwrap();
        let ctx = Arc::new(Self {
            seed,
            out,
            deadline: Instant::now() + Duration::from_secs(seconds),
            threads,
            slots: (0..threads).map(|_| Mutex::new(None)).collect(),
            traces: Mutex::new(Vec::new()),
            raws: Mutex::new(Vec::new()),
            counts: Mutex::new(BTreeMap::new()),
            journal: std::env::var_os("HARNESS_JOURNAL").map(PathBuf::from),
            started: Instant::now(),
        });
        let c = ctx.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for slot in &c.slots {
                let hung = match &*slot.lock().unwrap() {
                    Some((since, describe)) if since.elapsed().as_secs() >= HANG_SECONDS => Some(describe()),
                    _ => None,
                };
                if let Some((mut trace, meta)) = hung {
                    c.count("hangs", 1);
                    trace["ev"].as_array_mut().unwrap().push(json!({"e": "ret", "v": [], "r": "hang"}));
                    c.raws.lock().unwrap().push(Raw { trace, meta, suspicious: true, size: 0, key: (0, 0) });
                    c.write();
                    std::process::exit(0);
                }
            }
        });
        ctx
    }

    pub fn count(&self, name: &str, by: u64) {
        *self.counts.lock().unwrap().entry(name.to_string()).or_default() += by;
    }

    /// Calls `f` for 0..n on all threads, until the deadline
    pub fn parallel(self: &Arc<Self>, name: &str, n: usize, f: impl Fn(usize, &mut Worker) + Sync) {
        let next = AtomicUsize::new(0);
        let late = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (next, late, f) = (&next, &late, &f);
                let ctx = self.clone();
                std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || {
                    let mut w = Worker { ctx: ctx.clone(), thread: t, counts: BTreeMap::new() };
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        if Instant::now() > ctx.deadline {
                            late.fetch_add(1, Ordering::Relaxed);
                            continue;
                        }
                        f(i, &mut w);
                    }
                    let mut counts = ctx.counts.lock().unwrap();
                    for (k, v) in w.counts {
                        *counts.entry(k).or_default() += v;
                    }
                }).unwrap();
            }
        });
        let late = late.into_inner();
        if late > 0 {
            self.count(&format!("skipped-at-deadline/{name}"), late as u64);
        }
    }

    pub fn write(&self) {
        let traces = self.traces.lock().unwrap();
        // Deterministic order; cap the suspicious ones, smallest first
        let mut raws = self.raws.lock().unwrap();
        for t in traces.iter() {
            let mut m = t.case.to_json();
            m["count"] = json!(t.count);
            raws.push(Raw { trace: t.to_json(), meta: m, suspicious: t.suspicious, size: t.case.input.n() + t.events.len(), key: t.key });
        }
        raws.sort_by_key(|t| (!t.suspicious, t.suspicious as usize * t.size, t.key));
        let mut suspicious = 0;
        raws.retain(|t| !t.suspicious || { suspicious += 1; suspicious <= MAX_SUSPICIOUS });
        let mut tf = std::io::BufWriter::new(std::fs::File::create(self.out.join("traces.ndjson")).unwrap());
        let mut mf = std::io::BufWriter::new(std::fs::File::create(self.out.join("meta.ndjson")).unwrap());
        for t in raws.iter_mut() {
            serde_json::to_writer(&mut tf, &t.trace).unwrap();
            tf.write_all(b"\n").unwrap();
            t.meta["suspicious"] = json!(t.suspicious);
            serde_json::to_writer(&mut mf, &t.meta).unwrap();
            mf.write_all(b"\n").unwrap();
        }
        tf.flush().unwrap();
        mf.flush().unwrap();
        let counts = self.counts.lock().unwrap();
        let stats = json!({"counts": *counts, "suspicious": suspicious, "traces": raws.len(), "seconds": self.started.elapsed().as_secs_f64()});
        std::fs::write(self.out.join("stats.json"), serde_json::to_string_pretty(&stats).unwrap()).unwrap();
    }
}

pub struct Worker {
    pub ctx: Arc<Ctx>,
    pub thread: usize,
    pub counts: BTreeMap<String, u64>,
}

pub fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn set_orders(orders: &Orders) {
    #[cfg(feature = "hooks")]
    triangulate::verif::set_orders(orders.clone().unwrap_or_default());
    #[cfg(not(feature = "hooks"))]
    let _ = orders;
}

impl Worker {
    pub fn tally(&mut self, name: &str, by: u64) {
        match self.counts.get_mut(name) {
            Some(c) => *c += by,
            None => {
                self.counts.insert(name.to_string(), by);
            }
        }
    }

    /// Announces the case to the watchdog (and the journal), and chooses the insertion order
    pub fn begin(&self, case: &Case) {
        let c = case.clone();
        self.begin_raw(&case.orders, Box::new(move || (Trace { case: c.clone(), events: Vec::new(), suspicious: true, count: 1, key: (0, 0) }.to_json(), c.to_json())));
    }

    /// The same for other kinds of cases
    pub fn begin_raw(&self, orders: &Orders, describe: Describe) {
        if let Some(dir) = &self.ctx.journal {
            let (trace, meta) = describe();
            let _ = std::fs::write(dir.join(format!("{}.json", self.thread)), json!({"trace": trace, "meta": meta}).to_string());
        }
        *self.ctx.slots[self.thread].lock().unwrap() = Some((Instant::now(), describe));
        set_orders(orders);
    }

    pub fn raw(&self, raw: Raw) {
        let mut raws = self.ctx.raws.lock().unwrap();
        if !raw.suspicious || raws.iter().filter(|t| t.suspicious).count() < 5000 {
            raws.push(raw);
        }
    }

    pub fn end(&self) {
        *self.ctx.slots[self.thread].lock().unwrap() = None;
    }

    /// Runs the core workload on one input: every order, and for each every mode.
    /// Of the distinct traces, `keep` go to TLC, and all suspicious ones.
    pub fn explore(&mut self, family: &'static str, index: u64, input: &Arc<Input>, orders: &mut dyn Iterator<Item = Orders>, modes: &[Mode], keep: usize) {
        let flat = Flat::f64(input);
        let id = flat_id(input.pts.len());
        let n = input.n();
        let mut seen: HashMap<u64, Trace> = HashMap::new();
        let mut serial = 0;
        let mut runs = 0u64;
        for o in orders {
            if Instant::now() > self.ctx.deadline {
                self.tally("truncated-at-deadline", 1);
                break;
            }
            let mut case = Case { family, input: input.clone(), orders: o, mode: modes[0], fault: None, reject: Res::Ok };
            let mut record = |case: &Case, events: Vec<Event>, seen: &mut HashMap<u64, Trace>| {
                runs += 1;
                let h = hash_of(&(case.mode.clockwise(), &events));
                seen.entry(h).and_modify(|t| t.count += 1).or_insert_with(|| {
                    serial += 1;
                    let suspicious = !oracle::broken(input, case.mode.clockwise(), Res::Ok, &events).is_empty();
                    Trace { case: case.clone(), events, suspicious, count: 1, key: (index, serial) }
                });
            };
            self.begin(&case);
            let t = std::panic::catch_unwind(|| triangulate::PolygonList::trapezoidize(&flat));
            match t {
                Err(_) => record(&case, vec![Event { op: Op::Return, v: [0; 3], res: Res::Panic }], &mut seen),
                Ok(Err(e)) => record(&case, vec![Event { op: Op::Return, v: [0; 3], res: classify_trapezoidation(&e) }], &mut seen),
                Ok(Ok(t)) => {
                    for &mode in modes {
                        case.mode = mode;
                        self.begin(&case);
                        let events = if mode.one_step { run_list(&flat, n, &id, mode, None) } else { run_trapezoidation(&t, n, &id, mode, None) };
                        record(&case, events, &mut seen);
                    }
                }
            }
            self.end();
        }
        self.tally(&format!("inputs/{family}"), 1);
        self.tally(&format!("runs/{family}"), runs);
        self.tally("runs", runs);
        self.tally("distinct-traces", seen.len() as u64);
        self.keep(seen.into_values().collect(), keep);
    }

    pub fn keep(&mut self, mut traces: Vec<Trace>, keep: usize) {
        traces.sort_by_key(|t| t.key);
        let mut kept = 0;
        let mut suspicious = 0;
        let mut out = Vec::new();
        for t in traces {
            if t.suspicious {
                suspicious += 1;
                if suspicious <= 20 {
                    out.push(t);
                }
            } else if kept < keep {
                kept += 1;
                out.push(t);
            }
        }
        self.tally("suspicious-traces", suspicious);
        if !out.is_empty() {
            let mut traces = self.ctx.traces.lock().unwrap();
            let many = traces.iter().filter(|t| t.suspicious).count() > 20_000;
            traces.extend(out.into_iter().filter(|t| !(many && t.suspicious)));
        }
    }
}

/// All permutations of 0..n in lexicographic order
pub struct Permutations(Option<Vec<usize>>);

impl Permutations {
    pub fn new(n: usize) -> Self {
        Self(Some((0..n).collect()))
    }
}

impl Iterator for Permutations {
    type Item = Vec<usize>;

    fn next(&mut self) -> Option<Vec<usize>> {
        let cur = self.0.clone()?;
        let mut v = cur.clone();
        let n = v.len();
        self.0 = (0..n.saturating_sub(1)).rev().find(|&i| v[i] < v[i + 1]).map(|i| {
            let j = (i + 1..n).rev().find(|&j| v[j] > v[i]).unwrap();
            v.swap(i, j);
            v[i + 1..].reverse();
            v
        });
        Some(cur)
    }
}

/// Insertion orders: all of them when there are at most `max`, else `max` random ones, then `native` runs with the library's own
pub fn orders<'a>(input: &'a Input, r: &'a mut Rng, max: usize, native: usize) -> Box<dyn Iterator<Item = Orders> + 'a> {
    let fact = |n: usize| (1..=n).try_fold(1usize, |a, b| a.checked_mul(b)).unwrap_or(usize::MAX);
    let total = input.rings.iter().map(|r| fact(r.len())).fold(1usize, |a, b| a.saturating_mul(b));
    let native = std::iter::repeat(None).take(native);
    if input.rings.len() == 1 && total <= max {
        Box::new(Permutations::new(input.rings[0].len()).map(|p| Some(vec![p])).chain(native))
    } else {
        let mut k = 0;
        Box::new(std::iter::from_fn(move || {
            k += 1;
            (k <= max).then(|| Some(input.rings.iter().map(|ring| structured_order(r, ring.len())).collect()))
        }).chain(native))
    }
}

/// Mostly uniform, sometimes structured (sorted, alternating, bit-reversed, one late segment)
fn structured_order(r: &mut Rng, n: usize) -> Vec<usize> {
    match r.below(12) {
        0 => { let s = r.below(n); (0..n).map(|i| (s + i) % n).collect() }
        1 => { let s = r.below(n); (0..n).rev().map(|i| (s + i) % n).collect() }
        2 => (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect(),
        3 => { let mut v = r.perm(n); let k = r.below(n); v.swap(k, n - 1); v }
        _ => r.perm(n),
    }
}
