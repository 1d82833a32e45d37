//! Histories of runs over one trapezoidation.

use std::{cell::{Cell, RefCell}, panic::{catch_unwind, AssertUnwindSafe}, path::PathBuf, sync::{Arc, Condvar, Mutex}, time::Duration};

use serde_json::{json, Value};
use triangulate::{formats::*, FanFormat, ListFormat, PolygonList, Trapezoidation, TriangulationError};

use harness::{explore::*, gen, geom::*, lists::*, oracle, record::*, rng::Rng, Args};

fn main() {
    harness::main(&[("sessions", sessions)]);
}

/// A recorded run, and the runs which its builder makes while it is being called
#[derive(Clone, Debug)]
struct Node {
    mode: Mode,
    fault: Option<usize>,
    /// The call during which each is made
    within: Vec<(usize, Node)>,
}

impl Node {
    fn text(&self) -> String {
        let within: Vec<String> = self.within.iter().map(|(k, n)| format!("[in call {k}: {}]", n.text())).collect();
        format!("{} {}", Run::Recorded(self.mode, self.fault).text(), within.join(" "))
    }
}

#[derive(Clone, Debug)]
enum Run {
    /// A recording builder, which may refuse a call
    Recorded(Mode, Option<usize>),
    /// A predefined format, and reversed or not
    Format(usize, bool),
    /// A run and others inside it
    Nested(Node),
    /// Runs on threads of their own, which take turns at each builder call
    Woven(Vec<(Mode, Option<usize>)>, u64),
}

const FORMATS: usize = 4;
const OUTSIDE: usize = usize::MAX;

impl Run {
    fn text(&self) -> String {
        match self {
            Run::Recorded(m, f) => format!("{} {}", m.text(), f.map_or("".to_string(), |f| format!("fault {f}"))),
            Run::Format(k, r) => format!("format {k} {}", if *r { "reversed" } else { "" }),
            Run::Nested(n) => n.text(),
            Run::Woven(runs, seed) => format!("woven {seed}: {}", runs.iter().map(|(m, f)| Run::Recorded(*m, *f).text()).collect::<Vec<_>>().join(" | ")),
        }
    }
}

/// What is known of the triangle sequence (see Session.tla)
#[derive(Clone, Default)]
struct Known {
    tris: Vec<[u32; 3]>,
    complete: bool,
}

impl Known {
    fn agrees(&mut self, ts: &[[u32; 3]], whole: bool) -> bool {
        let ok = if whole && self.complete { ts == self.tris } else if whole { ts.starts_with(&self.tris) } else {
            self.tris.starts_with(ts) || (!self.complete && ts.starts_with(&self.tris))
        };
        if whole {
            *self = Known { tris: ts.to_vec(), complete: true };
        } else if ts.len() > self.tris.len() && !self.complete {
            self.tris = ts.to_vec();
        }
        ok
    }
}

fn delivered(events: &[Event]) -> Vec<[u32; 3]> {
    let mut out = Vec::new();
    let (mut root, mut last) = (0, 0);
    for e in events {
        let t = match e.op {
            Op::Initialize | Op::NewFan | Op::AddTriangle => e.v,
            Op::ExtendFan => [root, last, e.v[0]],
            _ => continue,
        };
        (root, last) = (t[0], t[2]);
        if e.res == Res::Ok {
            out.push(t);
        }
    }
    out
}

fn status<T>(r: std::thread::Result<Result<T, TriangulationError<impl std::error::Error>>>) -> (String, Option<T>) {
    match r {
        Err(_) => ("panic".into(), None),
        Ok(Ok(x)) => ("ok".into(), Some(x)),
        Ok(Err(_)) => ("error".into(), None),
    }
}

/// (kind, result, contents)
fn run_format(t: &Trapezoidation<'_, Flat<[f64; 2]>>, n: usize, k: usize, reverse: bool) -> (&'static str, String, Value) {
    let id = |i: &usize| if *i < n { *i as u32 + 1 } else if *i == OUTSIDE { n as u32 + 1 } else { 0 };
    macro_rules! go {
        ($f:expr) => {
            if reverse { status(catch_unwind(AssertUnwindSafe(|| t.triangulate($f.reverse_winding())))) } else { status(catch_unwind(AssertUnwindSafe(|| t.triangulate($f)))) }
        };
    }
    match k {
        0 => {
            let (r, o) = go!(IndexedListFormat::new(Vec::<usize>::new()).into_fan_format());
            ("flat", r, o.into_iter().flatten().map(|i| json!(id(&i))).collect())
        }
        1 => {
            let (r, o) = go!(IndexedListFormat::new(Vec::<[usize; 3]>::new()).into_fan_format());
            ("triples", r, o.into_iter().flatten().map(|t| json!([id(&t[0]), id(&t[1]), id(&t[2])])).collect())
        }
        2 => {
            let (r, o) = go!(IndexedFanFormat::new(Vec::<Vec<usize>>::new()));
            ("fans", r, o.into_iter().flatten().map(|f| f.iter().map(id).collect::<Value>()).collect())
        }
        _ => {
            let (r, o) = go!(DelimitedFanFormat::new(Vec::<usize>::new(), OUTSIDE));
            ("delim", r, o.into_iter().flatten().map(|i| json!(id(&i))).collect())
        }
    }
}

/// Events of several runs in the order in which they happened, each with its run
#[derive(Default)]
struct Timeline(Mutex<Vec<(usize, Moment)>>);

#[derive(Clone, Copy)]
enum Moment {
    Begin(Mode),
    Event(Event),
}

impl Timeline {
    fn push(&self, run: usize, m: Moment) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).push((run, m));
    }

    /// `switch` events say which run the events that follow belong to
    fn json(&self) -> Vec<Value> {
        let mut out = Vec::new();
        let mut at = usize::MAX;
        for (run, m) in self.0.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            if *run != at {
                at = *run;
                out.push(json!({"e": "switch", "v": [at], "r": ""}));
            }
            match m {
                Moment::Begin(mode) => out.push(json!({"e": "begin", "v": [], "r": if mode.clockwise() { "cw" } else { "ccw" }})),
                Moment::Event(e) => out.extend(events_json(&[*e]).as_array().unwrap().iter().cloned()),
            }
        }
        out
    }

    /// The runs, in the order in which they ended
    fn ended(&self) -> Vec<(Mode, Vec<Event>)> {
        let mut open: Vec<(usize, Mode, Vec<Event>)> = Vec::new();
        let mut out = Vec::new();
        for (run, m) in self.0.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            match m {
                Moment::Begin(mode) => open.push((*run, *mode, Vec::new())),
                Moment::Event(e) => {
                    let i = open.iter().position(|o| o.0 == *run).unwrap();
                    open[i].2.push(*e);
                    if e.op == Op::Return {
                        let (_, mode, events) = open.remove(i);
                        out.push((mode, events));
                    }
                }
            }
        }
        out
    }
}

struct Nest<'a, 'p> {
    t: &'a Trapezoidation<'p, Flat<[f64; 2]>>,
    n: usize,
    id: &'a dyn Fn(&usize) -> u32,
    line: &'a Timeline,
    next: &'a Cell<usize>,
    me: usize,
    within: RefCell<Vec<(usize, Node)>>,
}

impl Watch for Nest<'_, '_> {
    fn before(&self, call: usize) {
        loop {
            let Some(i) = self.within.borrow().iter().position(|w| w.0 == call) else { break };
            let (_, node) = self.within.borrow_mut().remove(i);
            nest(self.t, self.n, self.id, self.line, self.next, &node);
        }
    }

    fn event(&self, event: Event) {
        self.line.push(self.me, Moment::Event(event));
    }
}

fn nest<'p>(t: &Trapezoidation<'p, Flat<[f64; 2]>>, n: usize, id: &dyn Fn(&usize) -> u32, line: &Timeline, next: &Cell<usize>, node: &Node) {
    let me = next.get();
    next.set(me + 1);
    line.push(me, Moment::Begin(node.mode));
    run_watched(t, n, id, node.mode, node.fault, &Nest { t, n, id, line, next, me, within: RefCell::new(node.within.clone()) });
}

/// Only one thread runs at a time, and hands over at every builder call
struct Baton {
    turn: Mutex<(usize, Vec<bool>, Rng)>,
    passed: Condvar,
}

impl Baton {
    fn wait(&self, me: usize) {
        let turn = self.turn.lock().unwrap_or_else(|e| e.into_inner());
        // a run which waits for another one to end would keep the baton for ever: go on without it after a while
        let _ = self.passed.wait_timeout_while(turn, Duration::from_secs(2), |t| t.0 != me);
    }

    fn pass(&self, me: usize, done: bool) {
        let mut turn = self.turn.lock().unwrap_or_else(|e| e.into_inner());
        turn.1[me] |= done;
        let left: Vec<usize> = (0..turn.1.len()).filter(|i| !turn.1[*i]).collect();
        if !left.is_empty() {
            turn.0 = *turn.2.pick(&left);
        }
        self.passed.notify_all();
    }
}

struct Thread<'a> {
    baton: &'a Baton,
    line: &'a Timeline,
    me: usize,
}

impl Watch for Thread<'_> {
    fn before(&self, _: usize) {
        self.baton.pass(self.me, false);
        self.baton.wait(self.me);
    }

    fn event(&self, event: Event) {
        self.line.push(self.me, Moment::Event(event));
    }
}

/// The baton orders all accesses of the threads
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> { }
unsafe impl<T> Send for Shared<T> { }

fn weave<'p>(t: &Trapezoidation<'p, Flat<[f64; 2]>>, n: usize, count: usize, line: &Timeline, runs: &[(Mode, Option<usize>)], seed: u64) {
    let mut r = Rng::new(seed, 0x3A70);
    let first = r.below(runs.len());
    let baton = Baton { turn: Mutex::new((first, vec![false; runs.len()], r)), passed: Condvar::new() };
    let t = Shared(t);
    std::thread::scope(|scope| {
        for (me, (mode, fault)) in runs.iter().enumerate() {
            let (baton, t) = (&baton, &t);
            scope.spawn(move || {
                let t: &Shared<_> = t;
                baton.wait(me);
                line.push(me, Moment::Begin(*mode));
                run_watched(t.0, n, &flat_id(count), *mode, *fault, &Thread { baton, line, me });
                baton.pass(me, true);
            });
        }
    });
}

/// Does the decoded output agree with what is known?
fn format_agrees(input: &Input, clockwise: bool, kind: &str, delim: u64, after: &Value, known: &mut Known) -> bool {
    let items = after.as_array().unwrap();
    let num = |v: &Value| v.as_u64().unwrap() as u32;
    let fans: Vec<Vec<u32>> = match kind {
        "flat" => items.chunks(3).map(|c| c.iter().map(num).collect()).collect(),
        "delim" => items.split(|v| v.as_u64() == Some(delim)).map(|c| c.iter().map(num).collect()).collect(),
        _ => items.iter().map(|f| f.as_array().unwrap().iter().map(num).collect()).collect(),
    };
    if fans.iter().any(|f| f.len() < 3) {
        return false;
    }
    let ts: Vec<[u32; 3]> = fans.iter().flat_map(|f| f.windows(2).skip(1).map(|w| [f[0], w[0], w[1]])).collect();
    let n = input.pts.len() as u32;
    if ts.iter().flatten().any(|&v| v == 0 || v > n) {
        return false;
    }
    let zero: Vec<[usize; 3]> = ts.iter().map(|t| t.map(|v| v as usize - 1)).collect();
    let turned = zero.iter().all(|t| { let c = cross(input.pts[t[0]], input.pts[t[1]], input.pts[t[2]]); if clockwise { c <= 0 } else { c >= 0 } });
    known.agrees(&ts, true) && turned && tiles(input, &zero)
}

fn session(w: &mut Worker, r: &mut Rng, fam: &'static str, key: (u64, u64), input: &Arc<Input>, orders: &Orders, history: &[Run], keep: usize) {
    let flat = Flat::f64(input);
    let n = input.n();
    let id = flat_id(input.pts.len());
    let mut ev: Vec<Value> = Vec::new();
    let mut suspicious = false;
    let mut known = [Known::default(), Known::default()];
    let text: Vec<String> = history.iter().map(|r| r.text()).collect();
    let begin = |w: &Worker, orders: &Orders, ev: &[Value]| {
        let (input, text, done, orders2) = (input.clone(), text.clone(), ev.to_vec(), orders.clone());
        w.begin_raw(orders, Box::new(move || (
            json!({"pts": input.pts, "rings": one_based(&input.rings), "ev": done}),
            json!({"family": fam, "pts": input.pts, "rings": input.rings, "orders": orders2, "history": text}),
        )));
    };
    begin(w, orders, &ev);
    let t = catch_unwind(|| PolygonList::trapezoidize(&flat));
    w.end();
    // a failure here is another property's
    let Ok(Ok(t)) = t else { w.tally("not-trapezoidized", 1); return };
    for run in history {
        w.tally("runs", 1);
        match run {
            Run::Nested(_) | Run::Woven(..) => {
                let line = Timeline::default();
                ev.push(json!({"e": "overlap", "v": [], "r": ""}));
                begin(w, &None, &ev);
                match run {
                    Run::Nested(node) => nest(&t, n, &id, &line, &Cell::new(0), node),
                    Run::Woven(runs, seed) => weave(&t, n, input.pts.len(), &line, runs, *seed),
                    _ => unreachable!(),
                }
                w.end();
                for (mode, events) in line.ended() {
                    w.tally("overlapping-runs", 1);
                    suspicious |= !oracle::broken(input, mode.clockwise(), Res::Ok, &events).is_empty();
                    suspicious |= !known[mode.clockwise() as usize].agrees(&delivered(&events), events.last().unwrap().res == Res::Ok);
                }
                ev.extend(line.json());
            }
            &Run::Recorded(mode, fault) => {
                ev.push(json!({"e": if mode.one_step { "alone" } else { "begin" }, "v": [], "r": if mode.clockwise() { "cw" } else { "ccw" }}));
                let own: Orders = Some(input.rings.iter().map(|ring| r.perm(ring.len())).collect());
                begin(w, if mode.one_step { &own } else { &None }, &ev);
                let events = if mode.one_step { run_list(&flat, n, &id, mode, fault) } else { run_trapezoidation(&t, n, &id, mode, fault) };
                w.end();
                suspicious |= !oracle::broken(input, mode.clockwise(), Res::Ok, &events).is_empty();
                if !mode.one_step {
                    suspicious |= !known[mode.clockwise() as usize].agrees(&delivered(&events), events.last().unwrap().res == Res::Ok);
                }
                ev.extend(events_json(&events).as_array().unwrap().iter().cloned());
            }
            &Run::Format(k, reverse) => {
                begin(w, &None, &ev);
                let (kind, res, after) = run_format(&t, input.pts.len(), k, reverse);
                w.end();
                let delim = input.pts.len() + 1;
                suspicious |= res != "ok" || !format_agrees(input, reverse, kind, delim as u64, &after, &mut known[reverse as usize]);
                ev.push(json!({"e": "format", "v": [], "r": res, "kind": kind, "delim": delim, "winding": if reverse { "cw" } else { "ccw" }, "after": after}));
                ev.push(json!({"e": "judge", "v": [], "r": if reverse { "cw" } else { "ccw" }}));
            }
        }
    }
    let again: Vec<Pt> = flat.verts.iter().map(|v| [v[0] as i64, v[1] as i64]).collect();
    suspicious |= again != input.pts;
    ev.push(json!({"e": "input", "v": again, "r": "ok"}));
    w.tally("sessions", 1);
    if suspicious || r.below(1000) < keep {
        w.raw(Raw {
            trace: json!({"pts": input.pts, "rings": one_based(&input.rings), "ev": ev}),
            meta: json!({"family": fam, "pts": input.pts, "rings": input.rings, "orders": orders, "history": text}),
            suspicious, size: ev.len(), key,
        });
    }
}

fn random_node(r: &mut Rng, all: &[Mode], calls: usize, depth: usize) -> Node {
    let mode = Mode { one_step: false, ..*r.pick(all) };
    let fault = match r.below(8) { 0 => Some(PANIC_AT + r.below(calls)), 1 | 2 => Some(r.below(calls)), _ => None };
    let count = if depth == 0 { 0 } else { r.below(4) };
    let within = (0..count).map(|_| (r.below(calls), random_node(r, all, calls, depth - 1))).collect();
    Node { mode, fault, within }
}

fn sessions(args: &Args) {
    let ctx = Ctx::new(args.num("seed", 1), PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let keep = args.num("keep", 100) as usize;
    let scale = args.num("scale", 100) as usize;
    let depth = args.num("depth", 3) as u32;
    let all = Mode::all();
    let m = |s: &str| Mode::parse(s).unwrap();
    // every history up to a length over these
    let alphabet = [
        Run::Recorded(m("fan-ccw"), None),
        Run::Recorded(m("list-cw"), None),
        Run::Recorded(m("fan-ccw"), Some(1)),
        Run::Recorded(m("fan-cw"), Some(2)),
        Run::Recorded(m("list-ccw"), Some(0)),
        Run::Recorded(m("list-ccw-rev"), Some(3)),
        Run::Recorded(m("fan-ccw"), Some(PANIC_AT + 1)),
        Run::Recorded(m("fan-cw-onestep"), None),
        Run::Format(2, false),
        Run::Format(3, true),
    ];
    let alphabet = &alphabet;
    let mut histories: Vec<Vec<Run>> = (1..=depth).flat_map(|d| (0..alphabet.len().pow(d)).map(move |k| (0..d).map(|i| alphabet[k / alphabet.len().pow(i) % alphabet.len()].clone()).collect())).collect();
    // every run of these inside every one of these, during every call; and every two, taking turns; then one alone
    let leaf = |s: &str, fault| Node { mode: m(s), fault, within: Vec::new() };
    let nodes = [leaf("fan-ccw", None), leaf("list-cw", None), leaf("fan-ccw", Some(2)), leaf("list-ccw-rev", Some(3)), leaf("fan-cw", Some(PANIC_AT + 1))];
    for (i, outer) in nodes.iter().enumerate() {
        for (j, inner) in nodes.iter().enumerate() {
            let last = Run::Recorded(m(if outer.mode.clockwise() { "fan-cw" } else { "fan-ccw" }), None);
            for k in 0..6 {
                histories.push(vec![Run::Nested(Node { within: vec![(k, inner.clone())], ..outer.clone() }), last.clone()]);
            }
            for s in 0..6 {
                histories.push(vec![Run::Woven(vec![(outer.mode, outer.fault), (inner.mode, inner.fault)], (i * 100 + j * 10 + s) as u64), last.clone()]);
            }
        }
    }
    ctx.count("histories-enumerated", histories.len() as u64);
    ctx.parallel("exhaustive", (12 * scale / 100).max(1), |i, w| {
        let mut r = Rng::new(ctx.seed, hash_of(&("session-input", i)));
        let fam = ["small", "collinear", "multi", "polyc"][i % 4];
        let Some(input) = (0..20).find_map(|_| gen::family(fam, &mut r)) else { return };
        let input = Arc::new(input);
        for (k, h) in histories.iter().enumerate() {
            let orders: Orders = Some(input.rings.iter().map(|ring| r.perm(ring.len())).collect());
            session(w, &mut r, fam, (i as u64, k as u64), &input, &orders, h, keep);
        }
    });
    for (fam, count) in [("small", 800), ("medium", 200), ("shape", 200), ("collinear", 300), ("multi", 200), ("nest", 200), ("polyc", 200)] {
        let stream = hash_of(&("sessions", fam));
        ctx.parallel(fam, (count * scale / 100).max(1), |i, w| {
            let mut r = Rng::new(ctx.seed, stream ^ (i as u64) << 1);
            let Some(input) = gen::family(fam, &mut r) else { return };
            let input = Arc::new(input);
            let orders: Orders = if r.chance(80) { Some(input.rings.iter().map(|ring| r.perm(ring.len())).collect()) } else { None };
            let calls = input.n();
            let history: Vec<Run> = (0..2 + r.below(7)).map(|_| match r.below(6) {
                4 => Run::Nested(random_node(&mut r, &all, calls, 3)),
                5 => Run::Woven((0..2 + r.below(3)).map(|_| { let n = random_node(&mut r, &all, calls, 0); (n.mode, n.fault) }).collect(), r.below(1 << 30) as u64),
                0 => Run::Format(r.below(FORMATS), r.chance(50)),
                1 => { let m = *r.pick(&all); let panics = r.chance(25) as usize; Run::Recorded(m, Some(panics * PANIC_AT + r.below(calls))) }
                _ => { let m = *r.pick(&all); Run::Recorded(Mode { one_step: m.one_step && r.chance(30), ..m }, None) }
            }).collect();
            session(w, &mut r, fam, (1000 + i as u64, hash_of(&fam)), &input, &orders, &history, keep * 4);
        });
    }
    ctx.write();
}
