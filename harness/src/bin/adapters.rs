//! The adapters `into_fan_format` and `reverse_winding`: what reaches them, and what they pass on.

use std::{cell::RefCell, panic::{catch_unwind, AssertUnwindSafe}, path::PathBuf, sync::Arc};

use serde_json::{json, Value};
use triangulate::{FanBuilder, FanFormat, ListFormat, PolygonList, TriangleWinding, TriangulationError};

use harness::{explore::*, gen, geom::*, lists::*, record::*, rng::Rng, Args};

fn main() {
    harness::main(&[("replay", replay), ("runs", runs)]);
}

type P = Flat<[f64; 2]>;

/// The calls which arrive, each with those passed on
struct Outer {
    inner: RefCell<Log>,
    calls: RefCell<Vec<Value>>,
}

impl Outer {
    fn new(fault: Option<usize>, n: usize) -> Self {
        Self { inner: RefCell::new(Log::new(fault, call_limit(n))), calls: RefCell::new(Vec::new()) }
    }

    fn call(&self, e: &str, v: &[usize], res: String) {
        let inner = std::mem::take(&mut self.inner.borrow_mut().events);
        let v: Vec<usize> = v.iter().map(|i| i + 1).collect();
        self.calls.borrow_mut().push(json!({"e": e, "v": v, "r": res, "in": events_json(&inner)}));
    }
}

fn text<T>(r: &Result<T, Injected>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(Injected(k)) => format!("e{k}"),
    }
}

/// Stands between the library and an adapter
struct Tee<'m, F> {
    to: F,
    outer: &'m Outer,
}

struct TeeBuilder<'m, B> {
    to: B,
    outer: &'m Outer,
}

impl<'m, 'p, F> FanFormat<'p, P> for Tee<'m, F>
where F: FanFormat<'p, P>, F::Builder: FanBuilder<'p, P, Error = Injected> {
    type Builder = TeeBuilder<'m, F::Builder>;

    fn initialize(self, list: &'p P, a: usize, b: usize, c: usize) -> Result<Self::Builder, Injected> {
        let r = self.to.initialize(list, a, b, c);
        self.outer.call("init", &[a, b, c], text(&r));
        Ok(TeeBuilder { to: r?, outer: self.outer })
    }
}

impl<'p, B: FanBuilder<'p, P, Error = Injected>> FanBuilder<'p, P> for TeeBuilder<'_, B> {
    type Output = B::Output;
    type Error = Injected;

    const WINDING: TriangleWinding = B::WINDING;

    fn new_fan(&mut self, a: usize, b: usize, c: usize) -> Result<(), Injected> {
        let r = self.to.new_fan(a, b, c);
        self.outer.call("fan", &[a, b, c], text(&r));
        r
    }

    fn extend_fan(&mut self, a: usize) -> Result<(), Injected> {
        let r = self.to.extend_fan(a);
        self.outer.call("ext", &[a], text(&r));
        r
    }

    fn build(self) -> Result<Self::Output, Injected> {
        let r = self.to.build();
        self.outer.call("build", &[], text(&r));
        r
    }

    fn fail(self, error: &TriangulationError<Injected>) {
        self.to.fail(error);
        self.outer.call("fail", &[], classify(error).text());
    }
}

/// What is done with a wrapped format
trait Job {
    fn run<'p, F>(&mut self, list: &'p P, format: F) -> Res
    where F: FanFormat<'p, P>, F::Builder: FanBuilder<'p, P, Output = u64, Error = Injected>;
}

fn winding(w: TriangleWinding) -> &'static str {
    match w {
        TriangleWinding::Clockwise => "cw",
        TriangleWinding::Counterclockwise => "ccw",
    }
}

/// Wraps the recorder as the mode says; returns the outer winding and the result
fn wrapped<'p>(list: &'p P, outer: &Outer, mode: Mode, job: &mut impl Job) -> (&'static str, Res) {
    fn go<'p, F>(list: &'p P, outer: &Outer, f: F, job: &mut impl Job) -> (&'static str, Res)
    where F: FanFormat<'p, P>, F::Builder: FanBuilder<'p, P, Output = u64, Error = Injected> {
        let w = winding(<F::Builder as FanBuilder<'p, P>>::WINDING);
        let r = catch_unwind(AssertUnwindSafe(|| job.run(list, Tee { to: f, outer })));
        (w, r.unwrap_or(Res::Panic))
    }
    fn reversed<'p, F>(list: &'p P, outer: &Outer, f: F, k: u8, job: &mut impl Job) -> (&'static str, Res)
    where F: FanFormat<'p, P>, F::Builder: FanBuilder<'p, P, Output = u64, Error = Injected> {
        match k {
            0 => go(list, outer, f, job),
            1 => go(list, outer, f.reverse_winding(), job),
            2 => go(list, outer, f.reverse_winding().reverse_winding(), job),
            _ => go(list, outer, f.reverse_winding().reverse_winding().reverse_winding(), job),
        }
    }
    let id = flat_id(list.verts.len());
    match (mode.list, mode.cw) {
        (false, false) => reversed(list, outer, Recorder::<P, false>::new(&outer.inner, &id), mode.reversals, job),
        (false, true) => reversed(list, outer, Recorder::<P, true>::new(&outer.inner, &id), mode.reversals, job),
        (true, false) => reversed(list, outer, ListRecorder::<P, false>::new(&outer.inner, &id).into_fan_format(), mode.reversals, job),
        (true, true) => reversed(list, outer, ListRecorder::<P, true>::new(&outer.inner, &id).into_fan_format(), mode.reversals, job),
    }
}

// ------------------------------------------------------------------------------------------------ judgement, to choose what TLC sees

fn broken(trace: &Value) -> bool {
    let reversals = trace["reversals"].as_u64().unwrap();
    if (trace["outer"] == trace["inner"]) != (reversals % 2 == 0) {
        return true;
    }
    let list = trace["kind"] == "list";
    let mut fan = (json!(0), json!(0));
    for o in trace["ev"].as_array().unwrap() {
        let e = o["e"].as_str().unwrap();
        if e == "ret" {
            if o["r"] != "ok" { return true }
            continue;
        }
        let inner = o["in"].as_array().unwrap();
        let mut due: Vec<(&str, Value)> = Vec::new();
        match e {
            "init" if list => { due.push(("linit", json!([]))); due.push(("tri", o["v"].clone())) }
            "init" | "fan" => due.push((if list { "tri" } else { e }, o["v"].clone())),
            "ext" => due.push(if list { ("tri", json!([fan.0, fan.1, o["v"][0]])) } else { ("ext", o["v"].clone()) }),
            other => due.push((other, json!([]))),
        }
        let mut result = "ok".to_string();
        let mut expected = Vec::new();
        for (k, (de, dv)) in due.iter().enumerate() {
            let Some(c) = inner.get(k) else { return true };
            expected.push(json!({"e": de, "v": dv, "r": if *de == "fail" { o["r"].clone() } else { c["r"].clone() }}));
            if *de != "fail" && c["r"] != "ok" {
                result = c["r"].as_str().unwrap().to_string();
                if list && *de == "tri" && e == "init" {
                    expected.push(json!({"e": "fail", "v": [], "r": result}));
                }
                break;
            }
        }
        if json!(expected) != o["in"] || (e != "fail" && o["r"] != result.as_str()) {
            return true;
        }
        match e {
            "init" | "fan" => fan = (o["v"][0].clone(), o["v"][2].clone()),
            "ext" => fan.1 = o["v"][0].clone(),
            _ => {}
        }
    }
    false
}

fn trace_of(mode: Mode, w: &str, outer: Outer, res: &str) -> Value {
    let mut ev = outer.calls.into_inner();
    ev.push(json!({"e": "ret", "v": [], "r": res, "in": []}));
    json!({"kind": if mode.list { "list" } else { "fans" }, "reversals": mode.reversals, "inner": if mode.cw { "cw" } else { "ccw" }, "outer": w, "ev": ev})
}

// ------------------------------------------------------------------------------------------------ behaviours of the specification

struct Replay<'v>(&'v [Value]);

impl Job for Replay<'_> {
    fn run<'p, F>(&mut self, list: &'p P, format: F) -> Res
    where F: FanFormat<'p, P>, F::Builder: FanBuilder<'p, P, Output = u64, Error = Injected> {
        let at = |c: &Value, k: usize| c["v"][k].as_u64().unwrap() as usize - 1;
        let first = &self.0[0];
        let mut error = None;
        let Ok(mut b) = format.initialize(list, at(first, 0), at(first, 1), at(first, 2)) else { return Res::Ok };
        for c in &self.0[1..] {
            let r = match c["e"].as_str().unwrap() {
                "fan" => b.new_fan(at(c, 0), at(c, 1), at(c, 2)),
                "ext" => b.extend_fan(at(c, 0)),
                "build" => return match b.build() { Ok(TOKEN) | Err(_) => Res::Ok, Ok(_) => Res::WrongOutput },
                _ => {
                    b.fail(&error.take().map_or(TriangulationError::NoVertices, TriangulationError::FanBuilder));
                    return Res::Ok;
                }
            };
            error = r.err();
        }
        Res::Ok
    }
}

fn replay(args: &Args) {
    let ctx = Ctx::new(args.num("seed", 1), PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let behaviours: Vec<Value> = std::fs::read_to_string(args.get("behaviours", "behaviours.ndjson")).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let keep = args.num("keep", 100) as usize;
    let n = args.num("vertices", 3) as i64;
    let input = Input::from_rings(&[(1..=n).map(|i| [i, i * i]).collect()]);
    ctx.count("behaviours", behaviours.len() as u64);
    let chunk = 200;
    ctx.parallel("replay", behaviours.len().div_ceil(chunk), |j, w| {
        let flat = Flat::f64(&input);
        for (k, b) in behaviours.iter().enumerate().skip(j * chunk).take(chunk) {
            let calls = b["calls"].as_array().unwrap();
            // the inner call to refuse
            let fault = calls.iter().flat_map(|c| c["in"].as_array().unwrap()).filter(|c| c["e"] != "fail").position(|c| c["r"] != "ok");
            let mut r = Rng::new(ctx.seed, hash_of(&("adapters", k)));
            for (cw, reversals) in [(false, 0), (r.chance(50), 1), (r.chance(50), 2 + r.below(2) as u8)] {
                let mode = Mode { list: b["kind"] == "list", cw, reversals, one_step: false };
                if !mode.list && reversals == 0 {
                    continue;
                }
                let outer = Outer::new(fault, 100);
                let (wi, res) = wrapped(&flat, &outer, mode, &mut Replay(calls));
                w.tally("runs", 1);
                let trace = trace_of(mode, wi, outer, &res.text());
                let suspicious = broken(&trace);
                if suspicious || r.below(1000) < keep {
                    w.raw(Raw { trace, meta: json!({"mode": mode.text(), "behaviour": b}), suspicious, size: calls.len(), key: (k as u64, reversals as u64) });
                }
            }
        }
    });
    ctx.write();
}

// ------------------------------------------------------------------------------------------------ whole runs

struct Whole;

impl Job for Whole {
    fn run<'p, F>(&mut self, list: &'p P, format: F) -> Res
    where F: FanFormat<'p, P>, F::Builder: FanBuilder<'p, P, Output = u64, Error = Injected> {
        match list.triangulate(format) {
            Ok(TOKEN) => Res::Ok,
            Ok(_) => Res::WrongOutput,
            Err(e) => classify(&e),
        }
    }
}

fn runs(args: &Args) {
    let ctx = Ctx::new(args.num("seed", 1), PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let keep = args.num("keep", 100) as usize;
    let scale = args.num("scale", 100) as usize;
    let all = Mode::all();
    for (fam, count) in [("small", 1500), ("medium", 400), ("shape", 400), ("collinear", 500), ("multi", 300), ("nest", 300), ("polyc", 300)] {
        let stream = hash_of(&("adapters", fam));
        ctx.parallel(fam, (count * scale / 100).max(1), |i, w| {
            let mut r = Rng::new(ctx.seed, stream ^ (i as u64) << 1);
            let Some(input) = gen::family(fam, &mut r) else { return };
            let input = Arc::new(input);
            let flat = Flat::f64(&input);
            for _ in 0..6 {
                let mode = Mode { one_step: false, ..*r.pick(&all) };
                if !mode.list && mode.reversals == 0 {
                    continue;
                }
                let orders: Orders = if r.chance(80) { Some(input.rings.iter().map(|ring| r.perm(ring.len())).collect()) } else { None };
                let fault = r.chance(50).then(|| r.below(input.n()));
                let case = Case { family: fam, input: input.clone(), orders: orders.clone(), mode, fault, reject: Res::Ok };
                let (c, m) = (case.to_json(), mode);
                w.begin_raw(&orders, Box::new(move || (trace_of(m, if m.clockwise() { "cw" } else { "ccw" }, Outer::new(None, 0), "ok"), c.clone())));
                let outer = Outer::new(fault, input.n());
                let (wi, res) = wrapped(&flat, &outer, mode, &mut Whole);
                w.end();
                w.tally("runs", 1);
                // what the caller gets is Triangulation's matter: here only that an error met on the way is the one returned
                let met = outer.calls.borrow().iter().find(|c| c["e"] != "fail" && c["r"] != "ok").map(|c| c["r"].as_str().unwrap().to_string());
                let end = if matches!(res, Res::Panic | Res::TrapezoidationInternal | Res::TriangulationInternal) {
                    w.tally("not-completed", 1);
                    "ok".to_string()
                } else if res.text() == met.unwrap_or("ok".into()) { "ok".into() } else { res.text() };
                let trace = trace_of(mode, wi, outer, &end);
                let suspicious = broken(&trace);
                if suspicious || r.below(1000) < keep {
                    w.raw(Raw { size: trace["ev"].as_array().unwrap().len(), trace, meta: case.to_json(), suspicious, key: (i as u64, hash_of(&fam)) });
                }
            }
        });
    }
    ctx.write();
}
