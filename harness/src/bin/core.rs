//! The core workloads, on one polygon list type.

use std::{path::PathBuf, sync::Arc};

use harness::{core_work, explore::*, faults, geom, huge, lists, oracle, record::*, unruly, Args};

fn main() {
    harness::main(&[("core", core_work::core), ("faults", faults::faults), ("huge", huge::huge), ("violated", unruly::violated), ("replay", replay)]);
}

/// Runs one recorded case again and prints its trace
fn replay(args: &Args) {
    let text = std::fs::read_to_string(args.get("case", "case.json")).unwrap();
    let v: serde_json::Value = serde_json::from_str(&text).unwrap();
    let v = if v["case"].is_object() { v["case"].clone() } else if v["meta"].is_object() { v["meta"].clone() } else { v };
    let input: geom::Input = geom::Input {
        pts: serde_json::from_value(v["pts"].clone()).unwrap(),
        rings: serde_json::from_value(v["rings"].clone()).unwrap(),
        place: v["place"].as_str().map(geom::Place::parse).unwrap_or_default(),
    };
    let case = Case {
        family: "replay",
        input: Arc::new(input),
        orders: serde_json::from_value(v["orders"].clone()).unwrap(),
        mode: Mode::parse(v["mode"].as_str().unwrap()).unwrap(),
        fault: serde_json::from_value(v["fault"].clone()).unwrap(),
        reject: Res::Ok,
    };
    let ctx = Ctx::new(0, PathBuf::from(args.get("out", "/tmp/harness-replay")), 60);
    ctx.parallel("replay", 1, |_, w| {
        w.begin(&case);
        let flat = lists::Flat::f64(&case.input);
        let events = run_list(&flat, case.input.n(), &lists::flat_id(case.input.pts.len()), case.mode, case.fault);
        w.end();
        let suspicious = !oracle::broken(&case.input, case.mode.clockwise(), Res::Ok, &events).is_empty();
        w.ctx.traces.lock().unwrap().push(Trace { case: case.clone(), events, suspicious, count: 1, key: (0, 0) });
    });
    ctx.write();
    for t in ctx.traces.lock().unwrap().iter() {
        println!("{}", t.to_json());
        println!("{:?}", oracle::broken(&t.case.input, t.case.mode.clockwise(), Res::Ok, &t.events));
    }
}
