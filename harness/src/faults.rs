//! Builders that refuse a call, at every position.

use std::{path::PathBuf, sync::Arc};

use crate::{explore::*, gen, lists::*, oracle, record::*, rng::Rng, Args};

/// Every position when there are few, else both ends and a sample
fn positions(r: &mut Rng, calls: usize, max: usize) -> Vec<usize> {
    if calls <= max {
        return (0..calls).collect();
    }
    let mut v: Vec<usize> = (0..5).chain(calls - 5..calls).collect();
    while v.len() < max {
        v.push(r.below(calls));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn faults(args: &Args) {
    let seed = args.num("seed", 1);
    let scale = args.num("scale", 100) as usize;
    let keep_per_thousand = args.num("keep", 100) as usize;
    let ctx = Ctx::new(seed, PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let all = Mode::all();
    for (fam, count) in [("small", 400), ("medium", 150), ("shape", 150), ("collinear", 200), ("multi", 150), ("nest", 100), ("polyc", 100)] {
        let stream = hash_of(&("faults", fam));
        ctx.parallel(fam, (count * scale / 100).max(1), |i, w| {
            let mut r = Rng::new(seed, stream ^ (i as u64) << 1);
            let Some(input) = gen::family(fam, &mut r) else { return };
            let input = Arc::new(input.placed(&mut r));
            let flat = Flat::f64(&input);
            let id = flat_id(input.pts.len());
            let n = input.n();
            let mut out: Vec<Trace> = Vec::new();
            let mut runs = 0;
            for o in 0..2 {
                let orders: Orders = Some(input.rings.iter().map(|ring| r.perm(ring.len())).collect());
                let t = {
                    let case = Case { family: fam, input: input.clone(), orders: orders.clone(), mode: all[0], fault: None, reject: Res::Ok };
                    w.begin(&case);
                    std::panic::catch_unwind(|| triangulate::PolygonList::trapezoidize(&flat))
                };
                let Ok(Ok(t)) = t else { continue };
                // all modes, over the two orders
                for (k, &mode) in all.iter().enumerate().filter(|(k, _)| k % 2 == o) {
                    if n > 12 && (k + i) % 4 > 1 {
                        continue;
                    }
                    let mut case = Case { family: fam, input: input.clone(), orders: orders.clone(), mode, fault: None, reject: Res::Ok };
                    let mut run = |case: &Case| {
                        w.begin(case);
                        runs += 1;
                        let events = if mode.one_step { run_list(&flat, n, &id, mode, case.fault) } else { run_trapezoidation(&t, n, &id, mode, case.fault) };
                        w.end();
                        events
                    };
                    let calls = run(&case).len().saturating_sub(1);
                    for k in positions(&mut r, calls, 24) {
                        case.fault = Some(k);
                        let events = run(&case);
                        let suspicious = !oracle::broken(&input, mode.clockwise(), Res::Ok, &events).is_empty();
                        if suspicious || r.below(1000) < keep_per_thousand {
                            out.push(Trace { case: case.clone(), events, suspicious, count: 1, key: (i as u64, out.len() as u64) });
                        }
                    }
                }
            }
            w.tally("inputs", 1);
            w.tally("runs", runs);
            let kept = out.len();
            w.tally("traces-kept", kept as u64);
            w.keep(out, usize::MAX);
        });
    }
    ctx.write();
}
