//! The core workload: valid inputs, many insertion orders, recording builders.

use std::{path::PathBuf, sync::Arc};

use crate::{explore::*, gen, geom::*, record::*, rng::Rng, Args};

/// Two modes per run, all of them over a stretch of runs
fn modes(r: &mut Rng, n: usize) -> Vec<Mode> {
    let all = Mode::all();
    let mut v = vec![Mode::CCW, Mode::CW];
    for _ in 2..n {
        v.push(*r.pick(&all));
    }
    v
}

pub fn core(args: &Args) {
    let seed = args.num("seed", 1);
    let scale = args.num("scale", 100) as usize;
    let ctx = Ctx::new(seed, PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let families = args.get("families", "grid,small,medium,poly,polyc,shape,collinear,multi,nest,large");
    let per_input_modes = args.num("modes", 3) as usize;
    let keep_per_thousand = args.num("keep", 100) as usize;

    for fam in families.split(',') {
        // (number of inputs, orders per input, runs with the library's own order, TLC share in 1/1000 relative to --keep)
        let (count, orders_per, native, share) = match fam {
            "grid" => (0, 120, 2, 30),
            "small" => (6000, 60, 2, 100),
            "medium" => (1500, 40, 2, 150),
            "poly" | "polyc" => (2000, 40, 2, 100),
            "shape" => (800, 30, 2, 200),
            "collinear" => (2500, 40, 2, 100),
            "multi" => (1500, 30, 2, 150),
            "nest" => (1000, 30, 2, 150),
            "large" => (24, 4, 2, 20),
            other => panic!("family {other}"),
        };
        let keep_share = share * keep_per_thousand / 100;
        let stream = hash_of(&fam);
        if fam == "grid" {
            let mut inputs = Vec::new();
            let max_order = args.num("grid-orders", 120) as usize;
            for (w, h, ns) in [(2, 2, 3..=4), (3, 2, 3..=6), (2, 3, 3..=6), (3, 3, 3..=9), (4, 3, 3..=6), (4, 4, 3..=5), (5, 2, 3..=6)] {
                for n in ns {
                    inputs.extend(gen::grid_polygons(w, h, n).into_iter().map(|p| (p, w, h)));
                }
            }
            ctx.count("grid-polygons", inputs.len() as u64);
            // a part of them, evenly, when scaled down
            let stride = (100 / scale.clamp(1, 100)).max(1);
            let m = inputs.len() / stride;
            ctx.parallel(fam, m, |i, w| {
                let mut r = Rng::new(seed, stream ^ i as u64);
                let k = i * stride + (seed as usize % stride);
                let mut rings = inputs[k].0.ring_points();
                gen::relist(&mut r, &mut rings);
                let input = Arc::new(Input::from_rings(&rings).placed(&mut r));
                let ms = modes(&mut r, per_input_modes);
                let keep = if r.below(1000) < keep_share { 2 } else { 0 };
                w.explore("grid", i as u64, &input, &mut *orders(&input, &mut r, max_order, native), &ms, keep);
            });
            continue;
        }
        let count = (count * scale / 100).max(1);
        let fam: &'static str = Box::leak(fam.to_string().into_boxed_str());
        ctx.parallel(fam, count, |i, w| {
            let mut r = Rng::new(seed, stream ^ (i as u64) << 1);
            let input = if fam == "large" { large(&mut r, i) } else { gen::family(fam, &mut r) };
            let Some(input) = input else {
                w.tally(&format!("ungenerated/{fam}"), 1);
                return;
            };
            let input = Arc::new(input.placed(&mut r));
            let ms = modes(&mut r, per_input_modes);
            let keep = if r.below(1000) < keep_share && input.n() < 400 { 2 } else { 0 };
            w.explore(fam, i as u64, &input, &mut *orders(&input, &mut r, orders_per, native), &ms, keep);
        });
    }
    ctx.write();
}

/// A few hundred to a few thousand vertices
fn large(r: &mut Rng, i: usize) -> Option<Input> {
    let mut rings = match i % 6 {
        0 => { let n = 400 + r.below(800); vec![gen::shape(r, 7, n)] }
        1 => { let n = 300 + r.below(500); vec![gen::shape(r, 3, n)] }
        2 => gen::polyomino(r, 40, 40, false)?,
        3 => gen::polyomino(r, 30, 30, true)?,
        4 => gen::scattered(r, 16, 16)?,
        _ => { let n = 150 + r.below(100); vec![gen::two_opt(r, n, 400, 400)?] }
    };
    gen::relist(r, &mut rings);
    let input = Input::from_rings(&rings);
    valid(&input).then_some(input)
}
