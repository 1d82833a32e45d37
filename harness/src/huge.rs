//! Inputs of many thousand vertices, of kinds whose validity TLC can establish in linear time (Huge.tla).

use std::{collections::HashMap, path::PathBuf, sync::Arc};

use serde_json::{json, Value};
use triangulate::PolygonList;

use crate::{explore::*, geom::*, lists::*, record::*, rng::Rng, Args};

struct Certified {
    input: Input,
    kind: &'static str,
    swap: bool,
    rot: Vec<usize>,
    rev: Vec<bool>,
    side: i64,
    cols: usize,
}

/// Lists the ring from another vertex, and perhaps backwards; returns (rot, rev) of Huge.tla
fn list(r: &mut Rng, ring: &mut Vec<Pt>) -> (usize, bool) {
    let n = ring.len();
    let rev = r.chance(50);
    if rev {
        ring.reverse();
    }
    // position of the described vertex 0
    let mut at = if rev { n - 1 } else { 0 };
    let k = r.below(n);
    ring.rotate_left(k);
    at = (at + n - k) % n;
    (at, rev)
}

fn strip(r: &mut Rng, n: usize, style: usize) -> Certified {
    let m = (n / 2).max(2) as i64;
    let h = 200;
    let low = |r: &mut Rng, i: i64| match style % 6 {
        0 => r.range(0, h / 2),
        1 => 0,
        2 => if i % 2 == 0 { 0 } else { h - 2 },
        3 => (i * 2 / m.max(1)) + r.range(0, 2),
        4 => (i % 97) + r.range(0, 3),
        _ => r.range(0, 2),
    };
    let swap = r.chance(50);
    let mut lower = Vec::new();
    let mut upper = Vec::new();
    for i in 0..m {
        let lo = low(r, i);
        let hi = match style % 5 {
            0 => lo + 1 + r.range(0, 3),
            1 => h,
            2 => h + r.range(0, h),
            3 => lo + 1,
            _ => h + (i % 2),
        };
        lower.push([i, lo]);
        upper.push([i, hi.max(lo + 1)]);
    }
    upper.reverse();
    lower.extend(upper);
    let mut ring = lower;
    if swap {
        for p in &mut ring {
            *p = [p[1], p[0]];
        }
    }
    let (rot, rev) = list(r, &mut ring);
    Certified { input: Input::from_rings(&[ring]), kind: "strip", swap, rot: vec![rot], rev: vec![rev], side: 1, cols: 1 }
}

fn cells(r: &mut Rng, rings: usize) -> Certified {
    let side = 12;
    let cols = (rings as f64).sqrt().ceil() as usize;
    let mut out = Vec::new();
    let (mut rots, mut revs) = (Vec::new(), Vec::new());
    for k in 0..rings {
        let mut ring = loop {
            let n = 3 + r.below(3);
            let ring: Vec<Pt> = (0..n).map(|_| [r.range(0, side - 1), r.range(0, side - 1)]).collect();
            if valid(&Input::from_rings(&[ring.clone()])) {
                break ring;
            }
        };
        let (rot, rev) = list(r, &mut ring);
        rots.push(rot);
        revs.push(rev);
        let (x, y) = ((k % cols) as i64 * side, (k / cols) as i64 * side);
        out.push(ring.into_iter().map(|p| [p[0] + x, p[1] + y]).collect());
    }
    Certified { input: Input::from_rings(&out), kind: "cells", swap: false, rot: rots, rev: revs, side, cols }
}

fn nest(r: &mut Rng, depth: usize, style: usize) -> Certified {
    let mut out = Vec::new();
    let (mut rots, mut revs) = (Vec::new(), Vec::new());
    for k in 0..depth {
        let s = 3 * (depth - k) as i64;
        let j = |r: &mut Rng| if style % 2 == 0 { 0 } else { r.range(0, 1) };
        let mut ring: Vec<Pt> = if style % 4 < 2 {
            vec![[-s + j(r), -s + j(r)], [s - j(r), -s + j(r)], [s - j(r), s - j(r)], [-s + j(r), s - j(r)]]
        } else {
            vec![[-s, j(r)], [j(r), -s], [s, j(r)], [j(r), s]]
        };
        let (rot, rev) = list(r, &mut ring);
        rots.push(rot);
        revs.push(rev);
        out.push(ring);
    }
    Certified { input: Input::from_rings(&out), kind: "nest", swap: false, rot: rots, rev: revs, side: 1, cols: 1 }
}

fn describe(c: &Certified, mode: Mode, tris: &[[u32; 3]]) -> Value {
    json!({
        "pts": c.input.pts, "rings": one_based(&c.input.rings), "kind": c.kind, "swap": c.swap, "rot": c.rot, "rev": c.rev, "side": c.side, "cols": c.cols,
        "winding": if mode.clockwise() { "cw" } else { "ccw" }, "reject": "none", "tris": tris, "ev": [],
    })
}

fn triangles(events: &[Event]) -> Vec<[u32; 3]> {
    let mut out: Vec<[u32; 3]> = Vec::new();
    let (mut root, mut last) = (0, 0);
    for e in events {
        let t = match e.op {
            Op::Initialize | Op::NewFan | Op::AddTriangle => e.v,
            Op::ExtendFan => [root, last, e.v[0]],
            _ => continue,
        };
        (root, last) = (t[0], t[2]);
        out.push(t);
    }
    out
}

fn ring_area(c: &Certified, ring: &[usize]) -> i64 {
    let p = |i: usize| c.input.pts[ring[i % ring.len()]];
    (0..ring.len()).map(|i| cross(p(0), p(i), p(i + 1))).sum()
}

/// HugeTrace!Verdict, roughly
enum Judgement { Tiling, Broken, Undecided }

fn judge(c: &Certified, clockwise: bool, tris: &[[usize; 3]]) -> Judgement {
    let mut m: HashMap<(usize, usize), [u32; 2]> = HashMap::with_capacity(tris.len() * 2);
    let mut conforming = true;
    let mut add = |a: usize, b: usize| {
        let n = if a < b { &mut m.entry((a, b)).or_default()[0] } else { &mut m.entry((b, a)).or_default()[1] };
        *n += 1;
        conforming &= *n == 1;
    };
    let mut area = 0;
    for t in tris {
        let k = cross(c.input.pts[t[0]], c.input.pts[t[1]], c.input.pts[t[2]]);
        area += k.abs();
        let t = if k > 0 || (k == 0 && !clockwise) { *t } else { [t[0], t[2], t[1]] };
        add(t[0], t[1]);
        add(t[1], t[2]);
        add(t[2], t[0]);
    }
    for (r, ring) in c.input.rings.iter().enumerate() {
        let outer = c.kind != "nest" || r % 2 == 0;
        let a = ring_area(c, ring);
        area -= if outer { a.abs() } else { -a.abs() };
        for i in 0..ring.len() {
            let (u, v) = (ring[i], ring[(i + 1) % ring.len()]);
            // the reverse of the interior's boundary closes the sum
            if (a > 0) == outer { add(v, u) } else { add(u, v) }
        }
    }
    if conforming && m.values().all(|v| *v == [1, 1]) { Judgement::Tiling } else if area != 0 { Judgement::Broken } else { Judgement::Undecided }
}

pub fn huge(args: &Args) {
    let seed = args.num("seed", 1);
    let ctx = Ctx::new(seed, PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let nums = |k: &str| -> Vec<usize> { args.get(k, "").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect() };
    let mut jobs: Vec<(&'static str, usize, usize)> = Vec::new();
    for (kind, variants) in [("strip", 6), ("cells", 1), ("nest", 4)] {
        for n in nums(kind) {
            jobs.extend((0..variants).map(|v| (kind, n, v)));
        }
    }
    // of each kind and size, TLC sees this many correct runs, up to this many vertices
    let shown = args.num("shown", 1) as usize;
    let shown_below = args.num("shown-below", 10_000) as usize;
    let lists: Vec<String> = args.get("lists", "flat").split(',').map(String::from).collect();
    jobs.sort_by_key(|j| j.1);
    ctx.parallel("huge", jobs.len(), |j, w| {
        let (kind, n, style) = jobs[j];
        let mut r = Rng::new(seed, hash_of(&("huge", kind, n, style)));
        let c = Arc::new(match kind {
            "strip" => strip(&mut r, n, style),
            "cells" => cells(&mut r, n),
            _ => nest(&mut r, n, style),
        });
        let list = &lists[j % lists.len()];
        let size = c.input.n();
        let all = Mode::all();
        for (k, mode) in [Mode::CCW, Mode::CW, *r.pick(&all)].into_iter().enumerate() {
            if k > 0 && size > 100_000 {
                break;
            }
            let d = c.clone();
            let meta = json!({"family": "huge", "kind": kind, "size": n, "style": style, "list": list, "mode": mode.text()});
            let m = meta.clone();
            w.begin_raw(&None, Box::new(move || (describe(&d, mode, &[]), m.clone())));
            let events = match &**list {
                "flat" => run_list(&Flat::f64(&c.input), size, &flat_id(c.input.pts.len()), mode, None),
                "nested" => run_list(&nested(&c.input, |p| p.map(|x| x as f64)), size, &nested_id(&c.input), mode, None),
                _ => {
                    let id = nested_id(&c.input);
                    run_list(&nested(&c.input, |p| p.map(|x| x as f64)).index_with::<usize, u32>(), size, &|i| id(&i.map(|x| x as usize)), mode, None)
                }
            };
            w.end();
            w.tally("runs", 1);
            w.tally(&format!("runs/huge-{kind}"), 1);
            w.tally("vertices", size as u64);
            let res = events.last().unwrap().res;
            let tris = triangles(&events);
            let zero: Vec<[usize; 3]> = tris.iter().map(|t| t.map(|v| (v as usize).wrapping_sub(1))).collect();
            let n = c.input.pts.len();
            let against = |t: &[usize; 3]| {
                let k = cross(c.input.pts[t[0]], c.input.pts[t[1]], c.input.pts[t[2]]);
                if mode.clockwise() { k > 0 } else { k < 0 }
            };
            let suspicious = res != Res::Ok || zero.iter().any(|t| t.iter().any(|&v| v >= n) || t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) || zero.iter().any(against) || match judge(&c, mode.clockwise(), &zero) {
                Judgement::Tiling => false,
                Judgement::Broken => true,
                Judgement::Undecided => { w.tally("left-to-TLC", 1); true }
            };
            if suspicious || (style < shown && k == 0 && size <= shown_below) {
                let mut trace = describe(&c, mode, &tris);
                trace["ev"].as_array_mut().unwrap().push(json!({"e": "ret", "v": [], "r": res.text()}));
                w.raw(Raw { trace, meta, suspicious, size, key: (j as u64, k as u64) });
            }
        }
    });
    // the smallest ones are enough
    let mut raws = ctx.raws.lock().unwrap();
    raws.sort_by_key(|t| (!t.suspicious, t.size, t.key));
    let mut kept = 0;
    raws.retain(|t| !t.suspicious || { kept += 1; kept <= 6 });
    drop(raws);
    ctx.write();
}
