//! The trapezoidal decomposition after each inserted segment.

#[cfg(not(feature = "hooks"))]
fn main() {
    eprintln!("built without the hooks");
    std::process::exit(3);
}

#[cfg(feature = "hooks")]
fn main() {
    harness::main(&[("snapshots", hooked::snapshots)]);
}

#[cfg(feature = "hooks")]
mod hooked {
    use std::{collections::{BTreeSet, HashMap}, path::PathBuf, sync::Arc, time::Instant};

    use serde_json::{json, Value};
    use triangulate::{verif, PolygonList};

    use harness::{explore::*, gen, geom::*, lists::*, rng::Rng, Args};

    type Seg = Option<[usize; 2]>;
    /// left, right, down, up; vertex ids are 0-based
    type Cell = (Seg, Seg, Option<usize>, Option<usize>);

    /// A restatement of Decomposition.tla
    fn cells(pts: &[Pt], segs: &BTreeSet<[usize; 2]>) -> BTreeSet<Cell> {
        let ends: BTreeSet<usize> = segs.iter().flatten().copied().collect();
        let low = |a: usize, b: usize| lower(pts[a], pts[b]);
        let side = |s: &[usize; 2], v: usize| cross(pts[s[0]], pts[s[1]], pts[v]);
        let left_of = |e: &[usize; 2], f: &[usize; 2]| {
            let (a, b, c, d) = (pts[e[0]], pts[e[1]], pts[f[0]], pts[f[1]]);
            if e[0] != f[0] {
                if lower(c, a) { cross(c, d, a) > 0 } else { cross(a, b, c) < 0 }
            } else if lower(b, d) { cross(c, d, b) > 0 } else { cross(a, b, d) < 0 }
        };
        let mut out = BTreeSet::new();
        let lowest = ends.iter().copied().reduce(|a, b| if low(a, b) { a } else { b });
        out.insert((None, None, None, lowest));
        for &v in &ends {
            let active: Vec<[usize; 2]> = segs.iter().copied().filter(|s| !low(v, s[0]) && low(v, s[1])).collect();
            let mut own: Vec<[usize; 2]> = active.iter().copied().filter(|s| s[0] == v).collect();
            own.sort_by(|a, b| if left_of(a, b) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
            let l = active.iter().copied().filter(|s| s[0] != v && side(s, v) < 0).reduce(|a, b| if left_of(&a, &b) { b } else { a });
            let r = active.iter().copied().filter(|s| s[0] != v && side(s, v) > 0).reduce(|a, b| if left_of(&a, &b) { a } else { b });
            let walls: Vec<Seg> = std::iter::once(l).chain(own.iter().map(|s| Some(*s))).chain(std::iter::once(r)).collect();
            for w in walls.windows(2) {
                let (l, r) = (w[0], w[1]);
                let up = ends.iter().copied()
                    .filter(|&w| low(v, w) && l.map_or(true, |l| side(&l, w) <= 0) && r.map_or(true, |r| side(&r, w) >= 0))
                    .reduce(|a, b| if low(a, b) { a } else { b });
                out.insert((l, r, Some(v), up));
            }
        }
        out
    }

    fn inside(pts: &[Pt], c: &Cell, p: usize) -> bool {
        c.2.map_or(true, |d| lower(pts[d], pts[p])) && c.3.map_or(true, |u| lower(pts[p], pts[u]))
            && c.0.map_or(true, |s| cross(pts[s[0]], pts[s[1]], pts[p]) < 0) && c.1.map_or(true, |s| cross(pts[s[0]], pts[s[1]], pts[p]) > 0)
    }

    struct Work<'a> {
        input: &'a Arc<Input>,
        /// coordinates -> vertex
        id: HashMap<Pt, usize>,
        edges: BTreeSet<[usize; 2]>,
        memo: HashMap<BTreeSet<[usize; 2]>, BTreeSet<Cell>>,
    }

    impl<'a> Work<'a> {
        fn new(input: &'a Arc<Input>) -> Self {
            let id = input.pts.iter().enumerate().map(|(i, p)| (*p, i)).collect();
            let edges = input.edges().into_iter().map(|(a, b)| if lower(input.pts[a], input.pts[b]) { [a, b] } else { [b, a] }).collect();
            Self { input, id, edges, memo: HashMap::new() }
        }

        /// Ids are usize::MAX for points the input does not have
        fn point(&self, p: [f64; 2]) -> usize {
            self.id.get(&[p[0] as i64, p[1] as i64]).copied().filter(|&i| self.input.pts[i] == [p[0] as i64, p[1] as i64] && p[0].fract() == 0.0 && p[1].fract() == 0.0).unwrap_or(usize::MAX)
        }

        fn one(&mut self, w: &mut Worker, family: &'static str, key: (u64, u64), orders: Orders, keep: bool) {
            let input = self.input.clone();
            let flat = Flat::f64(&input);
            let meta = json!({"family": family, "pts": input.pts, "rings": input.rings, "orders": orders});
            let trace = |ev: Vec<Value>| json!({"pts": input.pts, "rings": one_based(&input.rings), "ev": ev});
            {
                let (t, m) = (trace(Vec::new()), meta.clone());
                w.begin_raw(&orders, Box::new(move || (t.clone(), m.clone())));
            }
            verif::start_recording();
            let res = match std::panic::catch_unwind(|| flat.trapezoidize().map(|_| ())) {
                Err(_) => "panic",
                Ok(Err(_)) => "error",
                Ok(Ok(())) => "ok",
            };
            w.end();
            let snaps = verif::take_recording();
            w.tally("runs", 1);
            w.tally("snapshots", snaps.len() as u64);
            let mut suspicious = res != "ok" || snaps.len() != self.edges.len();
            let mut before: BTreeSet<[usize; 2]> = BTreeSet::new();
            let mut ev = Vec::new();
            let mut memo = std::mem::take(&mut self.memo);
            for s in &snaps {
                let seg = |s: &[[f64; 2]; 2]| [self.point(s[0]), self.point(s[1])];
                let segs: BTreeSet<[usize; 2]> = s.segments.iter().map(seg).collect();
                let traps: Vec<Cell> = s.trapezoids.iter().map(|t| (t.left.as_ref().map(seg), t.right.as_ref().map(seg), t.down.map(|p| self.point(p)), t.up.map(|p| self.point(p)))).collect();
                let loc: Vec<(usize, usize, usize)> = s.located.iter().map(|&(p, a, b)| (self.point(p), a, b)).collect();
                suspicious |= !(segs.is_subset(&self.edges) && before.is_subset(&segs) && segs.len() == before.len() + 1);
                if !suspicious {
                    let want = memo.entry(segs.clone()).or_insert_with(|| cells(&input.pts, &segs));
                    let got: BTreeSet<Cell> = traps.iter().copied().collect();
                    suspicious |= got.len() != traps.len() || got != *want;
                    w.tally("locations", 2 * loc.len() as u64);
                    suspicious |= !loc.iter().all(|&(p, a, b)| p != usize::MAX && [a, b].iter().all(|&t| t < traps.len() && inside(&input.pts, &traps[t], p)));
                }
                before = segs;
                if keep || suspicious {
                    // 1-based, 0: none, -1: a point the input does not have
                    let v = |i: usize| if i == usize::MAX { -1 } else { i as i64 + 1 };
                    let sg = |s: &Seg| s.map_or(json!([]), |s| json!([v(s[0]), v(s[1])]));
                    let vx = |x: &Option<usize>| x.map_or(json!(0), |x| json!(v(x)));
                    ev.push(json!({"e": "snap", "v": [], "r": "ok",
                        "segs": s.segments.iter().map(|s| sg(&Some(seg(s)))).collect::<Vec<_>>(),
                        "traps": traps.iter().map(|c| json!([sg(&c.0), sg(&c.1), vx(&c.2), vx(&c.3)])).collect::<Vec<_>>(),
                        "loc": loc.iter().map(|l| json!([v(l.0), v(l.1), v(l.2)])).collect::<Vec<_>>()}));
                }
            }
            self.memo = memo;
            if suspicious && !keep {
                // once more in full
                return self.one(w, family, key, orders, true);
            }
            if keep {
                ev.push(json!({"e": "ret", "v": [], "r": res}));
                w.raw(Raw { trace: trace(ev), meta, suspicious, size: input.n(), key });
            }
        }
    }

    pub fn snapshots(args: &Args) {
        // does this tree record anything?
        verif::start_recording();
        let _ = std::panic::catch_unwind(|| Flat::f64(&Input::from_rings(&[vec![[0, 0], [2, 1], [1, 3]]])).trapezoidize().map(|_| ()));
        if verif::take_recording().is_empty() {
            std::process::exit(3);
        }
        let seed = args.num("seed", 1);
        let scale = args.num("scale", 100) as usize;
        let keep = args.num("keep", 100) as usize;
        let ctx = Ctx::new(seed, PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
        let grid_orders = args.num("grid-orders", 120) as usize;
        let mut grid = Vec::new();
        for (w, h, ns) in [(2, 2, 3..=4), (3, 2, 3..=6), (2, 3, 3..=6), (3, 3, 3..=8), (4, 3, 3..=5), (5, 2, 3..=5)] {
            for n in ns {
                grid.extend(gen::grid_polygons(w, h, n));
            }
        }
        let stride = (100 / scale.clamp(1, 100)).max(1);
        for (family, count, orders_per, share) in [("grid", grid.len() * 100 / stride / scale, grid_orders, 10), ("small", 2500, 40, 30), ("collinear", 1500, 30, 30), ("polyc", 800, 20, 20), ("medium", 600, 15, 15), ("shape", 400, 15, 15), ("multi", 800, 15, 20), ("nest", 600, 15, 20)] {
            let stream = hash_of(&("snapshots", family));
            ctx.parallel(family, (count * scale / 100).max(1), |i, w| {
                let mut r = Rng::new(seed, stream ^ (i as u64) << 1);
                let input = if family == "grid" {
                    let mut rings = grid[(i * stride + seed as usize % stride) % grid.len()].ring_points();
                    gen::relist(&mut r, &mut rings);
                    Some(Input::from_rings(&rings))
                } else {
                    gen::family(family, &mut r)
                };
                let Some(input) = input else { return };
                if input.n() > 60 {
                    return;
                }
                let input = Arc::new(input);
                w.tally(&format!("inputs/{family}"), 1);
                let mut work = Work::new(&input);
                let chosen: Vec<Orders> = orders(&input, &mut r, orders_per, 1).collect();
                let show = r.below(1000) < keep * share / 10;
                let which = r.below(chosen.len());
                for (k, o) in chosen.into_iter().enumerate() {
                    if Instant::now() > w.ctx.deadline {
                        break;
                    }
                    work.one(w, family, (i as u64, stream ^ k as u64), o, show && k == which);
                }
            });
        }
        ctx.write();
    }
}
