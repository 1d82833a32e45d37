//! Element streams, well-formed or not: rings of any length including none, separators anywhere.

use std::{panic::{catch_unwind, AssertUnwindSafe}, path::PathBuf};

use serde_json::{json, Value};
use triangulate::{formats, ListFormat, Polygon, PolygonList, TriangulationError};

use harness::{explore::*, gen, geom::*, lists::*, oracle, record::*, rng::Rng, Args};

/// Vertex ids are 0-based here, and are given out in stream order
#[derive(Clone)]
struct Stream {
    pts: Vec<Pt>,
    elements: Vec<Option<usize>>,
}

impl Stream {
    fn rings(&self) -> Vec<Vec<usize>> {
        self.elements.split(Option::is_none).map(|r| r.iter().flatten().copied().collect()).collect()
    }

    fn expected(&self) -> Res {
        let rings = self.rings();
        if rings.iter().all(Vec::is_empty) {
            return Res::NoVertices;
        }
        rings.iter().find(|r| r.len() == 1 || r.len() == 2).map_or(Res::Ok, |r| Res::Short(r.len()))
    }

    fn input(&self) -> Input {
        Input { pts: self.pts.clone(), rings: self.rings().into_iter().filter(|r| !r.is_empty()).collect(), place: Default::default() }
    }

    fn json(&self, winding: &str, ev: Value) -> Value {
        json!({"pts": self.pts, "stream": self.elements.iter().map(|e| e.map_or(0, |i| i + 1)).collect::<Vec<_>>(), "winding": winding, "ev": ev})
    }
}

/// The pattern's bits are vertices (1) and separators (0)
fn pattern(bits: usize, len: usize, variant: usize) -> Stream {
    let mut pts = Vec::new();
    let mut elements = Vec::new();
    let (mut ring, mut k) = (0i64, 0i64);
    for i in 0..len {
        if bits >> i & 1 == 1 {
            elements.push(Some(pts.len()));
            let (x, y) = match variant {
                // convex, counterclockwise
                0 => (ring * 20 + k, k * k),
                // convex, clockwise, below one another
                1 => (-k, ring * 200 - k * k),
                // x and y exchanged
                _ => (k * k + ring * 200, k - 5 * ring),
            };
            pts.push([x, y]);
            k += 1;
        } else {
            elements.push(None);
            ring += 1;
            k = 0;
        }
    }
    Stream { pts, elements }
}

/// Hundreds of rings
fn many(r: &mut Rng) -> Vec<Vec<Pt>> {
    let k = 20 + r.below(380);
    let w = 5 + r.below(20);
    (0..k).map(|i| {
        let (x, y) = (10 * (i % w) as i64, 10 * (i / w) as i64);
        let mut ring = vec![[x, y], [x + 5, y + 1], [x + 2, y + 6]];
        if r.chance(20) { ring.insert(2, [x + 6, y + 5]) }
        if r.chance(50) { ring.reverse() }
        ring
    }).collect()
}

/// A valid polygon set listed with superfluous separators, and perhaps a ring which is too short
fn decorated(r: &mut Rng) -> Option<Stream> {
    let mut rings = if r.chance(3) { many(r) } else {
        let fam = *r.pick(&["small", "multi", "nest", "collinear", "shape"]);
        gen::family(fam, r)?.ring_points()
    };
    let most = if rings.len() > 100 && r.chance(50) { 200 } else { 3 };
    let far = rings.iter().flatten().map(|p| p[0].abs()).max()? + 10;
    for _ in 0..r.below(3) {
        let k = r.below(rings.len() + 1);
        let m = 1 + r.below(2);
        let s = rings.len() as i64;
        rings.insert(k, (0..m as i64).map(|i| [far + 10 * s, 5 * i]).collect());
    }
    let mut pts = Vec::new();
    let mut elements = vec![None; r.below(3)];
    for (k, ring) in rings.iter().enumerate() {
        if k > 0 {
            elements.extend(vec![None; 1 + if r.chance(40) { r.below(most) } else { 0 }]);
        }
        for p in ring {
            elements.push(Some(pts.len()));
            pts.push(*p);
        }
    }
    elements.extend(vec![None; r.below(3)]);
    Some(Stream { pts, elements })
}

fn main() {
    harness::main(&[("streams", streams)]);
}

const KINDS: &[&str] = &["option", "element", "nested", "slices", "single", "boxed", "index32", "index16"];

fn v64(p: Pt) -> [f64; 2] {
    [p[0] as f64, p[1] as f64]
}

/// Something to do with a polygon list of any type
trait Job {
    fn run<'p, P: PolygonList<'p>>(&mut self, p: &'p P, id: &dyn Fn(&P::Index) -> u32) where P::Vertex: AsPoint + Clone, P::Index: Clone;
}

trait AsPoint {
    fn point(&self) -> [i64; 2];
}

impl AsPoint for [f64; 2] {
    fn point(&self) -> [i64; 2] {
        [self[0] as i64, self[1] as i64]
    }
}

fn with_list(kind: &str, s: &Stream, job: &mut impl Job) -> bool {
    let verts: Vec<[f64; 2]> = s.pts.iter().map(|&p| v64(p)).collect();
    let n = verts.len();
    let rings = s.rings();
    let nested: Vec<Vec<[f64; 2]>> = rings.iter().map(|r| r.iter().map(|&i| verts[i]).collect()).collect();
    let nid = |a: usize, b: usize| rings.get(a).and_then(|r| r.get(b)).map_or(0, |&i| i as u32 + 1);
    let fid = move |i: usize| if i < n { i as u32 + 1 } else { 0 };
    match kind {
        "option" => job.run(&Flat { verts, stream: s.elements.clone() }, &|&i| fid(i)),
        "element" => job.run(&Elements { verts, stream: s.elements.clone() }, &|&i| fid(i)),
        "nested" => job.run(&nested, &|&[a, b]| nid(a, b)),
        "slices" => {
            let slices: Box<[&[[f64; 2]]]> = nested.iter().map(|r| &r[..]).collect();
            job.run(&slices, &|&[a, b]| nid(a, b))
        }
        "single" if rings.len() == 1 => job.run(verts.as_polygon_list(), &|&i| fid(i)),
        "boxed" if rings.len() == 1 => {
            let b = verts.into_boxed_slice();
            job.run(b.as_polygon_list(), &|&i| fid(i))
        }
        "index32" => {
            let list = Elements { verts, stream: s.elements.clone() }.index_with::<usize, u32>();
            job.run(&list, &|&i| fid(i as usize))
        }
        "index16" => {
            let list = nested.index_with::<usize, u16>();
            job.run(&list, &|&[a, b]| nid(a as usize, b as usize))
        }
        _ => return false,
    }
    true
}

/// Records the calls of one run
struct Record {
    n: usize,
    mode: Mode,
    events: Vec<Event>,
}

impl Job for Record {
    fn run<'p, P: PolygonList<'p>>(&mut self, p: &'p P, id: &dyn Fn(&P::Index) -> u32) {
        self.events = run_recording_trapezoidation(p, self.n, id, self.mode, None);
    }
}

/// Runs a predefined format into a container with previous contents
struct Opaque {
    format: usize,
    one_step: bool,
    /// result of a separate trapezoidation
    trapezoidize: Option<Res>,
    result: Option<Res>,
    before: Value,
    after: Value,
}

const FORMATS: usize = 7;

fn status<T, E: std::error::Error>(r: std::thread::Result<Result<T, TriangulationError<E>>>) -> Res {
    match r {
        Err(_) => Res::Panic,
        Ok(Ok(_)) => Res::Ok,
        Ok(Err(TriangulationError::NoVertices)) => Res::NoVertices,
        Ok(Err(TriangulationError::TrapezoidationError(e))) => classify_trapezoidation(&e),
        Ok(Err(TriangulationError::InternalError(_))) => Res::TriangulationInternal,
        Ok(Err(_)) => Res::Other,
    }
}

impl Job for Opaque {
    fn run<'p, P: PolygonList<'p>>(&mut self, p: &'p P, id: &dyn Fn(&P::Index) -> u32) where P::Vertex: AsPoint + Clone, P::Index: Clone {
        let t = if self.one_step {
            None
        } else {
            match catch_unwind(AssertUnwindSafe(|| p.trapezoidize())) {
                Err(_) => { self.trapezoidize = Some(Res::Panic); return }
                Ok(Err(e)) => { self.trapezoidize = Some(classify_trapezoidation(&e)); return }
                Ok(Ok(t)) => { self.trapezoidize = Some(Res::Ok); Some(t) }
            }
        };
        macro_rules! go {
            ($format:expr) => {
                status(catch_unwind(AssertUnwindSafe(|| match &t {
                    Some(t) => t.triangulate($format).map(|_| ()),
                    None => p.triangulate($format).map(|_| ()),
                })))
            };
        }
        // previous contents: copies of whatever vertex the list has, or nothing
        let first: Option<P::Index> = p.iter_indices().filter_map(|e| match e.into() {
            triangulate::PolygonElement::ContinuePolygon(i) => Some(i),
            _ => None,
        }).next();
        let idx: Vec<P::Index> = first.iter().cloned().collect();
        let three: Vec<P::Index> = idx.iter().flat_map(|i| [i.clone(), i.clone(), i.clone()]).collect();
        let vtx: Vec<P::Vertex> = three.iter().map(|i| p.get_vertex(i.clone()).clone()).collect();
        let ids = |v: &[P::Index]| v.iter().map(|i| id(i)).collect::<Vec<_>>();
        let pts = |v: &[P::Vertex]| v.iter().map(|v| v.point()).collect::<Vec<_>>();
        match self.format {
            0 => {
                let mut c = three.clone();
                self.before = json!(ids(&c));
                self.result = Some(go!(formats::IndexedListFormat::new(&mut c).into_fan_format()));
                self.after = json!(ids(&c));
            }
            1 => {
                let mut c: Vec<[P::Index; 3]> = idx.iter().map(|i| [i.clone(), i.clone(), i.clone()]).collect();
                self.before = json!(c.iter().map(|t| ids(t)).collect::<Vec<_>>());
                self.result = Some(go!(formats::IndexedListFormat::new(&mut c).into_fan_format()));
                self.after = json!(c.iter().map(|t| ids(t)).collect::<Vec<_>>());
            }
            2 => {
                let mut c: Vec<Vec<P::Index>> = vec![three.clone()];
                self.before = json!(c.iter().map(|t| ids(t)).collect::<Vec<_>>());
                self.result = Some(go!(formats::IndexedFanFormat::new(&mut c)));
                self.after = json!(c.iter().map(|t| ids(t)).collect::<Vec<_>>());
            }
            3 => {
                let mut c = vtx.clone();
                self.before = json!(pts(&c));
                self.result = Some(go!(formats::DeindexedListFormat::new(&mut c).into_fan_format()));
                self.after = json!(pts(&c));
            }
            4 => {
                let mut c: Vec<(P::Vertex, P::Vertex, P::Vertex)> = vtx.first().map(|v| (v.clone(), v.clone(), v.clone())).into_iter().collect();
                let show = |c: &[(P::Vertex, P::Vertex, P::Vertex)]| json!(c.iter().map(|t| [t.0.point(), t.1.point(), t.2.point()]).collect::<Vec<_>>());
                self.before = show(&c);
                self.result = Some(go!(formats::DeindexedListFormat::new(&mut c).into_fan_format()));
                self.after = show(&c);
            }
            5 => {
                let mut c: Vec<Vec<P::Vertex>> = vec![vtx.clone()];
                let show = |c: &[Vec<P::Vertex>]| json!(c.iter().map(|t| pts(t)).collect::<Vec<_>>());
                self.before = show(&c);
                self.result = Some(go!(formats::DeindexedFanFormat::new(&mut c)));
                self.after = show(&c);
            }
            _ => {
                // every vertex of an accepted input is used, so the run of an accepted input would collide with this delimiter
                let Some(delimiter) = first else { return };
                let mut c = three.clone();
                self.before = json!(ids(&c));
                self.result = Some(go!(formats::DelimitedFanFormat::new(&mut c, delimiter.clone())));
                self.after = json!(ids(&c));
            }
        }
    }
}

pub fn streams(args: &Args) {
    let seed = args.num("seed", 1);
    let max_len = args.num("length", 12) as usize;
    let keep = args.num("keep", 100) as usize;
    let random = args.num("random", 2000) as usize;
    let ctx = Ctx::new(seed, PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let total = (1usize << (max_len + 1)) - 1;
    let modes: Vec<Mode> = Mode::all().into_iter().filter(|m| m.reversals < 2).collect();

    let each = |w: &mut Worker, r: &mut Rng, i: usize, s: &Stream, all_to_tlc: bool| {
        let expected = s.expected();
        let input = s.input();
        let n = s.pts.len();
        let keep = if n > 150 { if expected == Res::Ok { 0 } else { keep / 10 } } else { keep };
        let mut serial = 0;
        for kind in KINDS {
            for one_step in [false, true] {
                let m: Vec<Mode> = modes.iter().copied().filter(|m| m.one_step == one_step).collect();
                let mode = *r.pick(&m);
                let winding = if mode.clockwise() { "cw" } else { "ccw" };
                let d = s.clone();
                w.begin_raw(&None, Box::new(move || (d.json(winding, json!([])), json!({"kind": kind, "mode": mode.text()}))));
                let mut job = Record { n, mode, events: Vec::new() };
                let applies = with_list(kind, s, &mut job);
                w.end();
                if !applies {
                    continue;
                }
                w.tally("runs", 1);
                let suspicious = !oracle::broken(&input, mode.clockwise(), expected, &job.events).is_empty();
                if suspicious || all_to_tlc || r.below(1000) < keep {
                    serial += 1;
                    w.raw(Raw { trace: s.json(winding, events_json(&job.events)), meta: json!({"kind": kind, "mode": mode.text()}), suspicious, size: n, key: (i as u64, serial) });
                }

                // the predefined formats
                let format = r.below(FORMATS);
                if expected == Res::Ok && format == FORMATS - 1 {
                    continue;
                }
                let mut job = Opaque { format, one_step, trapezoidize: None, result: None, before: json!([]), after: json!([]) };
                let d = s.clone();
                w.begin_raw(&None, Box::new(move || (d.json("ccw", json!([])), json!({"kind": kind, "format": format, "one_step": one_step}))));
                with_list(kind, s, &mut job);
                w.end();
                w.tally("format-runs", 1);
                let mut ev = Vec::new();
                let mut suspicious = false;
                if let Some(t) = job.trapezoidize {
                    ev.push(json!({"e": "trap", "v": [], "r": t.text()}));
                    suspicious |= t != if expected == Res::NoVertices { Res::Ok } else { expected };
                }
                if let Some(t) = job.result {
                    suspicious |= t != expected || (expected != Res::Ok && job.before != job.after);
                    // the contents are the other properties' concern when the input is accepted
                    let (before, after) = if expected == Res::Ok { (json!([]), json!([])) } else { (job.before, job.after) };
                    ev.push(json!({"e": "opaque", "v": [], "r": t.text(), "before": before, "after": after}));
                }
                if suspicious || all_to_tlc || r.below(1000) < keep {
                    serial += 1;
                    w.raw(Raw { trace: s.json("ccw", json!(ev)), meta: json!({"kind": kind, "format": format, "one_step": one_step}), suspicious, size: n, key: (i as u64, serial) });
                }
            }
        }
        w.tally("streams", 1);
        w.tally(match expected { Res::Ok => "streams-accepted", Res::NoVertices => "streams-empty", _ => "streams-short" }, 1);
    };

    ctx.parallel("patterns", total, |i, w| {
        let len = (i + 1).ilog2() as usize;
        let bits = i + 1 - (1 << len);
        let mut r = Rng::new(seed, hash_of(&("stream", i)));
        let s = pattern(bits, len, i % 3);
        each(w, &mut r, i, &s, len <= 5);
    });
    ctx.parallel("decorated", random, |i, w| {
        let mut r = Rng::new(seed, hash_of(&("decorated", i)));
        let Some(s) = decorated(&mut r) else { return };
        if s.expected() == Res::Ok && !valid(&s.input()) {
            return;
        }
        if s.pts.len() > 300 { w.tally("streams-of-many-rings", 1) }
        each(w, &mut r, total + i, &s, false);
    });
    ctx.write();
}
