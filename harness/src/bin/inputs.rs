//! What lists of polygons present: iterated (several iterations at a time), looked up, counted, and in between runs.

use std::{collections::BTreeMap, ops::Deref, panic::{catch_unwind, AssertUnwindSafe}, path::PathBuf, rc::Rc, sync::Arc};

use serde_json::{json, Value};
use triangulate::{formats, ListFormat, Polygon, PolygonElement, PolygonList, Vertex};

use harness::{explore::*, rng::Rng, Args};

fn main() {
    harness::main(&[("inputs", inputs), ("long", long)]);
}

#[derive(Clone, Copy, Debug)]
struct Tagged { x: f64, y: f64, id: usize }

impl Vertex for Tagged {
    type Coordinate = f64;
    fn x(&self) -> f64 { self.x }
    fn y(&self) -> f64 { self.y }
}

/// A user's polygon, which stores its vertices under keys of its own
#[derive(Clone)]
struct Own { keys: Vec<usize>, verts: BTreeMap<usize, Tagged> }

impl<'p> Polygon<'p> for Own {
    type Vertex = Tagged;
    type Index = usize;
    type Iter<'i> = std::iter::Copied<std::slice::Iter<'i, usize>>
    where Self: 'i, Tagged: 'i, 'p: 'i;

    fn vertex_count(&self) -> usize { self.keys.len() }

    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where Self: 'i, Tagged: 'i, 'p: 'i {
        self.keys.iter().copied()
    }

    fn get_vertex(&self, index: usize) -> &Tagged { &self.verts[&index] }
}

/// A user's container
struct Shelf<T> { label: usize, items: Vec<T> }

impl<T> Deref for Shelf<T> {
    type Target = [T];
    fn deref(&self) -> &[T] { &self.items[self.label..] }
}

/// Indices in the opposite direction
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Down(i64);
const TOP: i64 = 1000;
impl TryFrom<usize> for Down {
    type Error = ();
    fn try_from(i: usize) -> Result<Down, ()> { Ok(Down(TOP - i as i64)) }
}
impl TryFrom<Down> for usize {
    type Error = ();
    fn try_from(d: Down) -> Result<usize, ()> { usize::try_from(TOP - d.0).map_err(|_| ()) }
}

trait Components {
    fn components(&self) -> Vec<i64>;
}
macro_rules! components { ($($t:ty)*) => { $(impl Components for $t { fn components(&self) -> Vec<i64> { vec![*self as i64] } })* } }
components!(usize u8 i16 u32 i64);
impl Components for Down { fn components(&self) -> Vec<i64> { vec![self.0] } }
impl<T: Components> Components for [T; 2] { fn components(&self) -> Vec<i64> { self.iter().flat_map(T::components).collect() } }

/// What a list holds: per polygon the keys and vertices (numbered from 1) in order
#[derive(Clone)]
struct Held { polys: Vec<Vec<(usize, Tagged)>>, runnable: bool }

impl Held {
    fn new(r: &mut Rng, many: bool) -> Held {
        let runnable = r.chance(50);
        let mut id = 0;
        let n = if many { r.below(60) } else { *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6]) };
        let polys = (0..n).map(|p| {
            let len = if runnable { 3 + r.below(4) } else if many { r.below(9) } else { *r.pick(&[0, 0, 1, 2, 3, 3, 4, 7, 12]) };
            let mut v: Vec<(usize, Tagged)> = (0..len).map(|j| {
                id += 1;
                // convex
                let (x, y) = if runnable { ((p * 20 + j) as f64, (j * j) as f64) } else { (r.range(-3, 3) as f64, r.range(-3, 3) as f64) };
                (j, Tagged { x, y, id })
            }).collect();
            if r.chance(50) { v.reverse(); for (j, e) in v.iter_mut().enumerate() { e.0 = j } }
            v
        }).collect();
        Held { polys, runnable: runnable && n > 0 }
    }

    /// The same under other keys
    fn rekeyed(&self, r: &mut Rng) -> Held {
        let mut held = self.clone();
        for p in &mut held.polys {
            let n = p.len();
            let keys: Vec<usize> = match r.below(5) {
                0 => (0..n).map(|j| j + 1).collect(),
                1 => r.perm(n),
                2 => (0..n).rev().collect(),
                3 => { let s = r.below(100); (0..n).map(|j| s + 2 * j).collect() }
                _ => r.perm(n + 3).into_iter().take(n).collect(),
            };
            for (e, k) in p.iter_mut().zip(keys) { e.0 = k }
        }
        held
    }

    fn total(&self) -> usize { self.polys.iter().map(Vec::len).sum() }

    fn nested(&self) -> Vec<Vec<Tagged>> { self.polys.iter().map(|p| p.iter().map(|e| e.1).collect()).collect() }

    fn own(&self) -> Vec<Own> { self.polys.iter().map(|p| Own { keys: p.iter().map(|e| e.0).collect(), verts: p.iter().copied().collect() }).collect() }

    fn json(&self) -> Value {
        json!(self.polys.iter().map(|p| p.iter().map(|(k, v)| json!({"k": k, "v": v.id})).collect::<Vec<_>>()).collect::<Vec<_>>())
    }
}

#[derive(Clone, Copy)]
struct Sub { mul: i64, add: i64 }
const SAME: Sub = Sub { mul: 1, add: 0 };
const DOWN: Sub = Sub { mul: -1, add: TOP };

struct Job<'a> {
    w: &'a mut Worker,
    r: &'a mut Rng,
    keep: usize,
    key: (u64, u64),
}

impl Job<'_> {
    fn run<'p, P: PolygonList<'p, Vertex = Tagged>>(&mut self, kind: &'static str, list: &'p P, held: &Held, single: bool, sub: Sub)
    where P::Index: Components {
        self.key.1 += 1;
        let trace = |ev: &Vec<Value>| json!({"polys": held.json(), "single": single, "sub": {"mul": sub.mul, "add": sub.add}, "ev": ev});
        let meta = json!({"kind": kind, "polys": held.json()});
        let (t, m) = (trace(&Vec::new()), meta.clone());
        self.w.begin_raw(&None, Box::new(move || (t.clone(), m.clone())));
        let flat: Vec<(usize, Vec<i64>, usize)> = held.polys.iter().enumerate().flat_map(|(p, v)| v.iter().map(move |(k, v)| {
            let old = if single { vec![*k as i64] } else { vec![p as i64, *k as i64] };
            (p, old.into_iter().map(|c| sub.mul * c + sub.add).collect(), v.id)
        })).collect();
        let total = held.total();
        let mut ev: Vec<Value> = Vec::new();
        let mut suspicious = false;
        let mut known: Vec<P::Index> = Vec::new();
        // open iterations: (number, iterator, vertices given, separator since)
        let mut open = Vec::new();
        let mut opened = 0;
        let mut steps = 20 * (total + held.polys.len()) + 100;
        let iterations = 1 + self.r.below(4);
        let mut runs = if held.runnable { 2 } else { 0 };
        'script: while opened < iterations || !open.is_empty() {
            let action = self.r.below(20);
            match action {
                0..=3 if opened < iterations => {
                    opened += 1;
                    match catch_unwind(AssertUnwindSafe(|| list.iter_indices())) {
                        Ok(it) => {
                            open.push((opened, it, 0usize, false));
                            ev.push(json!({"e": "open", "i": opened, "r": "ok"}));
                        }
                        Err(_) => {
                            suspicious = true;
                            ev.push(json!({"e": "open", "i": opened, "r": "panic"}));
                        }
                    }
                }
                4 => match catch_unwind(AssertUnwindSafe(|| list.vertex_count())) {
                    Ok(n) => {
                        suspicious |= n != total;
                        ev.push(json!({"e": "count", "p": n.min(1 << 30), "r": "ok"}));
                    }
                    Err(_) => {
                        suspicious = true;
                        ev.push(json!({"e": "count", "p": 0, "r": "panic"}));
                    }
                },
                5 | 6 if !known.is_empty() => {
                    let k = self.r.below(known.len());
                    let x = known[k].components();
                    match catch_unwind(AssertUnwindSafe(|| list.get_vertex(known[k].clone()).id)) {
                        Ok(id) => {
                            suspicious |= !flat.iter().any(|f| f.1 == x && f.2 == id);
                            ev.push(json!({"e": "get", "x": x, "p": id, "r": "ok"}));
                        }
                        Err(_) => {
                            suspicious = true;
                            ev.push(json!({"e": "get", "x": x, "p": 0, "r": "panic"}));
                        }
                    }
                }
                7 if runs > 0 => {
                    runs -= 1;
                    let mut out: Vec<Tagged> = Vec::new();
                    let res = match catch_unwind(AssertUnwindSafe(|| list.triangulate(formats::DeindexedListFormat::new(&mut out).into_fan_format()).map(|_| ()))) {
                        Ok(Ok(())) => "ok",
                        Ok(Err(_)) => "error",
                        Err(_) => "panic",
                    };
                    suspicious |= res != "ok";
                    ev.push(json!({"e": "run", "r": res}));
                }
                8.. if !open.is_empty() => {
                    let o = self.r.below(open.len());
                    let burst = if self.r.chance(30) { usize::MAX } else { 1 + self.r.below(4) };
                    for _ in 0..burst {
                        steps -= 1;
                        if steps == 0 {
                            // an iteration which does not end
                            suspicious = true;
                            ev.push(json!({"e": "ret", "r": "endless"}));
                            break 'script;
                        }
                        let (i, it, given, cut) = &mut open[o];
                        let boundary = *given > 0 && *given < total && flat[*given - 1].0 != flat[*given].0;
                        match catch_unwind(AssertUnwindSafe(|| it.next().map(Into::into))) {
                            Ok(Some(PolygonElement::ContinuePolygon(x))) => {
                                let c = x.components();
                                suspicious |= *given >= total || flat[*given].1 != c || boundary && !*cut;
                                ev.push(json!({"e": "vertex", "i": *i, "x": c, "r": "ok"}));
                                if !suspicious {
                                    known.push(x);
                                }
                                *given += 1;
                                *cut = false;
                                steps += if *given > total { 0 } else { 1 };
                            }
                            Ok(Some(PolygonElement::NewPolygon)) => {
                                suspicious |= !(boundary || *given == 0 || *given == total);
                                ev.push(json!({"e": "sep", "i": *i, "r": "ok"}));
                                *cut = true;
                            }
                            Ok(None) => {
                                suspicious |= *given != total;
                                ev.push(json!({"e": "end", "i": *i, "r": "ok"}));
                                open.remove(o);
                                break;
                            }
                            Err(_) => {
                                suspicious = true;
                                ev.push(json!({"e": "end", "i": *i, "r": "panic"}));
                                open.remove(o);
                                break;
                            }
                        }
                        if suspicious {
                            break;
                        }
                    }
                }
                _ => (),
            }
            if suspicious {
                break;
            }
        }
        drop(open);
        self.w.end();
        self.w.tally("sessions", 1);
        self.w.tally(&format!("kind/{kind}"), 1);
        if suspicious || self.r.below(10_000) < self.keep {
            if !suspicious {
                ev.push(json!({"e": "ret", "r": "ok"}));
            }
            self.w.raw(Raw { trace: trace(&ev), meta, suspicious, size: ev.len() + total, key: self.key });
        }
    }
}

fn lists(job: &mut Job, many: bool) {
    let held = Held::new(job.r, many);
    let small = held.polys.len() < 200 && held.polys.iter().all(|p| p.len() < 200);
    let verts = held.nested();

    job.run("Vec<Vec>", &verts, &held, false, SAME);
    let list: Vec<Box<[Tagged]>> = verts.iter().map(|v| v.clone().into()).collect();
    job.run("Vec<Box<[]>>", &list, &held, false, SAME);
    let list: Box<[Rc<[Tagged]>]> = verts.iter().map(|v| v.clone().into()).collect();
    job.run("Box<[Rc<[]>]>", &list, &held, false, SAME);
    let slices: Vec<&[Tagged]> = verts.iter().map(|v| &**v).collect();
    let list: &[&[Tagged]] = &slices;
    job.run("&[&[]]", &list, &held, false, SAME);
    let list: Arc<Vec<Shelf<Tagged>>> = Arc::new(verts.iter().map(|v| { let label = v.len() % 2; Shelf { label, items: verts.iter().flatten().take(label).chain(v).copied().collect() } }).filter(|s| s.label <= s.items.len()).collect());
    let list: &[Shelf<Tagged>] = &list;
    job.run("&[Shelf]", &list, &held, false, SAME);
    if let Some(first) = verts.first() {
        let list = Shelf { label: 1, items: std::iter::once(first.clone()).chain(verts.iter().cloned()).collect() };
        job.run("Shelf<Vec>", &list, &held, false, SAME);
    }
    let list = verts.clone().index_with::<usize, u32>();
    job.run("Vec<Vec> u32", &list, &held, false, SAME);
    let list = verts.clone().index_with::<usize, Down>();
    job.run("Vec<Vec> Down", &list, &held, false, DOWN);
    let list = verts.clone().index_with::<usize, i64>().index_with::<i64, i16>();
    job.run("Vec<Vec> i64 i16", &list, &held, false, SAME);
    if small {
        let list = verts.clone().index_with::<usize, u8>();
        job.run("Vec<Vec> u8", &list, &held, false, SAME);
    }

    // a user's polygons
    let held = held.rekeyed(job.r);
    job.run("Vec<Own>", &held.own(), &held, false, SAME);
    let list: Box<[Own]> = held.own().into();
    job.run("Box<[Own]>", &list, &held, false, SAME);
    let owned = held.own();
    let list: &[Own] = &owned;
    job.run("&[Own]", &list, &held, false, SAME);
    let list = Shelf { label: 0, items: held.own() };
    job.run("Shelf<Own>", &list, &held, false, SAME);
    let list = held.own().index_with::<usize, i64>();
    job.run("Vec<Own> i64", &list, &held, false, SAME);
    let list = held.own().index_with::<usize, Down>();
    job.run("Vec<Own> Down", &list, &held, false, DOWN);

    // one polygon
    let mut held = Held::new(job.r, many);
    held.polys.truncate(1);
    if held.polys.is_empty() {
        return;
    }
    let verts = held.nested().remove(0);
    job.run("Vec", verts.as_polygon_list(), &held, true, SAME);
    let list: Rc<[Tagged]> = verts.clone().into();
    job.run("Rc<[]>", list.as_polygon_list(), &held, true, SAME);
    let list: &[Tagged] = &verts;
    job.run("&[]", list.as_polygon_list(), &held, true, SAME);
    let list = Shelf { label: 0, items: verts.clone() };
    job.run("Shelf", list.as_polygon_list(), &held, true, SAME);
    let list = Polygon::index_with::<i16>(verts.clone());
    job.run("Vec i16", &list, &held, true, SAME);
    let list = Polygon::index_with::<Down>(verts.clone());
    job.run("Vec Down", &list, &held, true, DOWN);
    let held = held.rekeyed(job.r);
    let own = held.own().remove(0);
    job.run("Own", own.as_polygon_list(), &held, true, SAME);
    let list = Polygon::index_with::<Down>(own.clone());
    job.run("Own Down", &list, &held, true, DOWN);
    let list = Polygon::index_with::<u32>(own).index_with::<u32, i64>();
    job.run("Own u32 i64", &list, &held, true, SAME);
}

fn inputs(args: &Args) {
    let ctx = Ctx::new(args.num("seed", 1), PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let keep = args.num("keep", 100) as usize;
    let scale = args.num("scale", 100) as usize;
    for (family, count) in [("few", 400), ("many", 40)] {
        ctx.parallel(family, (count * scale / 100).max(1), |i, w| {
            let mut r = Rng::new(ctx.seed, hash_of(&("inputs", family, i)));
            let mut job = Job { w, r: &mut r, keep: if family == "many" { keep / 4 } else { keep }, key: (i as u64, hash_of(&family) >> 20) };
            lists(&mut job, family == "many");
        });
    }
    ctx.write();
}

// ------------------------------------------------------------------------------------------------ very long lists

/// One iteration over a list, in stretches (LongInputTrace.tla)
#[derive(Default)]
struct Stretches {
    ev: Vec<Value>,
    /// polygons [p, c, k, l, s] which are alike
    alike: Option<[i64; 5]>,
    /// the polygon at hand
    at: Option<[i64; 5]>,
    lead: i64,
}

impl Stretches {
    fn vertex(&mut self, p: i64, k: i64) {
        match &mut self.at {
            Some([q, _, from, l, 0]) if *q == p && *from + *l == k => *l += 1,
            _ => {
                self.settle();
                self.at = Some([p, 1, k, 1, 0]);
            }
        }
    }

    fn separator(&mut self) {
        match &mut self.at {
            Some(at) => at[4] += 1,
            None => self.lead += 1,
        }
    }

    fn settle(&mut self) {
        if self.lead > 0 {
            self.ev.push(json!({"e": "lead", "n": self.lead, "r": "ok"}));
            self.lead = 0;
        }
        let Some(at) = self.at.take() else { return };
        match &mut self.alike {
            Some(a) if a[2..] == at[2..] && a[0] + a[1] == at[0] => a[1] += 1,
            _ => {
                self.release();
                self.alike = Some(at);
            }
        }
    }

    fn release(&mut self) {
        if let Some([p, c, k, l, s]) = self.alike.take() {
            self.ev.push(json!({"e": "stretch", "p": p, "c": c, "k": k, "l": l, "s": s, "r": "ok"}));
        }
    }

    fn finish(mut self, how: Value) -> Vec<Value> {
        self.settle();
        self.release();
        self.ev.push(how);
        self.ev
    }
}

fn small(n: usize) -> usize { n.min(1 << 30) }

fn present<'p, P: PolygonList<'p, Vertex = Tagged>>(w: &mut Worker, r: &mut Rng, key: (u64, u64), kind: &'static str, list: &'p P, blocks: &[(usize, usize)])
where P::Index: Components {
    let trace = { let blocks: Vec<Value> = blocks.iter().map(|b| json!({"c": b.0, "l": b.1})).collect(); move |ev: Vec<Value>| json!({"blocks": blocks, "ev": ev}) };
    let meta = json!({"kind": kind, "blocks": blocks});
    let (t, m) = (trace(Vec::new()), meta.clone());
    w.begin_raw(&None, Box::new(move || (t.clone(), m.clone())));
    let polys: usize = blocks.iter().map(|b| b.0).sum();
    let total: usize = blocks.iter().map(|b| b.0 * b.1).sum();
    let mut known: Vec<P::Index> = Vec::new();
    let mut ev = vec![json!({"e": "open", "r": "ok"})];
    let mut stretches = Stretches::default();
    let mut limit = 4 * (polys + total) + 1000;
    let mut given = 0usize;
    let end = match catch_unwind(AssertUnwindSafe(|| list.iter_indices())) {
        Err(_) => json!({"e": "end", "r": "panic"}),
        Ok(mut it) => loop {
            limit -= 1;
            if limit == 0 || stretches.ev.len() > 20_000 {
                break json!({"e": "ret", "r": "endless"});
            }
            match catch_unwind(AssertUnwindSafe(|| it.next().map(Into::into))) {
                Ok(Some(PolygonElement::ContinuePolygon(x))) => {
                    let c = x.components();
                    let (p, k) = if c.len() == 1 { (0, c[0]) } else { (c[0], c[1]) };
                    stretches.vertex(p, k);
                    let edge = |n: i64| [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 131071, 131072].contains(&n);
                    given += 1;
                    if known.len() < 300 && (edge(p) && edge(k) || r.below(total) < 40 || given == total) {
                        known.push(x);
                    }
                }
                Ok(Some(PolygonElement::NewPolygon)) => stretches.separator(),
                Ok(None) => break json!({"e": "end", "r": "ok"}),
                Err(_) => break json!({"e": "end", "r": "panic"}),
            }
        },
    };
    ev.extend(stretches.finish(end));
    ev.push(match catch_unwind(AssertUnwindSafe(|| list.vertex_count())) {
        Ok(n) => json!({"e": "count", "v": small(n), "r": "ok"}),
        Err(_) => json!({"e": "count", "v": 0, "r": "panic"}),
    });
    for x in known {
        let c = x.components();
        let (p, k) = if c.len() == 1 { (0, c[0]) } else { (c[0], c[1]) };
        ev.push(match catch_unwind(AssertUnwindSafe(|| list.get_vertex(x).id)) {
            Ok(id) => json!({"e": "get", "p": p, "k": k, "v": small(id), "r": "ok"}),
            Err(_) => json!({"e": "get", "p": p, "k": k, "v": 0, "r": "panic"}),
        });
    }
    ev.push(json!({"e": "ret", "r": "ok"}));
    w.end();
    w.tally("sessions", 1);
    w.tally("long-vertices", total as u64);
    w.tally(&format!("long/{kind}"), 1);
    let size = ev.len();
    w.raw(Raw { trace: trace(ev), meta, suspicious: false, size, key });
}

fn long(args: &Args) {
    let ctx = Ctx::new(args.num("seed", 1), PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let scale = args.num("scale", 1) as usize;
    let mut lists: Vec<Vec<(usize, usize)>> = vec![
        vec![(1, 140_000)], vec![(70_000, 3)], vec![(66_000, 0), (2, 3)], vec![(1, 3), (66_000, 1), (1, 66_000)], vec![(300, 256)], vec![(1, 2), (1, 70_000), (1, 0), (1, 70_000), (300, 4)],
        vec![(40_000, 1), (1, 5), (40_000, 2), (3, 0)], vec![(1, 300), (300, 1), (1, 0), (1, 65_536), (1, 1)],
    ];
    let mut r = Rng::new(ctx.seed, hash_of(&"long"));
    for _ in 0..4 * scale {
        let mut blocks: Vec<(usize, usize)> = Vec::new();
        let mut total = 0;
        for _ in 0..1 + r.below(5) {
            let big = [255usize, 256, 257, 1000, 32_768, 65_535, 65_536, 65_537, 100_000];
            let b = if r.chance(50) { (*r.pick(&big), r.below(4)) } else if r.chance(50) { (1 + r.below(2), *r.pick(&big)) } else { (r.below(400) + 1, r.below(400)) };
            if blocks.last().map_or(false, |l| l.1 == b.1) || total + b.0 * b.1 > 400_000 {
                continue;
            }
            total += b.0 * b.1;
            blocks.push(b);
        }
        lists.push(blocks);
    }
    ctx.parallel("long", lists.len(), |i, w| {
        let blocks = &lists[i][..];
        let mut r = Rng::new(ctx.seed, hash_of(&("long", i)));
        let mut id = 0;
        let verts: Vec<Vec<Tagged>> = blocks.iter().flat_map(|b| (0..b.0).map(|_| b.1)).map(|l| (0..l).map(|j| { id += 1; Tagged { x: j as f64, y: (j % 7) as f64, id } }).collect()).collect();
        let mut k = 0;
        macro_rules! present { ($kind:expr, $list:expr) => {{ k += 1; present(w, &mut r, (i as u64, k), $kind, $list, blocks); }} }
        present!("Vec<Vec>", &verts);
        {
            let slices: Vec<&[Tagged]> = verts.iter().map(|v| &**v).collect();
            let list: &[&[Tagged]] = &slices;
            present!("&[&[]]", &list);
        }
        {
            let list: Box<[Rc<[Tagged]>]> = verts.iter().map(|v| v.clone().into()).collect();
            present!("Box<[Rc<[]>]>", &list);
        }
        {
            let list = verts.clone().index_with::<usize, u32>();
            present!("Vec<Vec> u32", &list);
        }
        {
            let list = verts.clone().index_with::<usize, i64>().index_with::<i64, u32>();
            present!("Vec<Vec> i64 u32", &list);
        }
        {
            let list: Vec<Own> = verts.iter().map(|p| Own { keys: (0..p.len()).collect(), verts: p.iter().copied().enumerate().collect() }).collect();
            present!("Vec<Own>", &list);
            let list = list.index_with::<usize, u32>();
            present!("Vec<Own> u32", &list);
        }
        if verts.len() == 1 {
            let verts = verts.into_iter().next().unwrap();
            present!("Vec", verts.as_polygon_list());
            let list: Rc<[Tagged]> = verts.clone().into();
            present!("Rc<[]>", list.as_polygon_list());
            let list = Shelf { label: 1, items: std::iter::once(Tagged { x: 0., y: 0., id: 0 }).chain(verts.iter().copied()).collect() };
            present!("Shelf", list.as_polygon_list());
            let list = Polygon::index_with::<u32>(verts.clone());
            present!("Vec u32", &list);
            let own = Own { keys: (0..verts.len()).collect(), verts: verts.iter().copied().enumerate().collect() };
            present!("Own", own.as_polygon_list());
        }
    });
    ctx.write();
}
