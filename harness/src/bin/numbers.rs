//! The same inputs in other number formats, vertex types and places.

use std::{cmp::Ordering, ops::Neg, path::PathBuf, sync::Arc};

use num_traits::ToPrimitive;
use serde_json::json;
use triangulate::Vertex;

use harness::{explore::*, gen, geom::*, lists::*, oracle, record::*, rng::Rng, Args};

fn main() {
    harness::main(&[("numbers", numbers)]);
}

// ------------------------------------------------------------------------------------------- user number types

/// An exact fraction with a positive denominator
#[derive(Clone, Copy, Debug, PartialEq)]
struct Fraction(i128, i128);

impl Fraction {
    fn new(n: i128, d: i128) -> Self {
        let (mut a, mut b) = (n.unsigned_abs(), d.unsigned_abs());
        while b != 0 {
            (a, b) = (b, a % b);
        }
        let g = a as i128 * d.signum();
        Self(n / g, d / g)
    }
    fn int(n: i128) -> Self { Self(n, 1) }
    fn plus(self, o: Self) -> Self {
        if self.1 == o.1 { Self::new(self.0 + o.0, self.1) } else { Self::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1) }
    }
    fn times(self, o: Self) -> Self { Self::new(self.0 * o.0, self.1 * o.1) }
    fn over(self, o: Self) -> Self { Self::new(self.0 * o.1, self.1 * o.0) }
    fn whole(self) -> Self { Self(self.0.div_euclid(self.1), 1) }
}

impl Neg for Fraction { type Output = Self; fn neg(self) -> Self { Self(-self.0, self.1) } }
impl PartialOrd for Fraction {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(if self.1 == o.1 { self.0.cmp(&o.0) } else { (self.0 * o.1).cmp(&(o.0 * self.1)) })
    }
}
impl ToPrimitive for Fraction {
    fn to_i64(&self) -> Option<i64> { if self.1 == 1 { self.0.try_into().ok() } else { None } }
    fn to_u64(&self) -> Option<u64> { if self.1 == 1 { self.0.try_into().ok() } else { None } }
    fn to_f64(&self) -> Option<f64> { Some(self.0 as f64 / self.1 as f64) }
}
harness::numeric!(Fraction);

/// A user's wrapper of f64, which does not convert to primitive types
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
struct Meters(f64);

impl Meters {
    fn int(n: i128) -> Self { Self(n as f64) }
    fn plus(self, o: Self) -> Self { Self(self.0 + o.0) }
    fn times(self, o: Self) -> Self { Self(self.0 * o.0) }
    fn over(self, o: Self) -> Self { Self(self.0 / o.0) }
    fn whole(self) -> Self { Self(self.0.floor()) }
}
impl Neg for Meters { type Output = Self; fn neg(self) -> Self { Self(-self.0) } }
impl ToPrimitive for Meters {
    fn to_i64(&self) -> Option<i64> { None }
    fn to_u64(&self) -> Option<u64> { None }
    fn to_f64(&self) -> Option<f64> { None }
}
harness::numeric!(Meters);

// ------------------------------------------------------------------------------------------- user vertex types

/// Neither Clone nor Debug, with the coordinates among other data
struct Named {
    _name: String,
    north: f32,
    _weight: u8,
    east: f32,
}

impl Vertex for Named {
    type Coordinate = f32;
    fn x(&self) -> f32 { self.east }
    fn y(&self) -> f32 { self.north }
}

/// Computes its coordinates
struct Computed {
    origin: [f64; 2],
    offset: [f64; 2],
}

impl Vertex for Computed {
    type Coordinate = f64;
    fn x(&self) -> f64 { self.origin[0] + self.offset[0] }
    fn y(&self) -> f64 { self.origin[1] + self.offset[1] }
}

// ------------------------------------------------------------------------------------------- maps

#[derive(Clone, Copy, Debug)]
struct Map {
    k: i32,
    a: i64,
    t: [(i64, u32); 2],
}

#[derive(Clone, Copy)]
struct Format {
    name: &'static str,
    p: u32,
    emin: i32,
    emax: i32,
}

const F32: Format = Format { name: "f32", p: 24, emin: -149, emax: 128 };
const F64: Format = Format { name: "f64", p: 53, emin: -1074, emax: 1024 };
const WIDE: Format = Format { name: "wide", p: 60, emin: -20, emax: 80 };

fn bits(n: i64) -> u32 {
    64 - n.unsigned_abs().leading_zeros()
}

impl Map {
    fn place(&self, p: Pt) -> [i128; 2] {
        let t = |(s, e): (i64, u32)| s as i128 * (1i128 << e);
        [(p[0] + self.a * p[1]) as i128 + t(self.t[0]), p[1] as i128 + t(self.t[1])]
    }

    /// See Floats.tla
    fn bits(&self, pts: &[Pt]) -> (u32, u32) {
        let q: Vec<Pt> = pts.iter().map(|p| [p[0] + self.a * p[1], p[1]]).collect();
        let d = (0..2).map(|i| bits(q.iter().map(|p| p[i]).max().unwrap() - q.iter().map(|p| p[i]).min().unwrap())).max().unwrap();
        let c = |i: usize| {
            let c = q.iter().map(|p| bits(p[i])).max().unwrap();
            let (s, e) = self.t[i];
            if s == 0 { c } else if c <= e { e + 1 } else { c + 1 }
        };
        (d, c(0).max(c(1)))
    }

    fn exact(&self, f: Format, pts: &[Pt]) -> bool {
        let (d, c) = self.bits(pts);
        c <= f.p && 2 * d <= f.p && self.k >= f.emin && 2 * self.k >= f.emin && self.k + c as i32 <= f.emax && 2 * (self.k + d as i32) <= f.emax
    }

    fn random(r: &mut Rng, f: Format, pts: &[Pt]) -> Option<Self> {
        let plain = Map { k: 0, a: 0, t: [(0, 0); 2] };
        if !plain.exact(f, pts) {
            return None;
        }
        let kind = r.below(10);
        for _ in 0..60 {
            let mut m = plain;
            if r.below(3) == 0 {
                // TLC's integers
                m.a = (1 << r.below(24)) + r.below(8) as i64;
                if r.below(2) == 0 { m.a = -m.a }
                if bits(m.a) + pts.iter().map(|p| bits(p[1])).max().unwrap() > 28 { continue }
            }
            for t in &mut m.t {
                if r.below(3) == 0 {
                    *t = (if r.below(2) == 0 { 1 } else { -1 }, if r.below(2) == 0 { f.p - 1 - r.below(2) as u32 } else { r.below(f.p as usize) as u32 });
                }
            }
            m.k = match kind {
                0..=2 => 0,
                3..=4 => -(f.emin.abs() / 2 - r.below(4) as i32),
                5..=6 => f.emax / 2 - r.below(40.min(f.emax as usize / 2)) as i32,
                _ => f.emin / 2 + r.below((f.emax - f.emin) as usize / 2) as i32,
            };
            if m.exact(f, pts) {
                return Some(m);
            }
        }
        Some(plain)
    }
}

fn power(k: i32) -> f64 {
    // exact
    f64::from_bits(((1023 + k) as u64) << 52)
}

// ------------------------------------------------------------------------------------------- the workload

#[derive(Clone, Copy, Debug, PartialEq)]
enum Container { Flat, Single, Nested }

fn execute<V: Vertex + 'static>(input: &Input, vertex: impl Fn(Pt) -> V, container: Container, mode: Mode) -> Vec<Event> {
    let n = input.n();
    match container {
        Container::Flat => run_list(&Flat::new(input, vertex), n, &flat_id(input.pts.len()), mode, None),
        Container::Nested => run_list(&nested(input, vertex), n, &nested_id(input), mode, None),
        Container::Single => {
            let v: Vec<V> = input.rings[0].iter().map(|&i| vertex(input.pts[i])).collect();
            let ring = input.rings[0].clone();
            let id = move |i: &usize| ring.get(*i).map_or(0, |&i| i as u32 + 1);
            run_list(triangulate::Polygon::as_polygon_list(&v), n, &id, mode, None)
        }
    }
}

const KINDS: [(&str, Format); 10] = [("f32-array", F32), ("f32-pair", F32), ("f32-named", F32), ("f64-array", F64), ("f64-pair", F64), ("f64-computed", F64), ("meters-array", F64), ("meters-pair", F64), ("fraction-array", WIDE), ("fraction-pair", WIDE)];

/// `zeros`: a hash deciding which zeros are negative
fn run_kind(kind: &str, input: &Input, map: Map, zeros: u64, container: Container, mode: Mode) -> Vec<Event> {
    let f64s = |p: Pt| {
        let q = map.place(p);
        let mut c = [0.0; 2];
        for i in 0..2 {
            c[i] = q[i] as f64 * power(map.k);
            assert!(q[i] as f64 as i128 == q[i] && c[i] / power(map.k) == q[i] as f64);
            if q[i] == 0 && hash_of(&(zeros, p, i)) & 1 == 1 {
                c[i] = -0.0;
            }
        }
        c
    };
    let f32s = |p: Pt| {
        let c = f64s(p);
        let d = [c[0] as f32, c[1] as f32];
        assert!(d[0] as f64 == c[0] && d[1] as f64 == c[1]);
        d
    };
    let fractions = |p: Pt| {
        let f = |n: i128| if map.k >= 0 { Fraction::new(n << map.k, 1) } else { Fraction::new(n, 1 << -map.k) };
        map.place(p).map(f)
    };
    match kind {
        "f32-array" => execute(input, f32s, container, mode),
        "f32-pair" => execute(input, |p| { let c = f32s(p); (c[0], c[1]) }, container, mode),
        "f32-named" => execute(input, |p| { let c = f32s(p); Named { _name: "a".into(), north: c[1], _weight: 3, east: c[0] } }, container, mode),
        "f64-array" => execute(input, f64s, container, mode),
        "f64-pair" => execute(input, |p| { let c = f64s(p); (c[0], c[1]) }, container, mode),
        "f64-computed" => execute(input, |p| {
            let c = f64s(p);
            let q = f64s(input.pts[0]);
            Computed { origin: q, offset: [c[0] - q[0], c[1] - q[1]] }
        }, container, mode),
        "meters-array" => execute(input, |p| f64s(p).map(Meters), container, mode),
        "meters-pair" => execute(input, |p| { let c = f64s(p); (Meters(c[0]), Meters(c[1])) }, container, mode),
        "fraction-array" => execute(input, fractions, container, mode),
        _ => execute(input, |p| { let c = fractions(p); (c[0], c[1]) }, container, mode),
    }
}

/// A small polygon set under a unimodular map with large entries: near-degenerate, yet exact
fn needle(r: &mut Rng, max: i64) -> Option<Input> {
    let mut rings = match r.below(3) {
        0 => { let n = 5 + r.below(8); vec![gen::two_opt(r, n, 5, 5)?] }
        1 => gen::polyomino(r, 3, 3, r.0 & 1 == 0)?,
        _ => gen::family("small", r)?.ring_points(),
    };
    let extent = rings.iter().flatten().flatten().map(|c| c.abs()).max()?.max(1);
    let mut m = [1i64, 0, 0, 1];
    loop {
        let s = 1 + r.below(3) as i64;
        let s = if r.below(4) == 0 { -s } else { s };
        let next = if r.below(2) == 0 { [m[0] + s * m[2], m[1] + s * m[3], m[2], m[3]] } else { [m[0], m[1], m[2] + s * m[0], m[3] + s * m[1]] };
        if next.iter().any(|c| 2 * c.abs() * extent > max) {
            break;
        }
        m = next;
    }
    for p in rings.iter_mut().flatten() {
        *p = [m[0] * p[0] + m[1] * p[1], m[2] * p[0] + m[3] * p[1]];
    }
    gen::relist(r, &mut rings);
    let input = Input::from_rings(&rings);
    valid(&input).then_some(input)
}

fn numbers(args: &Args) {
    let seed = args.num("seed", 1);
    let scale = args.num("scale", 100) as usize;
    let keep = args.num("keep", 100) as usize;
    let ctx = Ctx::new(seed, PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    for (family, count) in [("needle", 3000), ("small", 1500), ("collinear", 800), ("polyc", 500), ("medium", 400), ("shape", 400), ("multi", 500), ("nest", 400)] {
        let stream = hash_of(&("numbers", family));
        ctx.parallel(family, (count * scale / 100).max(1), |i, w| {
            let mut r = Rng::new(seed, stream ^ (i as u64) << 1);
            let input = if family == "needle" { let max = *r.pick(&[500, 1500, 4000, 12000]); needle(&mut r, max) } else { gen::family(family, &mut r) };
            let Some(mut input) = input else { return };
            if input.n() > 200 {
                return;
            }
            // somewhere around the origin, so that there are zeros
            let o = input.pts[r.below(input.pts.len())];
            if r.below(2) == 0 {
                for p in &mut input.pts {
                    *p = [p[0] - o[0], p[1] - o[1]];
                }
            }
            let input = Arc::new(input);
            w.tally(&format!("inputs/{family}"), 1);
            let show = r.below(KINDS.len() * 1000 / keep.max(1) + 1);
            for (j, (kind, format)) in KINDS.into_iter().enumerate() {
                for rep in 0..3 {
                    let Some(map) = Map::random(&mut r, format, &input.pts) else { continue };
                    let container = match r.below(3) {
                        0 if input.rings.len() == 1 => Container::Single,
                        1 => Container::Nested,
                        _ => Container::Flat,
                    };
                    let order: Orders = orders(&input, &mut r, 1, 1).next().unwrap();
                    let mode = Mode { list: r.below(4) == 0, cw: r.below(4) == 0, reversals: 0, one_step: r.below(2) == 0 };
                    let zeros = r.next();
                    let meta = json!({"family": family, "pts": input.pts, "rings": input.rings, "orders": order, "mode": mode.text(), "kind": kind, "map": format!("{map:?}"), "container": format!("{container:?}"), "zeros": zeros});
                    let base = json!({"pts": input.pts, "rings": one_based(&input.rings), "winding": if mode.clockwise() { "cw" } else { "ccw" }, "reject": "none",
                        "format": format.name, "map": {"k": map.k, "a": map.a, "tx": [map.t[0].0, map.t[0].1], "ty": [map.t[1].0, map.t[1].1]}, "ev": []});
                    {
                        let (b, m) = (base.clone(), meta.clone());
                        w.begin_raw(&order, Box::new(move || (b.clone(), m.clone())));
                    }
                    let ev = run_kind(kind, &input, map, zeros, container, mode);
                    w.end();
                    w.tally("runs", 1);
                    w.tally(&format!("runs/{kind}"), 1);
                    let suspicious = !oracle::broken(&input, mode.clockwise(), Res::Ok, &ev).is_empty();
                    if suspicious || (show == j && rep == i % 3) {
                        let mut trace = base;
                        trace["ev"] = events_json(&ev);
                        w.raw(Raw { trace, meta, suspicious, size: input.n(), key: (i as u64, stream ^ (3 * j + rep) as u64) });
                    }
                }
            }
        });
    }
    ctx.write();
}
