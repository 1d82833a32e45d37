//! Index types: the indices a builder receives, as they are, for built-in containers, custom lists and substitutions.

use std::{cell::RefCell, convert::{TryFrom, TryInto}, fmt::Debug, panic::{catch_unwind, AssertUnwindSafe}, path::PathBuf, rc::Rc, sync::Arc};

use serde_json::{json, Value};
use triangulate::{Polygon, PolygonElement, PolygonList};

use harness::{explore::*, gen, geom::*, oracle, record::*, rng::Rng, Args};

fn main() {
    harness::main(&[("index", index)]);
}

// ------------------------------------------------------------------------------------------------ indices as components

trait Components {
    fn components(&self) -> Vec<i128>;
}

macro_rules! plain {
    ($($t:ty)*) => { $(impl Components for $t { fn components(&self) -> Vec<i128> { vec![*self as i128] } })* };
}

plain!(u8 i8 u16 i16 u32 i32 u64 i64 usize i128);

impl<T: Components, const N: usize> Components for [T; N] {
    fn components(&self) -> Vec<i128> { self.iter().flat_map(|c| c.components()).collect() }
}
impl<T: Components> Components for Vec<T> {
    fn components(&self) -> Vec<i128> { self.iter().flat_map(|c| c.components()).collect() }
}
impl<T: Components> Components for (T, T) {
    fn components(&self) -> Vec<i128> { [&self.0, &self.1].iter().flat_map(|c| c.components()).collect() }
}
impl<T: Components> Components for (T, T, T) {
    fn components(&self) -> Vec<i128> { [&self.0, &self.1, &self.2].iter().flat_map(|c| c.components()).collect() }
}
impl Components for String {
    fn components(&self) -> Vec<i128> { self.chars().map(|c| c as i128).collect() }
}
impl Components for char {
    fn components(&self) -> Vec<i128> { vec![*self as i128] }
}

/// Not a number, not ordered, not hashable
#[derive(Clone, PartialEq, Eq, Debug)]
enum Name {
    Root,
    Child(Rc<Name>, u8),
}

impl Components for Name {
    fn components(&self) -> Vec<i128> {
        match self {
            Name::Root => vec![-1],
            Name::Child(p, k) => { let mut v = p.components(); v.push(*k as i128); v }
        }
    }
}

/// Converts from and to usize with holes: see `Indices.tla`
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Picky(i64);

const PICKY_REFUSED: i64 = 5;
const PICKY_BACK: i64 = 15;

// new = 2 * old + 1; refuses 5 on the way there, and 15 (7) on the way back
impl TryFrom<usize> for Picky {
    type Error = ();
    fn try_from(i: usize) -> Result<Self, ()> {
        if i as i64 == PICKY_REFUSED { Err(()) } else { Ok(Picky(2 * i as i64 + 1)) }
    }
}

impl TryFrom<Picky> for usize {
    type Error = ();
    fn try_from(i: Picky) -> Result<Self, ()> {
        if i.0 == PICKY_BACK || i.0 < 1 || i.0 % 2 == 0 { Err(()) } else { Ok(((i.0 - 1) / 2) as usize) }
    }
}

impl Components for Picky {
    fn components(&self) -> Vec<i128> { vec![self.0 as i128] }
}

/// Counts down: new = 40 - old, never negative
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Down(u32);

impl TryFrom<usize> for Down {
    type Error = String;
    fn try_from(i: usize) -> Result<Self, String> {
        40usize.checked_sub(i).map(|d| Down(d as u32)).ok_or_else(|| "too large".into())
    }
}

impl TryFrom<Down> for usize {
    type Error = &'static str;
    fn try_from(i: Down) -> Result<Self, &'static str> {
        40usize.checked_sub(i.0 as usize).ok_or("too large")
    }
}

impl Components for Down {
    fn components(&self) -> Vec<i128> { vec![self.0 as i128] }
}

/// A whole [ring, vertex] index, converted in one piece: new components are old ones + 1
#[derive(Clone, PartialEq, Eq, Debug)]
struct Corner { ring: u16, vertex: u16 }

impl TryFrom<[usize; 2]> for Corner {
    type Error = ();
    fn try_from([a, b]: [usize; 2]) -> Result<Self, ()> {
        Ok(Corner { ring: (a + 1).try_into().map_err(|_| ())?, vertex: (b + 1).try_into().map_err(|_| ())? })
    }
}

impl TryFrom<Corner> for [usize; 2] {
    type Error = ();
    fn try_from(c: Corner) -> Result<Self, ()> {
        Ok([(c.ring as usize).checked_sub(1).ok_or(())?, (c.vertex as usize).checked_sub(1).ok_or(())?])
    }
}

impl Components for Corner {
    fn components(&self) -> Vec<i128> { vec![self.ring as i128, self.vertex as i128] }
}

/// A custom list: vertices under arbitrary keys
struct Keyed<I> {
    verts: Vec<[f64; 2]>,
    keys: Vec<I>,
    stream: Vec<Option<usize>>,
}

impl<I> Keyed<I> {
    fn new(input: &Input, key: impl Fn(usize) -> I) -> Self {
        let mut stream = Vec::new();
        for (k, r) in input.rings.iter().enumerate() {
            if k > 0 {
                stream.push(None);
            }
            stream.extend(r.iter().map(|&i| Some(i)));
        }
        Self { verts: input.pts.iter().map(|p| [p[0] as f64, p[1] as f64]).collect(), keys: (0..input.pts.len()).map(key).collect(), stream }
    }
}

impl<'p, I: Clone + Eq + Debug + 'p> PolygonList<'p> for Keyed<I> {
    type Vertex = [f64; 2];
    type Index = I;
    type IntoItem = Option<I>;
    type Iter<'i> = std::vec::IntoIter<Option<I>>
    where Self: 'i, [f64; 2]: 'i, 'p: 'i;

    fn vertex_count(&self) -> usize {
        self.verts.len()
    }

    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where Self: 'i, [f64; 2]: 'i, 'p: 'i {
        self.stream.iter().map(|i| i.map(|i| self.keys[i].clone())).collect::<Vec<_>>().into_iter()
    }

    fn get_vertex<'a>(&'a self, index: I) -> &'a [f64; 2]
    where 'p: 'a {
        &self.verts[self.keys.iter().position(|k| *k == index).expect("unknown key")]
    }
}

/// A custom polygon: vertices under numbers of its own
struct Ring { keys: Vec<usize>, verts: Vec<[f64; 2]> }

impl<'p> Polygon<'p> for Ring {
    type Vertex = [f64; 2];
    type Index = usize;
    type Iter<'i> = std::iter::Copied<std::slice::Iter<'i, usize>>
    where Self: 'i, [f64; 2]: 'i, 'p: 'i;

    fn vertex_count(&self) -> usize {
        self.keys.len()
    }

    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where Self: 'i, [f64; 2]: 'i, 'p: 'i {
        self.keys.iter().copied()
    }

    fn get_vertex(&self, index: usize) -> &[f64; 2] {
        &self.verts[self.keys.iter().position(|k| *k == index).expect("unknown key")]
    }
}

// ------------------------------------------------------------------------------------------------ one case

/// A substitution, as in Indices.tla
#[derive(Clone)]
struct Sub { mul: i128, add: i128, lo: i128, hi: i128, refused: Vec<i128>, least: i128, back: Vec<i128> }

impl Sub {
    const NONE: Sub = Sub { mul: 1, add: 0, lo: i128::MIN, hi: i128::MAX, refused: Vec::new(), least: i128::MIN, back: Vec::new() };

    fn into(lo: impl Into<i128>, hi: impl Into<i128>) -> Sub {
        Sub { lo: lo.into(), hi: hi.into(), ..Sub::NONE }
    }

    /// The old type is unsigned
    fn unsigned(self) -> Sub {
        Sub { least: 0, ..self }
    }

    fn new(&self, c: i128) -> i128 {
        self.mul * c + self.add
    }

    fn forth(&self, c: i128) -> bool {
        !self.refused.contains(&c) && self.lo <= self.new(c) && self.new(c) <= self.hi
    }

    fn back(&self, d: i128) -> bool {
        let c = if self.mul == -1 { self.add - d } else { (d - self.add).div_euclid(self.mul) };
        !self.back.contains(&d) && self.new(c) == d && c >= self.least
    }

    fn json(&self, base: i128) -> Value {
        // TLC's integers have 32 bits: everything is taken relative to `base`, and far limits are clamped
        let c = |x: i128| x.saturating_sub(base).clamp(-2_000_000_000, 2_000_000_000) as i64;
        let s = |v: &Vec<i128>| v.iter().map(|x| c(*x)).collect::<Vec<_>>();
        json!({"mul": self.mul as i64, "add": self.add as i64, "lo": c(self.lo), "hi": c(self.hi), "refused": s(&self.refused), "least": c(self.least), "back": s(&self.back)})
    }
}

struct Job<'a> {
    w: &'a mut Worker,
    r: &'a mut Rng,
    family: &'static str,
    kind: &'static str,
    key: (u64, u64),
    input: &'a Arc<Input>,
    keep: usize,
    serial: u64,
}

impl Job<'_> {
    /// `orig`: the components of each vertex's original index. `foreign`: indices the list does not have, or which do not convert back.
    fn run<'p, P: PolygonList<'p, Vertex = [f64; 2]>>(&mut self, kind: &'static str, list: &'p P, orig: Vec<Vec<i128>>, sub: Sub, foreign: Vec<P::Index>)
    where P::Index: Components {
        let base = if sub.mul == 1 && sub.add == 0 { orig.iter().flatten().find(|c| c.abs() > 1 << 20).copied().unwrap_or(0) } else { 0 };
        let rel = |v: &[i128]| v.iter().map(|c| (c - base) as i64).collect::<Vec<i64>>();
        let usable = orig.iter().flatten().all(|&c| sub.forth(c) && sub.back(sub.new(c)));
        let expected: Vec<Vec<i128>> = orig.iter().map(|v| v.iter().map(|&c| sub.new(c)).collect()).collect();
        let vertex = |i: &[i128]| expected.iter().position(|e| e == i);
        self.kind = kind;
        self.serial += 1;
        let modes = Mode::all();
        let mode = *self.r.pick(&modes);
        let input = self.input.clone();
        let n = input.n();
        let orders: Orders = if self.r.chance(70) { Some(input.rings.iter().map(|ring| self.r.perm(ring.len())).collect()) } else { None };

        let trace = |ev: Value| json!({
            "pts": input.pts, "rings": one_based(&input.rings), "winding": if mode.clockwise() { "cw" } else { "ccw" },
            "orig": orig.iter().map(|o| rel(o)).collect::<Vec<_>>(), "sub": sub.json(base), "ev": ev,
        });
        let meta = json!({"family": self.family, "kind": kind, "pts": input.pts, "rings": input.rings, "orders": orders, "mode": mode.text()});
        let (t, m) = (trace(json!([])), meta.clone());
        self.w.begin_raw(&orders, Box::new(move || (t.clone(), m.clone())));

        let mut ev = Vec::new();
        let mut suspicious = false;

        // the list itself
        let yielded = catch_unwind(AssertUnwindSafe(|| list.iter_indices().map(|e| match e.into() {
            PolygonElement::ContinuePolygon(i) => Some(i),
            PolygonElement::NewPolygon => None,
        }).collect::<Vec<Option<P::Index>>>()));
        let got: Vec<Option<P::Index>> = match yielded {
            Ok(v) => {
                ev.push(json!({"e": "yield", "v": v.iter().map(|i| i.as_ref().map_or(Vec::new(), |i| rel(&i.components()))).collect::<Vec<_>>(), "r": "ok"}));
                let rings: Vec<Vec<Option<usize>>> = v.split(Option::is_none).filter(|r| !r.is_empty()).map(|r| r.iter().flatten().map(|i| vertex(&i.components())).collect()).collect();
                let want: Vec<Vec<Option<usize>>> = input.rings.iter().map(|r| r.iter().map(|&i| Some(i)).collect()).collect();
                suspicious |= usable && rings != want;
                v
            }
            Err(_) => {
                ev.push(json!({"e": "yield", "v": [], "r": "panic"}));
                suspicious |= usable;
                Vec::new()
            }
        };
        let own: Vec<P::Index> = got.into_iter().flatten().collect();
        let many = own.len() > 40;
        for i in own.into_iter().filter(|_| !many || self.r.chance(10)).chain(foreign) {
            let c = i.components();
            let p = catch_unwind(AssertUnwindSafe(|| *list.get_vertex(i)));
            let (point, res) = match &p {
                Ok(p) => (vec![p[0] as i64, p[1] as i64], "ok"),
                Err(_) => (vec![], "panic"),
            };
            suspicious |= match vertex(&c) {
                Some(v) if c.iter().all(|&d| sub.back(d)) => point != input.pts[v],
                _ => res != "panic",
            };
            ev.push(json!({"e": "get", "v": rel(&c), "p": point, "r": res}));
            self.w.tally("lookups", 1);
        }

        // a run
        let table: RefCell<Vec<Vec<i128>>> = RefCell::new(Vec::new());
        let id = |i: &P::Index| {
            let c = i.components();
            let mut t = table.borrow_mut();
            let k = t.iter().position(|x| *x == c).unwrap_or_else(|| { t.push(c); t.len() - 1 });
            k as u32 + 1
        };
        let events = run_list(list, n, &id, mode, None);
        self.w.end();
        let table = table.into_inner();
        if usable {
            let translated: Vec<Event> = events.iter().map(|e| Event { v: e.v.map(|k| if k == 0 { 0 } else { vertex(&table[k as usize - 1]).map_or(0, |v| v as u32 + 1) }), ..*e }).collect();
            suspicious |= !oracle::broken(&input, mode.clockwise(), Res::Ok, &translated).is_empty();
            self.w.tally("runs-usable", 1);
        } else {
            suspicious |= events.last().unwrap().res != Res::Panic || table.iter().any(|c| vertex(c).is_none());
            self.w.tally("runs-refused", 1);
        }
        for e in &events {
            let v: Vec<Vec<i64>> = match e.op {
                Op::Initialize | Op::NewFan | Op::AddTriangle => e.v.iter().map(|&k| rel(&table[k as usize - 1])).collect(),
                Op::ExtendFan => vec![rel(&table[e.v[0] as usize - 1])],
                _ => vec![],
            };
            ev.push(json!({"e": e.op.text(), "v": v, "r": e.res.text()}));
        }
        self.w.tally(&format!("kind/{kind}"), 1);
        if suspicious || self.r.below(1000) < self.keep / if n > 60 { 8 } else { 1 } {
            self.w.raw(Raw { trace: trace(json!(ev)), meta, suspicious, size: n, key: (self.key.0, self.key.1 + self.serial) });
        }
    }
}

// ------------------------------------------------------------------------------------------------ the lists

fn built_in(job: &mut Job) {
    let input = job.input.clone();
    let verts: Vec<Vec<[f64; 2]>> = input.rings.iter().map(|r| r.iter().map(|&i| [input.pts[i][0] as f64, input.pts[i][1] as f64]).collect()).collect();
    // vertex -> [ring, place]
    let mut place = vec![vec![0i128; 2]; input.pts.len()];
    for (a, r) in input.rings.iter().enumerate() {
        for (b, &i) in r.iter().enumerate() {
            place[i] = vec![a as i128, b as i128];
        }
    }
    let nr = verts.len();
    let outside = vec![[0, verts[0].len()], [nr, 0], [nr - 1, verts[nr - 1].len()], [usize::MAX, 0], [0, usize::MAX]];
    let pairs = || place.clone();

    job.run("Vec<Vec>", &verts, pairs(), Sub::NONE, outside.clone());
    let slices: Vec<&[[f64; 2]]> = verts.iter().map(|r| &r[..]).collect();
    job.run("Vec<&[]>", &slices, pairs(), Sub::NONE, outside.clone());
    let whole: &[&[[f64; 2]]] = &slices;
    job.run("&[&[]]", &whole, pairs(), Sub::NONE, outside.clone());
    let boxed: Box<[Box<[[f64; 2]]>]> = verts.iter().map(|r| r.clone().into_boxed_slice()).collect();
    job.run("Box<[Box<[]>]>", &boxed, pairs(), Sub::NONE, outside.clone());
    let rc: Rc<[Vec<[f64; 2]>]> = verts.clone().into();
    job.run("Rc<[Vec]>", &rc, pairs(), Sub::NONE, outside);

    macro_rules! pairs_into {
        ($($t:ty)*) => { $({
            let list = verts.clone().index_with::<usize, $t>();
            let last = verts[nr - 1].len();
            let foreign: Vec<[$t; 2]> = [[0i128, verts[0].len() as i128], [nr as i128, 0], [nr as i128 - 1, last as i128], [-1, 0], [0, -1]].iter()
                .filter_map(|[a, b]| Some([<$t>::try_from(*a).ok()?, <$t>::try_from(*b).ok()?])).collect();
            job.run(concat!("Vec<Vec> ", stringify!($t)), &list, pairs(), Sub::into(<$t>::MIN as i128, <$t>::MAX as i128).unsigned(), foreign);
        })* };
    }
    pairs_into!(u8 i8 u16 u32 i64);
    let picky = Sub { mul: 2, add: 1, lo: i128::MIN, hi: i128::MAX, refused: vec![PICKY_REFUSED as i128], least: 0, back: vec![PICKY_BACK as i128] };
    let down = Sub { mul: -1, add: 40, lo: 0, hi: 40, refused: vec![], least: 0, back: vec![] };
    {
        let list = verts.clone().index_with::<usize, Picky>();
        job.run("Vec<Vec> Picky", &list, pairs(), picky.clone(), vec![[Picky(0), Picky(1)], [Picky(1), Picky(2)], [Picky(-1), Picky(1)], [Picky(1), Picky(PICKY_BACK)]]);
        let list = verts.clone().index_with::<usize, Down>();
        job.run("Vec<Vec> Down", &list, pairs(), down.clone(), vec![[Down(41), Down(40)], [Down(40), Down(41)]]);
        let list = verts.clone().index_with::<[usize; 2], Corner>();
        job.run("Vec<Vec> Corner", &list, pairs(), Sub { mul: 1, add: 1, lo: 1, hi: 65535, refused: vec![], least: 0, back: vec![] },
            vec![Corner { ring: 0, vertex: 1 }, Corner { ring: 1, vertex: 0 }]);
        // twice
        let list = verts.clone().index_with::<usize, u16>().index_with::<u16, u8>();
        job.run("Vec<Vec> u16 u8", &list, pairs(), Sub::into(0, 255).unsigned(), vec![]);
        let list = verts.clone().index_with::<usize, i64>().index_with::<i64, usize>();
        job.run("Vec<Vec> i64 usize", &list, pairs(), Sub::into(0, i64::MAX as i128).unsigned(), vec![]);
    }

    if nr == 1 {
        let single: Vec<[f64; 2]> = verts[0].clone();
        let n = single.len();
        let mut orig = vec![vec![0i128]; n];
        for (b, &i) in input.rings[0].iter().enumerate() {
            orig[i] = vec![b as i128];
        }
        let plain = || orig.clone();
        job.run("Vec", single.as_polygon_list(), plain(), Sub::NONE, vec![n, n + 1, usize::MAX]);
        let slice: &[[f64; 2]] = &single;
        job.run("&[]", slice.as_polygon_list(), plain(), Sub::NONE, vec![n, usize::MAX]);
        let arc: Arc<[[f64; 2]]> = single.clone().into();
        job.run("Arc<[]>", arc.as_polygon_list(), plain(), Sub::NONE, vec![n, usize::MAX]);
        macro_rules! plain_into {
            ($($t:ty)*) => { $({
                let list = Polygon::index_with::<$t>(single.clone());
                let foreign: Vec<$t> = [n as i128, n as i128 + 1, -1, -128].iter().filter_map(|a| <$t>::try_from(*a).ok()).collect();
                job.run(concat!("Vec ", stringify!($t)), &list, plain(), Sub::into(<$t>::MIN as i128, <$t>::MAX as i128).unsigned(), foreign);
            })* };
        }
        plain_into!(u8 i8 u16 i16 u32 i32 u64 i64);
        let list = Polygon::index_with::<Picky>(single.clone());
        job.run("Vec Picky", &list, plain(), picky, vec![Picky(0), Picky(2), Picky(-1), Picky(PICKY_BACK)]);
        let list = Polygon::index_with::<Down>(single.clone());
        job.run("Vec Down", &list, plain(), down, vec![Down(41), Down(100)]);
        let list = Polygon::index_with::<u8>(single.clone()).index_with::<u8, u32>();
        job.run("Vec u8 u32", &list, plain(), Sub::into(0, 255).unsigned(), vec![]);
    }
}

fn custom(job: &mut Job) {
    let input = job.input.clone();
    let n = input.pts.len();
    let shuffled = job.r.perm(n);
    // a sparse, unordered, possibly huge numbering
    let step = 1 + job.r.below(9) as i64;
    let limits: [i64; 12] = [0, -60, 120, 128 - n as i64, 127 - n as i64, 256 - n as i64, 257 - n as i64, 65536 - n as i64, 65537 - n as i64, (1 << 31) - n as i64, (1 << 32) - n as i64, (1 << 32) - 1];
    let start = *job.r.pick(&limits);
    let number = |i: usize| start + if start.abs() < 1000 { 1 } else { step } * shuffled[i] as i64;
    let orig = |f: &dyn Fn(usize) -> Vec<i128>| (0..n).map(f).collect::<Vec<_>>();
    let numbers = || orig(&|i| vec![number(i) as i128]);

    job.run("keyed i64", &Keyed::new(&input, number), numbers(), Sub::NONE, vec![]);
    macro_rules! numbers_into {
        ($($t:ty)*) => { $({
            let list = Keyed::new(&input, number).index_with::<i64, $t>();
            job.run(concat!("keyed i64 ", stringify!($t)), &list, numbers(), Sub { least: i64::MIN as i128, ..Sub::into(<$t>::MIN as i128, <$t>::MAX as i128) }, vec![]);
        })* };
    }
    numbers_into!(u8 i8 u16 i16 u32 i32 u64 usize);

    let text = |i: usize| format!("v{}-{}", shuffled[i] % 3, "x".repeat(shuffled[i] / 3));
    job.run("keyed String", &Keyed::new(&input, text), orig(&|i| text(i).components()), Sub::NONE, vec![]);
    let name = |i: usize| Name::Child(Rc::new(if shuffled[i] % 2 == 0 { Name::Root } else { Name::Child(Rc::new(Name::Root), (shuffled[i] / 100) as u8) }), (shuffled[i] / 2) as u8);
    if n <= 200 {
        job.run("keyed Name", &Keyed::new(&input, name), orig(&|i| name(i).components()), Sub::NONE, vec![]);
    }

    // polygons of the user's own, in a container
    let key = |i: usize| shuffled[i] / 2 * 2 + 7 - shuffled[i] % 2;
    let rings = || input.rings.iter().map(|r| Ring { keys: r.iter().map(|&i| key(i)).collect(), verts: r.iter().map(|&i| [input.pts[i][0] as f64, input.pts[i][1] as f64]).collect() }).collect::<Vec<_>>();
    let ring_of = |i: usize| input.rings.iter().position(|r| r.contains(&i)).unwrap() as i128;
    let nested = || orig(&|i| vec![ring_of(i), key(i) as i128]);
    job.run("Vec<Ring>", &rings(), nested(), Sub::NONE, vec![[input.rings.len(), 7], [0, usize::MAX]]);
    let list = rings().index_with::<usize, u8>();
    job.run("Vec<Ring> u8", &list, nested(), Sub::into(0, 255).unsigned(), vec![]);
    if input.rings.len() == 1 {
        let ring = rings().remove(0);
        job.run("Ring", ring.as_polygon_list(), orig(&|i| vec![key(i) as i128]), Sub::NONE, vec![usize::MAX]);
        let list = Polygon::index_with::<i8>(ring);
        job.run("Ring i8", &list, orig(&|i| vec![key(i) as i128]), Sub::into(-128, 127).unsigned(), vec![]);
    }

    // compound indices; the odd component may be too large for the new type
    let odd = if job.r.chance(50) { 256 } else { 100 };
    let split = |i: usize| { let k = shuffled[i]; if k == 0 { [odd, 1, 2] } else { [k % 5, k / 5 % 5, k / 25] } };
    let turned = job.r.below(3);
    let three = |i: usize| { let s = split(i); [s[turned % 3], s[(turned + 1) % 3], s[(turned + 2) % 3]] };
    let threes = || orig(&|i| three(i).components());
    let two = |i: usize| { let k = shuffled[i]; let p = if k == 0 { (odd, 3) } else { (k % 7, k / 7) }; if turned == 0 { p } else { (p.1, p.0) } };
    let twos = || orig(&|i| two(i).components());
    let byte = Sub::into(0, 255).unsigned();
    job.run("keyed [;3]", &Keyed::new(&input, three), threes(), Sub::NONE, vec![]);
    let list = Keyed::new(&input, three).index_with::<usize, u8>();
    job.run("keyed [;3] u8", &list, threes(), byte.clone(), vec![]);
    let tuple3 = |i: usize| { let [a, b, c] = three(i); (a, b, c) };
    job.run("keyed (;3)", &Keyed::new(&input, tuple3), threes(), Sub::NONE, vec![]);
    let list = Keyed::new(&input, tuple3).index_with::<usize, u8>();
    job.run("keyed (;3) u8", &list, threes(), byte.clone(), vec![]);
    job.run("keyed (;2)", &Keyed::new(&input, two), twos(), Sub::NONE, vec![]);
    let list = Keyed::new(&input, two).index_with::<usize, u8>();
    job.run("keyed (;2) u8", &list, twos(), byte.clone(), vec![]);
    // of different lengths
    let varied = |i: usize| { let k = shuffled[i]; if k == 0 { vec![odd, 0] } else { (0..=k % 4).map(|j| (k / 4 + j * 3) % 200).chain([k % 251]).collect::<Vec<usize>>() } };
    let distinct = (0..n).all(|i| (0..i).all(|j| varied(i) != varied(j)));
    if distinct {
        job.run("keyed Vec", &Keyed::new(&input, varied), orig(&|i| varied(i).components()), Sub::NONE, vec![]);
        let list = Keyed::new(&input, varied).index_with::<usize, u8>();
        job.run("keyed Vec u8", &list, orig(&|i| varied(i).components()), byte.clone(), vec![]);
    }
    // characters: u32 -> char refuses surrogates
    let letter = |i: usize| 0xD7FFu32 - n as u32 / 2 + shuffled[i] as u32;
    let list = Keyed::new(&input, letter).index_with::<u32, char>();
    let surrogates: Vec<i128> = (0..n).map(|i| letter(i) as i128).filter(|c| *c >= 0xD800).collect();
    job.run("keyed u32 char", &list, orig(&|i| vec![letter(i) as i128]), Sub { refused: surrogates, ..Sub::into(0, 0x10FFFF).unsigned() }, vec![]);
}

fn index(args: &Args) {
    let ctx = Ctx::new(args.num("seed", 1), PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let keep = args.num("keep", 100) as usize;
    let scale = args.num("scale", 100) as usize;
    for (family, count) in [("small", 200), ("medium", 60), ("shape", 60), ("collinear", 60), ("multi", 80), ("nest", 60), ("polyc", 40), ("limits", 40), ("many", 12)] {
        ctx.parallel(family, (count * scale / 100).max(1), |i, w| {
            let mut r = Rng::new(ctx.seed, hash_of(&("index", family, i)));
            let input = match family {
                // around the limits of the small integers
                "limits" => {
                    let n = [256, 257, 128, 129, 255, 258, 127, 130][i % 8];
                    (0..20).find_map(|_| {
                        let rings = vec![exactly(&mut r, n)];
                        let input = Input::from_rings(&rings);
                        (input.n() == n && valid(&input)).then_some(input)
                    })
                }
                // many rings
                "many" => {
                    let n = [256, 257, 128, 129][i % 4];
                    let side = 17i64;
                    let mut rings: Vec<Vec<Pt>> = (0..n as i64).map(|k| { let (x, y) = (k % side * 4, k / side * 4); vec![[x, y], [x + 1 + r.range(0, 2), y + r.range(0, 1)], [x + r.range(0, 1), y + 2 + r.range(0, 1)]] }).collect();
                    r.shuffle(&mut rings);
                    let input = Input::from_rings(&rings);
                    valid(&input).then_some(input)
                }
                _ => gen::family(family, &mut r),
            };
            let Some(input) = input else { return };
            let input = Arc::new(input);
            w.tally(&format!("inputs/{family}"), 1);
            let keep = match family { "many" => keep / 4, _ => keep };
            let mut job = Job { w, r: &mut r, family, kind: "", key: (i as u64, hash_of(&family) >> 20), input: &input, keep, serial: 0 };
            built_in(&mut job);
            if family != "many" {
                custom(&mut job);
            }
        });
    }
    ctx.write();
}

/// A ring of exactly n vertices
fn exactly(r: &mut Rng, n: usize) -> Vec<Pt> {
    let m = n as i64;
    let mut v: Vec<Pt> = match r.below(3) {
        // a jagged monotone chain over a base
        0 => (0..m - 2).map(|i| [3 * i, 10 + r.range(0, 40)]).chain([[3 * m, 0], [-3, 0]]).collect(),
        // the same, turned
        1 => (0..m - 2).map(|i| [10 + r.range(0, 40), 3 * i]).chain([[0, 3 * m], [0, -3]]).collect(),
        // convex (a parabola)
        _ => (0..m).map(|i| [i, i * i]).collect(),
    };
    if r.chance(50) {
        v.reverse();
    }
    let k = r.below(n);
    v.rotate_left(k);
    v
}
