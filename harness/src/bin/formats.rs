//! The predefined formats and their containers: whole runs, runs interrupted at every call, and call sequences
//! generated from the specification.

use std::{cell::RefCell, collections::VecDeque, fmt, panic::{catch_unwind, AssertUnwindSafe}, path::PathBuf};

use serde_json::{json, Value};
use triangulate::{formats::*, Fan, FanBuilder, FanFormat, Fans, List, ListFormat, PolygonList, Trapezoidation, TriangleWinding, TriangulationError, Vertex};

use harness::{explore::*, gen, geom::*, lists::*, record::{run_trapezoidation, Mode, Op}, rng::Rng, unruly, Args};

fn main() {
    harness::main(&[("replay", replay), ("runs", runs), ("violated", violated)]);
}

// ------------------------------------------------------------------------------------------------ vertices

/// A vertex with more than a position
#[derive(Clone, Debug)]
struct Tagged {
    x: f64,
    y: f64,
    tag: u32,
}

impl Vertex for Tagged {
    type Coordinate = f64;

    fn x(&self) -> f64 { self.x }
    fn y(&self) -> f64 { self.y }
}

fn chunks(out: &mut Vec<u32>, bits: u64) {
    out.extend((0..4).map(|i| (bits >> (16 * i)) as u32 & 0xFFFF));
}

/// Bit patterns, in pieces TLC can hold
trait Bits: Clone {
    fn bits(&self) -> Vec<u32>;
}

impl Bits for Tagged {
    fn bits(&self) -> Vec<u32> {
        let mut v = vec![self.tag];
        chunks(&mut v, self.x.to_bits());
        chunks(&mut v, self.y.to_bits());
        v
    }
}

impl Bits for [f64; 2] {
    fn bits(&self) -> Vec<u32> {
        let mut v = Vec::new();
        chunks(&mut v, self[0].to_bits());
        chunks(&mut v, self[1].to_bits());
        v
    }
}

/// Zeros become negative zeros for every other vertex
fn signed(k: usize, c: i64) -> f64 {
    if c == 0 && k % 2 == 1 { -0.0 } else { c as f64 }
}

// ------------------------------------------------------------------------------------------------ containers

/// A container that can be filled from, and shown as, the specification's contents
trait Store<T> {
    fn make(pre: &Value, mk: &dyn Fn(u64) -> T) -> Self;
    fn show(&self, enc: &dyn Fn(&T) -> Value) -> Value;
}

fn arr(v: &Value) -> impl Iterator<Item = &Value> {
    v.as_array().unwrap().iter()
}

fn num(v: &Value) -> u64 {
    v.as_u64().unwrap()
}

impl<T> Store<T> for Vec<T> {
    fn make(pre: &Value, mk: &dyn Fn(u64) -> T) -> Self { arr(pre).map(|v| mk(num(v))).collect() }
    fn show(&self, enc: &dyn Fn(&T) -> Value) -> Value { self.iter().map(enc).collect() }
}

impl<T> Store<T> for Vec<[T; 3]> {
    fn make(pre: &Value, mk: &dyn Fn(u64) -> T) -> Self { arr(pre).map(|t| [mk(num(&t[0])), mk(num(&t[1])), mk(num(&t[2]))]).collect() }
    fn show(&self, enc: &dyn Fn(&T) -> Value) -> Value { self.iter().map(|t| t.iter().map(enc).collect::<Value>()).collect() }
}

impl<T> Store<T> for Vec<(T, T, T)> {
    fn make(pre: &Value, mk: &dyn Fn(u64) -> T) -> Self { arr(pre).map(|t| (mk(num(&t[0])), mk(num(&t[1])), mk(num(&t[2])))).collect() }
    fn show(&self, enc: &dyn Fn(&T) -> Value) -> Value { self.iter().map(|t| json!([enc(&t.0), enc(&t.1), enc(&t.2)])).collect() }
}

impl<T> Store<T> for Vec<Vec<T>> {
    fn make(pre: &Value, mk: &dyn Fn(u64) -> T) -> Self { arr(pre).map(|f| arr(f).map(|v| mk(num(v))).collect()).collect() }
    fn show(&self, enc: &dyn Fn(&T) -> Value) -> Value { self.iter().map(|f| f.iter().map(enc).collect::<Value>()).collect() }
}

/// A user's list
struct Deque<T>(VecDeque<(T, T, T)>);

impl<T> List<T> for Deque<T> {
    fn push(&mut self, v0: T, v1: T, v2: T) { self.0.push_back((v0, v1, v2)) }
    fn len(&self) -> usize { self.0.len() }
    fn truncate(&mut self, len: usize) { self.0.truncate(len) }
}

impl<T> Store<T> for Deque<T> {
    fn make(pre: &Value, mk: &dyn Fn(u64) -> T) -> Self { Deque(<Vec<(T, T, T)> as Store<T>>::make(pre, mk).into()) }
    fn show(&self, enc: &dyn Fn(&T) -> Value) -> Value { self.0.iter().map(|t| json!([enc(&t.0), enc(&t.1), enc(&t.2)])).collect() }
}

/// A user's fan, and a user's collection of fans
struct Spokes<T> {
    hub: T,
    rim: Vec<T>,
}

impl<T> Fan<T> for Spokes<T> {
    fn new(v0: T, v1: T, v2: T) -> Self { Spokes { hub: v0, rim: vec![v1, v2] } }
    fn push(&mut self, v: T) { self.rim.push(v) }
}

struct Wheels<T>(VecDeque<Spokes<T>>);

impl<T> Fans for Wheels<T> {
    type Fan = Spokes<T>;

    fn len(&self) -> usize { self.0.len() }
    fn truncate(&mut self, len: usize) { self.0.truncate(len) }
    fn push(&mut self, fan: Spokes<T>) { self.0.push_back(fan) }
}

impl<T> Store<T> for Wheels<T> {
    fn make(pre: &Value, mk: &dyn Fn(u64) -> T) -> Self {
        Wheels(arr(pre).map(|f| Spokes { hub: mk(num(&f[0])), rim: arr(f).skip(1).map(|v| mk(num(v))).collect() }).collect())
    }
    fn show(&self, enc: &dyn Fn(&T) -> Value) -> Value {
        self.0.iter().map(|f| std::iter::once(&f.hub).chain(&f.rim).map(enc).collect::<Value>()).collect()
    }
}

/// A user's index buffer
struct Buffer<T>(VecDeque<T>);

impl<T> Fans for Buffer<T> {
    type Fan = T;

    fn len(&self) -> usize { self.0.len() }
    fn truncate(&mut self, len: usize) { self.0.truncate(len) }
    fn push(&mut self, v: T) { self.0.push_back(v) }
}

impl<T> Store<T> for Buffer<T> {
    fn make(pre: &Value, mk: &dyn Fn(u64) -> T) -> Self { Buffer(arr(pre).map(|v| mk(num(v))).collect()) }
    fn show(&self, enc: &dyn Fn(&T) -> Value) -> Value { self.0.iter().map(enc).collect() }
}

// ------------------------------------------------------------------------------------------------ runners

/// Does something with a format, and tells what happened
trait Runner<'p, P: PolygonList<'p>> {
    /// The output if the run succeeded
    fn run<F: FanFormat<'p, P>>(&mut self, format: F) -> Option<<F::Builder as FanBuilder<'p, P>>::Output>;
}

#[derive(Default)]
struct Log {
    ev: Vec<Value>,
    result: String,
}

fn err_text(e: &dyn fmt::Debug) -> String {
    if format!("{e:?}") == "IndexMatchesDelimiter" { "delim".into() } else { "other".into() }
}

/// Makes the calls of a behaviour of the specification
struct Script<'r, 'p, P: PolygonList<'p>> {
    list: &'p P,
    calls: &'r Value,
    index: &'r dyn Fn(u64) -> P::Index,
    log: Log,
}

impl<'r, 'p, P: PolygonList<'p>> Runner<'p, P> for Script<'r, 'p, P> {
    fn run<F: FanFormat<'p, P>>(&mut self, format: F) -> Option<<F::Builder as FanBuilder<'p, P>>::Output> {
        let mut format = Some(format);
        let mut builder: Option<F::Builder> = None;
        let mut error: Option<TriangulationError<<F::Builder as FanBuilder<'p, P>>::Error>> = None;
        for call in arr(self.calls) {
            let v: Vec<P::Index> = arr(&call["v"]).map(|i| (self.index)(num(i))).collect();
            let mut output = None;
            let r = match call["e"].as_str().unwrap() {
                "init" => format.take().unwrap().initialize(self.list, v[0].clone(), v[1].clone(), v[2].clone()).map(|b| builder = Some(b)),
                "fan" => builder.as_mut().unwrap().new_fan(v[0].clone(), v[1].clone(), v[2].clone()),
                "ext" => builder.as_mut().unwrap().extend_fan(v[0].clone()),
                "build" => builder.take().unwrap().build().map(|o| output = Some(o)),
                "fail" => {
                    if let Some(b) = builder.take() {
                        b.fail(error.as_ref().unwrap_or(&TriangulationError::NoVertices));
                    }
                    Ok(())
                }
                other => panic!("call {other}"),
            };
            let text = match &r { Ok(()) => "ok".to_string(), Err(e) => err_text(e) };
            self.log.ev.push(json!({"e": call["e"], "v": call["v"], "r": text}));
            if let Err(e) = r {
                error = Some(TriangulationError::FanBuilder(e));
                if builder.is_none() {
                    // as the library: no further calls
                    break;
                }
            }
            if output.is_some() {
                self.log.result = "ok".into();
                return output;
            }
        }
        self.log.result = "err".into();
        None
    }
}

/// A run of the library with nothing in between
struct Whole<'r, 'p, P: PolygonList<'p>> {
    t: &'r Trapezoidation<'p, P>,
    reverse: bool,
    /// the triangles another run delivered
    tris: [Vec<[u32; 3]>; 2],
    log: Log,
}

fn clockwise<'p, P: PolygonList<'p>, F: FanFormat<'p, P>>(reverse: bool) -> bool {
    (<F::Builder as FanBuilder<'p, P>>::WINDING == TriangleWinding::Clockwise) != reverse
}

impl<'r, 'p, P: PolygonList<'p>> Runner<'p, P> for Whole<'r, 'p, P> {
    fn run<F: FanFormat<'p, P>>(&mut self, format: F) -> Option<<F::Builder as FanBuilder<'p, P>>::Output> {
        let cw = clockwise::<P, F>(self.reverse);
        let r = if self.reverse { catch_unwind(AssertUnwindSafe(|| self.t.triangulate(format.reverse_winding()))) }
                else { catch_unwind(AssertUnwindSafe(|| self.t.triangulate(format))) };
        let (text, result, out) = match r {
            Err(_) => ("panic".to_string(), "panic", None),
            Ok(Ok(o)) => ("ok".to_string(), "ok", Some(o)),
            Ok(Err(TriangulationError::FanBuilder(e))) => (err_text(&e), "err", None),
            Ok(Err(_)) => ("other".to_string(), "err", None),
        };
        self.log.ev.push(json!({"e": "whole", "v": self.tris[cw as usize], "r": text}));
        self.log.result = result.into();
        out
    }
}

/// Stands between the library and the format, and refuses a call
struct Tap<'l, 'p, P: PolygonList<'p>, F> {
    inner: F,
    shared: &'l TapShared<'l, 'p, P>,
}

struct TapShared<'l, 'p, P: PolygonList<'p>> {
    ev: RefCell<(usize, Vec<Value>)>,
    fault: usize,
    id: &'l dyn Fn(&P::Index) -> u32,
}

impl<'l, 'p, P: PolygonList<'p>> TapShared<'l, 'p, P> {
    /// True if this call is to be refused
    fn refuse(&self) -> bool {
        let mut e = self.ev.borrow_mut();
        e.0 += 1;
        if e.0 > 100_000 {
            panic!("too many builder calls");
        }
        e.0 - 1 == self.fault
    }

    fn note<E: fmt::Debug>(&self, e: &str, v: Vec<u32>, r: &Result<(), &E>) {
        let text = match r { Ok(()) => "ok".to_string(), Err(e) => err_text(e) };
        self.ev.borrow_mut().1.push(json!({"e": e, "v": v, "r": text}));
    }
}

#[derive(Debug)]
enum TapError<E> {
    Injected,
    Inner(E),
}

impl<E: fmt::Debug> fmt::Display for TapError<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

impl<E: fmt::Debug> std::error::Error for TapError<E> { }

fn unit<T, E>(r: &Result<T, E>) -> Result<(), &E> {
    r.as_ref().map(|_| ())
}

impl<'l, 'p, P: PolygonList<'p>, F: FanFormat<'p, P>> FanFormat<'p, P> for Tap<'l, 'p, P, F> {
    type Builder = Tap<'l, 'p, P, F::Builder>;

    fn initialize(self, p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, TapError<<F::Builder as FanBuilder<'p, P>>::Error>> {
        let shared = self.shared;
        let refuse = shared.refuse();
        let v = vec![(shared.id)(&a), (shared.id)(&b), (shared.id)(&c)];
        let r = self.inner.initialize(p, a, b, c);
        shared.note("init", v, &unit(&r));
        let inner = r.map_err(TapError::Inner)?;
        if refuse {
            inner.fail(&TriangulationError::NoVertices);
            shared.note::<()>("fail", vec![], &Ok(()));
            return Err(TapError::Injected);
        }
        Ok(Tap { inner, shared })
    }
}

impl<'l, 'p, P: PolygonList<'p>, B: FanBuilder<'p, P>> FanBuilder<'p, P> for Tap<'l, 'p, P, B> {
    type Output = B::Output;
    type Error = TapError<B::Error>;

    const WINDING: TriangleWinding = B::WINDING;

    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Self::Error> {
        if self.shared.refuse() {
            return Err(TapError::Injected);
        }
        let v = vec![(self.shared.id)(&a), (self.shared.id)(&b), (self.shared.id)(&c)];
        let r = self.inner.new_fan(a, b, c);
        self.shared.note("fan", v, &unit(&r));
        r.map_err(TapError::Inner)
    }

    fn extend_fan(&mut self, a: P::Index) -> Result<(), Self::Error> {
        if self.shared.refuse() {
            return Err(TapError::Injected);
        }
        let v = vec![(self.shared.id)(&a)];
        let r = self.inner.extend_fan(a);
        self.shared.note("ext", v, &unit(&r));
        r.map_err(TapError::Inner)
    }

    fn build(self) -> Result<B::Output, Self::Error> {
        if self.shared.refuse() {
            self.inner.fail(&TriangulationError::NoVertices);
            self.shared.note::<()>("fail", vec![], &Ok(()));
            return Err(TapError::Injected);
        }
        let r = self.inner.build();
        self.shared.note("build", vec![], &unit(&r));
        r.map_err(TapError::Inner)
    }

    fn fail(self, error: &TriangulationError<Self::Error>) {
        let _ = error;
        self.inner.fail(&TriangulationError::NoVertices);
        self.shared.note::<()>("fail", vec![], &Ok(()));
    }
}

struct Tapped<'r, 'p, P: PolygonList<'p>> {
    t: &'r Trapezoidation<'p, P>,
    fault: usize,
    id: &'r dyn Fn(&P::Index) -> u32,
    log: Log,
}

impl<'r, 'p, P: PolygonList<'p>> Runner<'p, P> for Tapped<'r, 'p, P> {
    fn run<F: FanFormat<'p, P>>(&mut self, format: F) -> Option<<F::Builder as FanBuilder<'p, P>>::Output> {
        let shared = TapShared { ev: RefCell::new((0, Vec::new())), fault: self.fault, id: self.id };
        let r = catch_unwind(AssertUnwindSafe(|| self.t.triangulate(Tap { inner: format, shared: &shared })));
        let (result, out) = match r {
            Err(_) => ("panic", None),
            Ok(Ok(o)) => ("ok", Some(o)),
            Ok(Err(_)) => ("err", None),
        };
        self.log.ev = shared.ev.into_inner().1;
        self.log.result = result.into();
        out
    }
}

/// A run of the library with nothing in between, of which only the failure is of interest
struct Failing<'r, 'p, P: PolygonList<'p>> {
    t: &'r Trapezoidation<'p, P>,
    log: Log,
}

impl<'r, 'p, P: PolygonList<'p>> Runner<'p, P> for Failing<'r, 'p, P> {
    fn run<F: FanFormat<'p, P>>(&mut self, format: F) -> Option<<F::Builder as FanBuilder<'p, P>>::Output> {
        // what became of a panicking or of a successful run is not known
        self.log.result = match catch_unwind(AssertUnwindSafe(|| self.t.triangulate(format).map(|_| ()))) {
            Ok(Err(_)) => "err".into(),
            _ => "panic".into(),
        };
        None
    }
}

// ------------------------------------------------------------------------------------------------ formats

/// What is needed to fill and to read the containers of a polygon list's formats
struct Codec<'c, 'p, P: PolygonList<'p>> {
    n: usize,
    index: &'c dyn Fn(u64) -> P::Index,
    /// 1-based id, n + 1 for the index that is no vertex, 0 for anything else
    id: &'c dyn Fn(&P::Index) -> u32,
    list: &'p P,
}

/// (name, kind, by reference)
const CONTAINERS: &[(&str, &str, bool)] = &[
    ("IndexedList &mut Vec<I>", "flat", true),
    ("IndexedList Vec<I>", "flat", false),
    ("IndexedList &mut Vec<[I; 3]>", "triples", true),
    ("IndexedList Vec<(I, I, I)>", "triples", false),
    ("IndexedList &mut Vec<(I, I, I)>", "triples", true),
    ("IndexedList &mut Deque", "triples", true),
    ("IndexedFan &mut Vec<Vec<I>>", "fans", true),
    ("IndexedFan Vec<Vec<I>>", "fans", false),
    ("IndexedFan &mut Wheels", "fans", true),
    ("DelimitedFan &mut Vec<I>", "delim", true),
    ("DelimitedFan Vec<I>", "delim", false),
    ("DelimitedFan &mut Buffer", "delim", true),
    ("DeindexedList &mut Vec<V>", "flat", true),
    ("DeindexedList &mut Vec<[V; 3]>", "triples", true),
    ("DeindexedList Vec<[V; 3]>", "triples", false),
    ("DeindexedList &mut Vec<(V, V, V)>", "triples", true),
    ("DeindexedFan &mut Vec<Vec<V>>", "fans", true),
    ("DeindexedFan Vec<Vec<V>>", "fans", false),
    ("DeindexedFan &mut Wheels", "fans", true),
];

/// Runs one format into one container; the trace without its events' end, or None if there is nothing to see
fn with_container<'p, P: PolygonList<'p>, R: Runner<'p, P>>(k: usize, c: &Codec<'_, 'p, P>, pre: &Value, delim: u64, runner: &mut R, log: &dyn Fn(&mut R) -> Log) -> Value
where P::Vertex: Bits {
    let idx = |i: u64| (c.index)(i);
    let enc_i = |i: &P::Index| json!((c.id)(i));
    let vtx = |i: u64| c.list.get_vertex((c.index)(i)).clone();
    let enc_v = |v: &P::Vertex| json!(v.bits());
    let (_, kind, _) = CONTAINERS[k];
    macro_rules! by_ref {
        ($mk:expr, $enc:expr, $t:ty, $format:expr) => {{
            let mut s: $t = <$t as Store<_>>::make(pre, &$mk);
            let before = s.show(&$enc);
            let done = {
                let f = $format;
                runner.run(f(&mut s)).is_some()
            };
            let _ = done;
            (before, Some(s.show(&$enc)))
        }};
    }
    macro_rules! by_value {
        ($mk:expr, $enc:expr, $t:ty, $format:expr) => {{
            let s: $t = <$t as Store<_>>::make(pre, &$mk);
            let before = s.show(&$enc);
            let f = $format;
            let out: Option<$t> = runner.run(f(s));
            (before, out.map(|s| s.show(&$enc)))
        }};
    }
    let (before, after) = match k {
        0 => by_ref!(idx, enc_i, Vec<P::Index>, |s| IndexedListFormat::new(s).into_fan_format()),
        1 => by_value!(idx, enc_i, Vec<P::Index>, |s| IndexedListFormat::new(s).into_fan_format()),
        2 => by_ref!(idx, enc_i, Vec<[P::Index; 3]>, |s| IndexedListFormat::new(s).into_fan_format()),
        3 => by_value!(idx, enc_i, Vec<(P::Index, P::Index, P::Index)>, |s| IndexedListFormat::new(s).into_fan_format()),
        4 => by_ref!(idx, enc_i, Vec<(P::Index, P::Index, P::Index)>, |s| IndexedListFormat::new(s).into_fan_format()),
        5 => by_ref!(idx, enc_i, Deque<P::Index>, |s| IndexedListFormat::new(s).into_fan_format()),
        6 => by_ref!(idx, enc_i, Vec<Vec<P::Index>>, |s| IndexedFanFormat::new(s)),
        7 => by_value!(idx, enc_i, Vec<Vec<P::Index>>, |s| IndexedFanFormat::new(s)),
        8 => by_ref!(idx, enc_i, Wheels<P::Index>, |s| IndexedFanFormat::new(s)),
        9 => by_ref!(idx, enc_i, Vec<P::Index>, |s| DelimitedFanFormat::new(s, idx(delim))),
        10 => by_value!(idx, enc_i, Vec<P::Index>, |s| DelimitedFanFormat::new(s, idx(delim))),
        11 => by_ref!(idx, enc_i, Buffer<P::Index>, |s| DelimitedFanFormat::new(s, idx(delim))),
        12 => by_ref!(vtx, enc_v, Vec<P::Vertex>, |s| DeindexedListFormat::new(s).into_fan_format()),
        13 => by_ref!(vtx, enc_v, Vec<[P::Vertex; 3]>, |s| DeindexedListFormat::new(s).into_fan_format()),
        14 => by_value!(vtx, enc_v, Vec<[P::Vertex; 3]>, |s| DeindexedListFormat::new(s).into_fan_format()),
        15 => by_ref!(vtx, enc_v, Vec<(P::Vertex, P::Vertex, P::Vertex)>, |s| DeindexedListFormat::new(s).into_fan_format()),
        16 => by_ref!(vtx, enc_v, Vec<Vec<P::Vertex>>, |s| DeindexedFanFormat::new(s)),
        17 => by_value!(vtx, enc_v, Vec<Vec<P::Vertex>>, |s| DeindexedFanFormat::new(s)),
        _ => by_ref!(vtx, enc_v, Wheels<P::Vertex>, |s| DeindexedFanFormat::new(s)),
    };
    let mut log = log(runner);
    if let (Some(after), true) = (after, log.result != "panic") {
        log.ev.push(json!({"e": "obs", "v": [], "r": log.result, "after": after}));
    }
    let deindexed = k >= 12;
    let entries: Value = (1..=c.n as u64).map(|i| if deindexed { enc_v(&vtx(i)) } else { json!(i) }).collect();
    json!({
        "kind": kind, "before": before, "entries": entries,
        "delim": if kind == "delim" { json!((c.id)(&idx(delim))) } else if deindexed { json!([]) } else { json!(0) },
        "unknown": if deindexed { json!([7]) } else { json!(-7) },
        "ev": log.ev,
    })
}

/// A restatement of FormatTrace, to select what TLC sees first
fn suspicious(t: &Value) -> bool {
    let kind = t["kind"].as_str().unwrap();
    let entry = |i: &Value| t["entries"].as_array().unwrap().get((num(i) as usize).wrapping_sub(1)).cloned().unwrap_or_else(|| t["unknown"].clone());
    let mut tris: Vec<[Value; 3]> = Vec::new();
    let d = &t["delim"];
    for e in arr(&t["ev"]) {
        let v = &e["v"];
        let r = e["r"].as_str().unwrap();
        let mut stored: Vec<Value> = Vec::new();
        match e["e"].as_str().unwrap() {
            "init" | "fan" => {
                let x = [entry(&v[0]), entry(&v[1]), entry(&v[2])];
                stored.extend(x.clone());
                tris.push(x);
            }
            "ext" => {
                let x = entry(&v[0]);
                stored.push(x.clone());
                let [a, _, c] = tris.last().unwrap().clone();
                tris.push([a, c, x]);
            }
            "whole" => {
                tris = arr(v).map(|x| [entry(&x[0]), entry(&x[1]), entry(&x[2])]).collect();
                stored.extend(tris.iter().flatten().cloned());
            }
            "build" if r != "ok" => return true,
            "ret" => return true,
            "obs" => {
                let (before, after): (Vec<_>, Vec<_>) = (arr(&t["before"]).collect(), arr(&e["after"]).collect());
                if r != "ok" {
                    return before != after;
                }
                if !after.starts_with(&before) {
                    return true;
                }
                let mut added = &after[before.len()..];
                if kind == "delim" && !before.is_empty() {
                    if added.first() != Some(&d) {
                        return true;
                    }
                    added = &added[1..];
                }
                let fans: Vec<Vec<Value>> = match kind {
                    "flat" if added.len() % 3 != 0 => return true,
                    "flat" => added.chunks(3).map(|c| c.iter().map(|v| (*v).clone()).collect()).collect(),
                    "delim" => added.split(|v| *v == d).map(|c| c.iter().map(|v| (*v).clone()).collect()).collect(),
                    _ => added.iter().map(|f| f.as_array().unwrap().clone()).collect(),
                };
                if fans.iter().any(|f| f.len() < 3 || (kind == "triples" && f.len() > 3)) {
                    return true;
                }
                let decoded: Vec<[Value; 3]> = fans.iter().flat_map(|f| f.windows(2).skip(1).map(|w| [f[0].clone(), w[0].clone(), w[1].clone()])).collect();
                return decoded != tris;
            }
            _ => (),
        }
        if !stored.is_empty() {
            let hit = kind == "delim" && stored.contains(d);
            if r != if hit { "delim" } else { "ok" } {
                return true;
            }
        }
    }
    false
}

// ------------------------------------------------------------------------------------------------ commands

/// Something to do with a polygon list and its codec
trait Job {
    fn go<'p, P: PolygonList<'p>>(&mut self, c: &Codec<'_, 'p, P>) where P::Vertex: Bits;
}

const LISTS: &[&str] = &["tagged", "nested", "narrow"];

fn with_list(kind: &str, input: &Input, job: &mut impl Job) {
    let n = input.pts.len();
    let fid = |i: usize| if i < n { i as u32 + 1 } else if i == 60_000 { n as u32 + 1 } else { 0 };
    let findex = |i: u64| if i as usize <= n { i as usize - 1 } else { 60_000 };
    let mut k = 0;
    let mut tagged = |p: Pt| { k += 1; Tagged { x: signed(k, p[0]), y: signed(k + 1, p[1]), tag: 7 * k as u32 } };
    match kind {
        "tagged" => {
            let mut list = Flat::new(input, |_| Tagged { x: 0., y: 0., tag: 0 });
            list.verts = input.pts.iter().map(|&p| tagged(p)).collect();
            job.go(&Codec { n, index: &findex, id: &|&i| fid(i), list: &list })
        }
        "nested" => {
            let mut place = vec![[0; 2]; n];
            for (a, r) in input.rings.iter().enumerate() {
                for (b, &i) in r.iter().enumerate() {
                    place[i] = [a, b];
                }
            }
            let rings = input.rings.clone();
            let list: Vec<Vec<[f64; 2]>> = rings.iter().map(|r| r.iter().map(|&i| [signed(i, input.pts[i][0]), signed(i, input.pts[i][1])]).collect()).collect();
            // shares a component with real indices
            let outside = [0, 60_000];
            let id = |i: &[usize; 2]| if *i == outside { n as u32 + 1 } else { rings.get(i[0]).and_then(|r| r.get(i[1])).map_or(0, |&i| i as u32 + 1) };
            job.go(&Codec { n, index: &|i| if i as usize <= n { place[i as usize - 1] } else { outside }, id: &id, list: &list })
        }
        _ => {
            let mut list = Flat::new(input, |_| Tagged { x: 0., y: 0., tag: 0 });
            list.verts = input.pts.iter().map(|&p| tagged(p)).collect();
            let list = list.index_with::<usize, u16>();
            job.go(&Codec { n, index: &|i| findex(i) as u16, id: &|&i| fid(i as usize), list: &list })
        }
    }
}

struct Replay<'j> {
    w: &'j mut Worker,
    key: u64,
    list: &'static str,
    behaviour: &'j Value,
    keep: usize,
    rng: Rng,
}

impl Job for Replay<'_> {
    fn go<'p, P: PolygonList<'p>>(&mut self, c: &Codec<'_, 'p, P>) where P::Vertex: Bits {
        for (k, (name, kind, _)) in CONTAINERS.iter().enumerate() {
            if *kind != self.behaviour["kind"] {
                continue;
            }
            let meta = json!({"container": name, "list": self.list, "behaviour": self.behaviour});
            let mut script = Script { list: c.list, calls: &self.behaviour["calls"], index: c.index, log: Log::default() };
            let t = catch_unwind(AssertUnwindSafe(|| with_container(k, c, &self.behaviour["pre"], num(&self.behaviour["delim"]), &mut script, &|s| std::mem::take(&mut s.log))));
            let (t, bad) = match t {
                Ok(t) => { let bad = suspicious(&t); (t, bad) }
                Err(_) => (json!({"kind": kind, "before": [], "entries": [], "delim": 0, "unknown": -7, "ev": [{"e": "ret", "v": [], "r": "panic"}]}), true),
            };
            self.w.tally("behaviours-replayed", 1);
            if bad || self.rng.below(1000) < self.keep {
                self.w.raw(Raw { trace: t, meta, suspicious: bad, size: 1, key: (self.key, k as u64) });
            }
        }
    }
}

/// Call sequences from the specification
fn replay(args: &Args) {
    let ctx = Ctx::new(args.num("seed", 1), PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let keep = args.num("keep", 100) as usize;
    let vertices = args.num("vertices", 3) as usize;
    let text = std::fs::read_to_string(args.get("behaviours", "behaviours.ndjson")).unwrap();
    let behaviours: Vec<Value> = text.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let input = Input::from_rings(&[(0..vertices as i64).map(|i| [i, i * i]).collect()]);
    ctx.count("behaviours", behaviours.len() as u64);
    ctx.parallel("replay", behaviours.len(), |i, w| {
        let list = LISTS[i % LISTS.len()];
        let rng = Rng::new(ctx.seed, i as u64);
        let mut job = Replay { w, key: i as u64, list, behaviour: &behaviours[i], keep, rng };
        with_list(list, &input, &mut job);
    });
    ctx.write();
}

struct Runs<'j> {
    w: &'j mut Worker,
    key: u64,
    fam: &'static str,
    list: &'static str,
    input: &'j Input,
    orders: Orders,
    keep: usize,
    rng: Rng,
}

impl Job for Runs<'_> {
    fn go<'p, P: PolygonList<'p>>(&mut self, c: &Codec<'_, 'p, P>) where P::Vertex: Bits {
        let describe = |what: Value| {
            let meta = json!({"family": self.fam, "list": self.list, "pts": self.input.pts, "rings": self.input.rings, "orders": self.orders, "what": what});
            move || (json!({"kind": "flat", "before": [], "entries": [], "delim": 0, "unknown": -7, "ev": []}), meta.clone())
        };
        self.w.begin_raw(&self.orders, Box::new(describe(json!("trapezoidize"))));
        let t = catch_unwind(AssertUnwindSafe(|| c.list.trapezoidize()));
        self.w.end();
        // a failure here is another property's
        let Ok(Ok(t)) = t else { self.w.tally("not-trapezoidized", 1); return };
        let n = self.input.n();
        let reference = |cw: bool| {
            let mut tris: Vec<[u32; 3]> = Vec::new();
            let (mut calls, mut root, mut last) = (0usize, 0, 0);
            for e in run_trapezoidation(&t, n, c.id, if cw { Mode::CW } else { Mode::CCW }, None) {
                match e.op {
                    Op::Initialize | Op::NewFan => tris.push(e.v),
                    Op::ExtendFan => tris.push([root, last, e.v[0]]),
                    Op::Build => (),
                    Op::Return if e.res == harness::record::Res::Ok => continue,
                    _ => return None,
                }
                calls += 1;
                if let Some(x) = tris.last() {
                    (root, last) = (x[0], x[2]);
                }
            }
            Some((tris, calls))
        };
        self.w.begin_raw(&None, Box::new(describe(json!("reference"))));
        let (ccw, cw) = (reference(false), reference(true));
        self.w.end();
        let (Some((ccw, calls)), Some((cw, _))) = (ccw, cw) else { self.w.tally("no-reference", 1); return };
        if self.fam == "large" {
            self.w.tally("large-inputs", 1);
            self.w.tally("large-triangles", ccw.len() as u64);
            self.w.tally("large-fans", (ccw.windows(2).filter(|w| w[1][0] != w[0][0] || w[1][1] != w[0][2]).count() + 1) as u64);
        }
        let mut serial = 0;
        for (k, (name, kind, by_ref)) in CONTAINERS.iter().enumerate() {
            let r = &mut self.rng;
            let outside = c.n as u64 + 1;
            let mut plans: Vec<(Option<usize>, bool, u64)> = vec![(None, false, outside), (None, true, outside)];
            if *kind == "delim" {
                plans.push((None, false, 1 + r.below(c.n) as u64));
                plans.push((None, true, 1 + r.below(c.n) as u64));
                plans.push((None, false, ccw[0][r.below(3)] as u64));
                plans.push((None, false, ccw[ccw.len() - 1][2] as u64));
            }
            if *by_ref {
                for f in [0, 1, calls - 1, (calls - 1).min(calls * 9 / 10), r.below(calls), r.below(calls), r.below(calls)] {
                    plans.push((Some(f), false, if *kind == "delim" && r.chance(30) { 1 + r.below(c.n) as u64 } else { outside }));
                }
                // not refused at all, but observed
                plans.push((Some(usize::MAX), false, outside));
            }
            for (fault, reverse, delim) in plans {
                let pre = contents(&mut self.rng, kind, c.n, delim);
                let what = json!({"container": name, "fault": fault, "reverse": reverse, "delim": delim, "pre": pre});
                self.w.begin_raw(&None, Box::new(describe(what.clone())));
                let t = match fault {
                    None => {
                        let mut w = Whole { t: &t, reverse, tris: [ccw.clone(), cw.clone()], log: Log::default() };
                        with_container(k, c, &pre, delim, &mut w, &|w| std::mem::take(&mut w.log))
                    }
                    Some(f) => {
                        let mut w = Tapped { t: &t, fault: f, id: c.id, log: Log::default() };
                        with_container(k, c, &pre, delim, &mut w, &|w| std::mem::take(&mut w.log))
                    }
                };
                self.w.end();
                self.w.tally(if fault.is_none() { "format-runs" } else { "interrupted-runs" }, 1);
                let bad = suspicious(&t);
                if bad || self.rng.below(1000) < self.keep {
                    serial += 1;
                    let (_, meta) = describe(what)();
                    self.w.raw(Raw { trace: t, meta, suspicious: bad, size: n, key: (self.key, serial) });
                }
            }
        }
    }
}

/// Something for a container to hold beforehand
fn contents(r: &mut Rng, kind: &str, n: usize, delim: u64) -> Value {
    let size = [0, 0, 1, 1, 2, 5][r.below(6)];
    let any = |r: &mut Rng| 1 + r.below(n) as u64;
    match kind {
        "flat" => (0..3 * size).map(|_| any(r)).collect(),
        "delim" => (0..3 * size + (size > 0) as usize * r.below(3)).map(|_| if r.chance(10) { delim } else { any(r) }).collect(),
        "triples" => (0..size).map(|_| json!([any(r), any(r), any(r)])).collect(),
        _ => (0..size).map(|_| { let m = 3 + r.below(3); (0..m).map(|_| any(r)).collect::<Value>() }).collect(),
    }
}

struct Violated<'j> {
    found: &'j mut unruly::Found,
    key: u64,
    kind: &'static str,
    list: &'static str,
    input: &'j Input,
    keep: usize,
    rng: &'j mut Rng,
}

impl Job for Violated<'_> {
    fn go<'p, P: PolygonList<'p>>(&mut self, c: &Codec<'_, 'p, P>) where P::Vertex: Bits {
        let r = &mut *self.rng;
        let mut worked = 0;
        for o in 0..12 {
            let orders: Orders = Some(self.input.rings.iter().map(|ring| r.perm(ring.len())).collect());
            set_orders(&orders);
            let Ok(Ok(t)) = catch_unwind(AssertUnwindSafe(|| c.list.trapezoidize())) else { continue };
            worked += 1;
            if worked > 3 {
                return;
            }
            for (k, (name, kind, by_ref)) in CONTAINERS.iter().enumerate() {
                if !by_ref || !r.chance(40) {
                    continue;
                }
                let outside = c.n as u64 + 1;
                let mut calls = 0;
                for what in ["observed", "refused", "alone"] {
                    let delim = if *kind == "delim" && r.chance(20) { 1 + r.below(c.n) as u64 } else { outside };
                    let pre = contents(r, kind, c.n, delim);
                    let fault = if what == "refused" { r.below(calls + 1) } else { usize::MAX };
                    let t = if what == "alone" {
                        with_container(k, c, &pre, delim, &mut Failing { t: &t, log: Log::default() }, &|w| std::mem::take(&mut w.log))
                    } else {
                        with_container(k, c, &pre, delim, &mut Tapped { t: &t, fault, id: c.id, log: Log::default() }, &|w| std::mem::take(&mut w.log))
                    };
                    if what == "observed" {
                        calls = t["ev"].as_array().unwrap().len();
                    }
                    let end = arr(&t["ev"]).last().filter(|e| e["e"] == "obs").map_or("none", |e| if e["r"] == "ok" { "ok" } else { "err" });
                    self.found.tally(&format!("{what}/{end}"), 1);
                    if t["ev"].as_array().unwrap().is_empty() {
                        continue;
                    }
                    let bad = suspicious(&t);
                    if bad || r.below(1000) < self.keep {
                        let meta = json!({"kind": self.kind, "list": self.list, "pts": self.input.pts, "rings": self.input.rings, "orders": orders, "container": name, "fault": fault, "delim": delim, "pre": pre, "run": what});
                        self.found.raws.push(Raw { trace: t, meta, suspicious: bad, size: self.input.n(), key: (self.key, o * 100 + k as u64) });
                    }
                }
            }
        }
    }
}

/// Runs on inputs which break the preconditions: contents survive a failure of the library's own just the same
fn violated(args: &Args) {
    let n = 20_000 * args.num("scale", 100) as usize / 100;
    let (seed, keep) = (args.num("seed", 1), args.num("keep", 100) as usize);
    unruly::cases(args, "violated", n, |i, found| {
        let mut rng = Rng::new(seed, hash_of(&("violated formats", i)));
        let Some((kind, input)) = unruly::unruly(&mut rng) else { return };
        found.tally("inputs", 1);
        let list = LISTS[i % LISTS.len()];
        with_list(list, &input, &mut Violated { found, key: i as u64, kind, list, input: &input, keep, rng: &mut rng });
    });
}

/// More than a thousand triangles, in few fans or in many
fn large(i: usize, r: &mut Rng) -> Option<Input> {
    let mut rings = match i % 4 {
        0 => vec![gen::shape(r, 3, 700)],
        1 => gen::polyomino(r, 45, 45, true)?,
        2 => vec![gen::shape(r, 7, 1200)],
        _ => vec![gen::shape(r, 1, 1200)],
    };
    gen::relist(r, &mut rings);
    let input = Input::from_rings(&rings);
    valid(&input).then_some(input)
}

/// Runs of the library
fn runs(args: &Args) {
    let ctx = Ctx::new(args.num("seed", 1), PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let keep = args.num("keep", 100) as usize;
    let scale = args.num("scale", 100) as usize;
    for (fam, count) in [("small", 300), ("medium", 60), ("shape", 60), ("collinear", 100), ("multi", 60), ("nest", 60), ("polyc", 60), ("large", 8)] {
        let stream = hash_of(&("formats", fam));
        ctx.parallel(fam, (count * scale / 100).max(1), |i, w| {
            let mut rng = Rng::new(ctx.seed, stream ^ (i as u64) << 1);
            let Some(input) = (if fam == "large" { large(i, &mut rng) } else { gen::family(fam, &mut rng) }) else { return };
            let list = LISTS[i % LISTS.len()];
            // a part of the large ones is enough for TLC
            let keep = if fam == "large" { keep / 30 } else { keep };
            let orders = Some(input.rings.iter().map(|ring| rng.perm(ring.len())).collect());
            w.tally("inputs", 1);
            let mut job = Runs { w, key: i as u64, fam, list, input: &input, orders, keep, rng };
            with_list(list, &input, &mut job);
        });
    }
    ctx.write();
}
