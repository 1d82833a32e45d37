//! Counts the vertex accesses and coordinate comparisons of whole runs, with the library's own insertion orders.

use std::{cell::Cell, cmp::Ordering, collections::BTreeMap, path::PathBuf, sync::{atomic::{AtomicBool, Ordering::SeqCst}, Mutex}};

use serde_json::{json, Value};
use triangulate::{formats::IndexedListFormat, ListFormat, PolygonList, Vertex};

use harness::{explore::*, gen, geom::*, rng::Rng, Args};

fn main() {
    harness::main(&[("work", work), ("once", once)]);
}

thread_local! {
    static COMPARISONS: Cell<u64> = const { Cell::new(0) };
    static ACCESSES: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// f64, counting comparisons
#[derive(Clone, Copy, Debug)]
struct Counted(f64);

fn compared() {
    count(&COMPARISONS);
}

fn count(counter: &'static std::thread::LocalKey<Cell<u64>>) {
    let k = counter.with(|c| { c.set(c.get() + 1); c.get() });
    if k > LIMIT.with(Cell::get) {
        panic!("far too much work");
    }
}

impl PartialEq for Counted {
    fn eq(&self, o: &Self) -> bool { compared(); self.0 == o.0 }
}
impl PartialOrd for Counted {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { compared(); self.0.partial_cmp(&o.0) }
}

impl Counted {
    fn int(n: i128) -> Self { Self(n as f64) }
    fn plus(self, o: Self) -> Self { Self(self.0 + o.0) }
    fn times(self, o: Self) -> Self { Self(self.0 * o.0) }
    fn over(self, o: Self) -> Self { Self(self.0 / o.0) }
    fn whole(self) -> Self { Self(self.0.floor()) }
}
impl std::ops::Neg for Counted { type Output = Self; fn neg(self) -> Self { Self(-self.0) } }
impl num_traits::ToPrimitive for Counted {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
}
harness::numeric!(Counted);

struct Watched([f64; 2]);

impl Vertex for Watched {
    type Coordinate = Counted;
    fn x(&self) -> Counted { count(&ACCESSES); Counted(self.0[0]) }
    fn y(&self) -> Counted { count(&ACCESSES); Counted(self.0[1]) }
}

/// The outline of a random spanning tree of a grid, about n vertices
fn maze(r: &mut Rng, n: usize) -> Vec<Pt> {
    let mut k = 2;
    while 2 * k * k < n { k += 1 }
    // Wilson or Kruskal: Kruskal is simplest
    let mut edges: Vec<(usize, usize)> = Vec::new();
    for i in 0..k { for j in 0..k {
        if i + 1 < k { edges.push((i * k + j, (i + 1) * k + j)) }
        if j + 1 < k { edges.push((i * k + j, i * k + j + 1)) }
    } }
    r.shuffle(&mut edges);
    let mut parent: Vec<usize> = (0..k * k).collect();
    fn find(p: &mut [usize], mut a: usize) -> usize { while p[a] != a { p[a] = p[p[a]]; a = p[a] } a }
    let mut open = std::collections::HashSet::new();
    for (a, b) in edges {
        let (x, y) = (find(&mut parent, a), find(&mut parent, b));
        if x != y {
            parent[x] = y;
            open.insert((a, b));
            open.insert((b, a));
        }
    }
    // walk around the tree, keeping the wall to one side: each cell (i, j) is the square from (3i, 3j) to (3i+2, 3j+2)
    let step = [(1i64, 0i64), (0, 1), (-1, 0), (0, -1)];
    // corner reached when walking in direction d along the right side of the cell
    let corner = |c: (i64, i64), d: usize| -> Pt {
        let (x, y) = (3 * c.0, 3 * c.1);
        match d { 0 => [x + 2, y], 1 => [x + 2, y + 2], 2 => [x, y + 2], _ => [x, y] }
    };
    let id = |c: (i64, i64)| c.0 as usize * k + c.1 as usize;
    let pass = |c: (i64, i64), d: usize| {
        let t = (c.0 + step[d].0, c.1 + step[d].1);
        if t.0 < 0 || t.1 < 0 || t.0 >= k as i64 || t.1 >= k as i64 { return None }
        open.contains(&(id(c), id(t))).then_some(t)
    };
    // state: in cell c, walking along side with outward direction o (counterclockwise)
    let mut out: Vec<Pt> = Vec::new();
    let start = ((0, 0), 3usize);
    let (mut c, mut o) = start;
    loop {
        // side o of c is closed; its end corner is corner(c, o') in walking direction
        let d = (o + 1) % 4;
        out.push(corner(c, d));
        // next side
        match pass(c, d) {
            None => o = d,
            Some(t) => {
                // go through: the passage's right wall
                out.push(corner(t, (d + 3) % 4));
                c = t;
                o = (d + 3) % 4;
                while let Some(t) = pass(c, o) {
                    // turn right through it
                    let dd = o;
                    out.push(corner(t, (dd + 3) % 4));
                    c = t;
                    o = (dd + 3) % 4;
                }
            }
        }
        if (c, o) == start { break }
        if out.len() > 100 * k * k { panic!("maze") }
    }
    out.dedup();
    out
}

fn ring(kind: usize, r: &mut Rng, n: usize) -> Vec<Pt> {
    let m = n as i64;
    match kind {
        // two parabolas: convex
        0 => { let h = m / 2; let mut v: Vec<Pt> = (0..h).map(|i| [i - h / 2, (i - h / 2) * (i - h / 2)]).collect(); v.extend((0..h).rev().map(|i| [i - h / 2, h * h + h - (i - h / 2) * (i - h / 2)])); v }
        1 => gen::shape(r, 1, n / 2),
        2 => gen::shape(r, 2, n / 2),
        3 => gen::shape(r, 3, n / 4),
        4 => gen::shape(r, 4, n / 2),
        5 => spiral(n),
        6 => gen::shape(r, 6, n / 2),
        7 => gen::shape(r, 7, n / 2),
        8 => gen::shape(r, 8, n),
        9 => gen::shape(r, 10, n / 2),
        10 => maze(r, n),
        _ => gen::shape(r, 9, n),
    }
}

/// A square spiral corridor
fn spiral(n: usize) -> Vec<Pt> {
    let k = (n / 8).max(1) as i64;
    let mut path: Vec<Pt> = vec![[0, 0]];
    let dirs = [[1, 0], [0, 1], [-1, 0], [0, -1]];
    let mut p = [0, 0];
    for i in 0..4 * k {
        let len = 4 * (i / 2 + 1);
        p = [p[0] + dirs[i as usize % 4][0] * len, p[1] + dirs[i as usize % 4][1] * len];
        path.push(p);
    }
    // offset to both sides by 1
    let m = path.len();
    let side = |s: i64| -> Vec<Pt> {
        (0..m).map(|i| {
            let d0 = dirs[i.saturating_sub(1) % 4];
            let d1 = dirs[i.min(m - 2) % 4];
            let normal = |d: [i64; 2]| [-d[1] * s, d[0] * s];
            let (a, b) = (normal(d0), normal(d1));
            if i == 0 || i == m - 1 { let a = if i == 0 { b } else { a }; [path[i][0] + a[0], path[i][1] + a[1]] } else { [path[i][0] + a[0] + b[0], path[i][1] + a[1] + b[1]] }
        }).collect()
    };
    let mut v = side(-1);
    let mut w = side(1);
    w.reverse();
    v.extend(w);
    v
}

/// A set of many small rings, listed in an order which follows their places
fn set(kind: usize, r: &mut Rng, n: usize) -> Vec<Vec<Pt>> {
    let m = (n / 4) as i64;
    let quad = |x: i64, y: i64, a: i64| vec![[x + 2 * a, y + 1], [x, y + 2 * a], [x - 2 * a, y - 1], [x, y - 2 * a]];
    match kind {
        // side by side, with the same heights
        0 => (0..m).map(|i| quad(8 * i, 0, 1)).collect(),
        // above each other
        1 => (0..m).map(|i| quad(0, 8 * i, 1)).collect(),
        2 => (0..m).map(|i| quad(8 * i, 8 * i, 1)).collect(),
        3 => { let k = (m as f64).sqrt() as i64; (0..k * k).map(|i| quad(8 * (i % k), 8 * (i / k), 1)).collect() }
        // one in the other
        4 => (1..=m).map(|i| quad(0, 0, 2 * i)).collect(),
        // holes
        5 => { let k = (m as f64).sqrt() as i64; let mut v = vec![quad(4 * k, 4 * k, 20 * k)]; v.extend((0..k * k).map(|i| quad(8 * (i / k), 8 * (i % k), 1))); v }
        // rings of some size
        _ => (0..m / 8).map(|i| { let h = r.below(1000) as i64; gen::shape(r, 1, 16).iter().map(|p| [p[0] + 2000 * i, p[1] + h]).collect() }).collect(),
    }
}

const RINGS: usize = 12;
const NAMES: [&str; 19] = ["convex", "star", "comb", "double-comb", "zigzag", "spiral", "staircase", "monotone", "chain", "sawtooth", "maze", "concave",
    "set-row", "set-column", "set-diagonal", "set-grid", "set-nested", "set-holes", "set-stars"];

/// A ring or a set of rings in one of four listings, the same number of each in every size
fn listed(seed: u64, kind: usize, n: usize, i: usize) -> Vec<Vec<Pt>> {
    let mut r = Rng::new(seed, hash_of(&("work", kind, n, i)));
    let mut rings = if kind < RINGS { vec![ring(kind, &mut r, n)] } else { set(kind - RINGS, &mut r, n) };
    let listing = i % 4;
    if listing & 1 == 1 { for p in rings.iter_mut().flatten() { *p = [p[1], p[0]] } }
    if listing & 2 == 2 { rings.reverse() }
    for pts in &mut rings {
        if listing & 2 == 2 { pts.reverse() }
        let k = r.below(pts.len());
        pts.rotate_left(k);
    }
    rings
}

fn work(args: &Args) {
    let seed = args.num("seed", 1);
    let ctx = Ctx::new(seed, PathBuf::from(args.get("out", "out")), args.num("seconds", 60));
    let sizes: Vec<usize> = args.get("sizes", "256,1024,4096,16384").split(',').map(|s| s.parse().unwrap()).collect();
    let runs = args.num("runs", 8) as usize;
    let counted_sizes = args.get("instruction-sizes", "");
    if !counted_sizes.is_empty() {
        let sizes: Vec<usize> = counted_sizes.split(',').map(|s| s.parse().unwrap()).collect();
        if !instructions(&ctx, seed, &sizes, args.num("instruction-runs", 4)) {
            // it will be rejected; the rest could take very long
            ctx.write();
            return;
        }
    }
    let results: Mutex<BTreeMap<(usize, usize, usize), (u64, &str)>> = Mutex::new(BTreeMap::new());
    // small ones first: a cost that explodes shows early
    let jobs: Vec<(usize, usize, usize)> = sizes.iter().flat_map(|&n| (0..NAMES.len()).flat_map(move |k| (0..runs).map(move |i| (k, n, i)))).collect();
    let exceeded = AtomicBool::new(false);
    ctx.parallel("work", jobs.len(), |j, w| {
        if exceeded.load(SeqCst) {
            return;
        }
        let (kind, n, i) = jobs[j];
        let rings = listed(seed, kind, n, i);
        if n <= 1024 && i < 4 {
            assert!(valid(&Input::from_rings(&rings)), "invalid {} {n}", NAMES[kind]);
        }
        let len = rings.iter().map(|r| r.len() as u64).sum::<u64>();
        let list: Vec<Vec<Watched>> = rings.iter().map(|pts| pts.iter().map(|p| Watched([p[0] as f64, p[1] as f64])).collect()).collect();
        COMPARISONS.with(|c| c.set(0));
        ACCESSES.with(|c| c.set(0));
        LIMIT.with(|c| c.set(2000 * len));
        let mut out: Vec<[[usize; 2]; 3]> = Vec::new();
        set_orders(&None);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| list.triangulate(IndexedListFormat::new(&mut out).into_fan_format()).map(|_| ())));
        LIMIT.with(|c| c.set(u64::MAX));
        let (c, a) = (COMPARISONS.with(Cell::get), ACCESSES.with(Cell::get));
        let res = match res {
            _ if c > 2000 * len || a > 2000 * len => { exceeded.store(true, SeqCst); "exceeded" }
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "error",
            Err(_) => "panic",
        };
        w.tally("runs", 1);
        w.tally("vertices", len);
        results.lock().unwrap().insert((n, kind, i), (100 * (c + a) / len, res));
    });
    let results = results.into_inner().unwrap();
    let mut ev: Vec<Value> = results.iter().map(|((n, kind, _), (w, r))| json!({"e": "run", "s": NAMES[*kind], "n": n, "w": w, "r": r, "v": []})).collect();
    ev.push(json!({"e": "ret", "v": [], "r": "ok"}));
    let mut means: BTreeMap<String, BTreeMap<usize, f64>> = BTreeMap::new();
    for ((n, kind, _), (w, _)) in &results {
        *means.entry(NAMES[*kind].to_string()).or_default().entry(*n).or_default() += *w as f64 / 100.0 / runs as f64;
    }
    ctx.raws.lock().unwrap().push(Raw { trace: json!({"ev": ev}), meta: json!({"work per vertex": means}), suspicious: false, size: 0, key: (0, 0) });
    ctx.write();
}

/// Triangulates one ring a few times, for a run under an instruction counter; with --dry 1 only prepares it
fn once(args: &Args) {
    let (seed, kind, n, reps) = (args.num("seed", 1), args.num("kind", 0) as usize, args.num("n", 1024) as usize, args.num("reps", 1));
    for i in 0..reps {
        let list: Vec<Vec<[f64; 2]>> = listed(seed, kind, n, i as usize).iter().map(|pts| pts.iter().map(|p| [p[0] as f64, p[1] as f64]).collect()).collect();
        if args.num("dry", 0) == 0 {
            let mut out: Vec<[[usize; 2]; 3]> = Vec::new();
            set_orders(&None);
            if list.triangulate(IndexedListFormat::new(&mut out).into_fan_format()).is_err() {
                std::process::exit(3);
            }
            println!("vertices {}", list.iter().map(Vec::len).sum::<usize>());
        }
    }
}

/// Runs this program under valgrind's instruction counter
fn counted(seed: u64, kind: usize, n: usize, reps: u64, dry: bool) -> (u64, u64, &'static str) {
    use std::{io::Read, process::*, time::*};
    let mut child = Command::new("valgrind")
        .args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
        .arg(std::env::current_exe().unwrap())
        .args(["once", "--seed", &seed.to_string(), "--kind", &kind.to_string(), "--n", &n.to_string(), "--reps", &reps.to_string(), "--dry", if dry { "1" } else { "0" }])
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped())
        .spawn().expect("valgrind");
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() { break s }
        if start.elapsed() > Duration::from_secs(240) {
            let _ = child.kill();
            let _ = child.wait();
            return (0, 1, "exceeded");
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let (mut out, mut err) = (String::new(), String::new());
    child.stdout.take().unwrap().read_to_string(&mut out).unwrap();
    child.stderr.take().unwrap().read_to_string(&mut err).unwrap();
    match status.code() {
        Some(3) => return (0, 1, "error"),
        Some(101) => return (0, 1, "panic"),
        _ => {}
    }
    let refs = err.lines().find_map(|l| l.split("I refs:").nth(1).or_else(|| l.split("I   refs:").nth(1))).and_then(|s| s.trim().replace(',', "").parse().ok());
    let vertices = out.lines().filter_map(|l| l.strip_prefix("vertices ")?.parse::<u64>().ok()).sum();
    match refs {
        Some(refs) if status.success() => (refs, vertices, "ok"),
        _ => panic!("valgrind: {status} {err}"),
    }
}

fn instructions(ctx: &std::sync::Arc<Ctx>, seed: u64, sizes: &[usize], reps: u64) -> bool {
    let results: Mutex<BTreeMap<(usize, usize), (u64, &str)>> = Mutex::new(BTreeMap::new());
    let exceeded = AtomicBool::new(false);
    for &n in sizes { ctx.parallel("instructions", NAMES.len(), |kind, w| {
        if exceeded.load(SeqCst) {
            return;
        }
        let (total, vertices, res) = counted(seed, kind, n, reps, false);
        // what it takes to start and to make the rings
        let (before, ..) = if res == "ok" { counted(seed, kind, n, reps, true) } else { (0, 0, "") };
        let per_vertex = total.saturating_sub(before) / vertices.max(1);
        let res = if per_vertex > 1_000_000 { "exceeded" } else { res };
        w.tally("counted runs", reps);
        let mut results = results.lock().unwrap();
        // no need to go on when it doubles
        if res == "exceeded" || results.get(&(n / 4, kind)).is_some_and(|r| r.0 * 2 < per_vertex) {
            exceeded.store(true, SeqCst);
        }
        results.insert((n, kind), (per_vertex.min(1_000_000), res));
    }) }
    let results = results.into_inner().unwrap();
    let mut ev: Vec<Value> = results.iter().map(|((n, kind), (w, r))| json!({"e": "run", "s": NAMES[*kind], "n": n, "w": w, "r": r, "v": []})).collect();
    ev.push(json!({"e": "ret", "v": [], "r": "ok"}));
    let mut means: BTreeMap<&str, BTreeMap<usize, u64>> = BTreeMap::new();
    for ((n, kind), (w, _)) in &results {
        means.entry(NAMES[*kind]).or_default().insert(*n, *w);
    }
    ctx.raws.lock().unwrap().push(Raw { trace: json!({"ev": ev}), meta: json!({"instructions per vertex": means}), suspicious: false, size: 0, key: (0, 1) });
    !exceeded.load(SeqCst) && means.iter().all(|(s, m)| m.last_key_value().unwrap().1 * 10 <= m.first_key_value().unwrap().1 * if s.starts_with("set-") { 22 } else { 15 })
}
