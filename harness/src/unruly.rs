//! Inputs which break the preconditions.  The library may get stuck, run out of memory or panic on them, so they are
//! run in child processes; what counts is how the runs that return have gone about it.

use std::{collections::BTreeMap, fs, io::Write, os::unix::fs::FileExt, path::PathBuf, process::{Command, Stdio}, sync::Arc, time::{Duration, Instant}};

use serde_json::{json, Value};

use crate::{explore::*, gen, geom::*, lists::*, record::*, rng::Rng, Args};

/// How long a case may take
const STUCK: Duration = Duration::from_millis(1000);
const MEMORY_KB: usize = 3 << 20;

// ------------------------------------------------------------------------------------------------ processes

#[derive(Default)]
pub struct Found {
    pub raws: Vec<Raw>,
    pub counts: BTreeMap<String, u64>,
}

impl Found {
    pub fn tally(&mut self, name: &str, by: u64) {
        *self.counts.entry(name.to_string()).or_default() += by;
    }
}

/// Runs the cases 0..n of a command, in child processes if this is not one of them
pub fn cases(args: &Args, command: &str, n: usize, case: impl Fn(usize, &mut Found)) {
    let out = PathBuf::from(args.get("out", "out"));
    match args.get("child", "").parse::<usize>() {
        Ok(k) => child(args, &out, k, n, case),
        Err(_) => parent(args, out, command, n),
    }
}

fn child(args: &Args, out: &PathBuf, k: usize, n: usize, case: impl Fn(usize, &mut Found)) {
    let at = fs::OpenOptions::new().write(true).create(true).truncate(false).open(out.join(format!("{k}.at"))).unwrap();
    let mut part = fs::OpenOptions::new().append(true).create(true).open(out.join(format!("{k}.part"))).unwrap();
    let mut i = args.num("next", 0) as usize;
    while i < n {
        at.write_all_at(&(i as u64).to_le_bytes(), 0).unwrap();
        let mut found = Found::default();
        case(i, &mut found);
        let raws: Vec<Value> = found.raws.iter().map(|r| json!({"trace": r.trace, "meta": r.meta, "suspicious": r.suspicious, "size": r.size, "key": [r.key.0, r.key.1]})).collect();
        let mut line = json!({"raws": raws, "counts": found.counts}).to_string();
        // a line that was cut off ends here
        line.insert(0, '\n');
        part.write_all(line.as_bytes()).unwrap();
        i += args.num("stride", 1) as usize;
    }
}

fn parent(args: &Args, out: PathBuf, command: &str, n: usize) {
    let ctx = Ctx::new(args.num("seed", 1), out.clone(), args.num("seconds", 60));
    let dir = out.join("children");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let stride = ctx.threads;
    std::thread::scope(|s| {
        for k in 0..stride {
            let (ctx, dir) = (&ctx, &dir);
            s.spawn(move || supervise(ctx, args, dir, command, k, stride, n));
        }
    });
    for k in 0..stride {
        let text = fs::read(dir.join(format!("{k}.part"))).unwrap_or_default();
        for line in String::from_utf8_lossy(&text).lines() {
            let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
            for (name, by) in v["counts"].as_object().unwrap() {
                ctx.count(name, by.as_u64().unwrap());
            }
            let mut raws = ctx.raws.lock().unwrap();
            for r in v["raws"].as_array().unwrap() {
                let key = (r["key"][0].as_u64().unwrap(), r["key"][1].as_u64().unwrap());
                raws.push(Raw { trace: r["trace"].clone(), meta: r["meta"].clone(), suspicious: r["suspicious"] == true, size: r["size"].as_u64().unwrap() as usize, key });
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    ctx.write();
}

/// Every `stride`-th case from the `k`-th
fn supervise(ctx: &Arc<Ctx>, args: &Args, dir: &PathBuf, command: &str, k: usize, stride: usize, n: usize) {
    let mut next = k;
    while next < n && Instant::now() < ctx.deadline {
        let mut c = Command::new("sh");
        c.args(["-c", &format!("ulimit -v {MEMORY_KB} -c 0; exec \"$0\" \"$@\"")]).arg(std::env::current_exe().unwrap()).arg(command);
        for name in ["seed", "scale", "keep"] {
            let v = args.get(name, "");
            if !v.is_empty() {
                c.arg(format!("--{name}")).arg(v);
            }
        }
        c.args(["--child", &k.to_string(), "--next", &next.to_string(), "--stride", &stride.to_string()]).arg("--out").arg(dir);
        let mut p = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("child");
        let (mut at, mut since) = (None, Instant::now());
        let ended = loop {
            if let Some(status) = p.try_wait().unwrap() {
                break Some(status);
            }
            let now = position(dir, k);
            if now != at {
                (at, since) = (now, Instant::now());
            }
            if since.elapsed() > STUCK || Instant::now() > ctx.deadline {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        match ended {
            Some(s) if s.success() => return,
            Some(_) => ctx.count("gave-up/crash", 1),
            None if Instant::now() > ctx.deadline => break,
            None => ctx.count("gave-up/hang", 1),
        }
        next = position(dir, k).unwrap_or(next).max(next) + stride;
    }
    if next < n {
        ctx.count("skipped-at-deadline", ((n - next) / stride) as u64);
    }
}

fn position(dir: &PathBuf, k: usize) -> Option<usize> {
    let b = fs::read(dir.join(format!("{k}.at"))).ok()?;
    Some(u64::from_le_bytes(b.try_into().ok()?) as usize)
}

// ------------------------------------------------------------------------------------------------ inputs

/// Rings whose edges cross or touch, or whose vertices coincide
pub fn unruly(r: &mut Rng) -> Option<(&'static str, Input)> {
    let (kind, rings) = match r.below(5) {
        0 | 1 => ("grid", grid(r)),
        2 => ("changed", { let mut v = some(r)?.ring_points(); for _ in 0..1 + r.below(3) { change(r, &mut v) } v }),
        3 => ("overlaid", overlaid(r)?),
        _ => ("scrambled", { let mut v = some(r)?.ring_points(); scramble(r, &mut v); v }),
    };
    if rings.iter().any(|v| v.len() < 3) {
        return None;
    }
    let input = Input::from_rings(&rings);
    (!valid(&input)).then_some((kind, input))
}

fn some(r: &mut Rng) -> Option<Input> {
    let fam = *r.pick(&["small", "small", "medium", "shape", "collinear", "multi", "nest", "polyc"]);
    gen::family(fam, r)
}

fn grid(r: &mut Rng) -> Vec<Vec<Pt>> {
    let (w, h) = (2 + r.below(4), 2 + r.below(4));
    let rings = [1, 1, 1, 2, 2, 3][r.below(6)];
    (0..rings).map(|_| (0..3 + r.below(6)).map(|_| [r.below(w + 1) as i64, r.below(h + 1) as i64]).collect()).collect()
}

fn change(r: &mut Rng, rings: &mut Vec<Vec<Pt>>) {
    let a = r.below(rings.len());
    let b = r.below(rings.len());
    let (i, j) = (r.below(rings[a].len()), r.below(rings[b].len()));
    match r.below(6) {
        // two vertices trade places
        0 => { let p = rings[a][i]; rings[a][i] = rings[b][j]; rings[b][j] = p }
        // one comes to lie on another
        1 => rings[a][i] = rings[b][j],
        // one is moved
        2 => { let p = rings[b][j]; rings[a][i] = [p[0] + r.range(-3, 3), p[1] + r.range(-3, 3)] }
        // one is doubled
        3 => { let p = rings[a][i]; rings[a].insert(i, p) }
        // a spike
        4 => { let (p, q) = (rings[a][i], rings[b][j]); rings[a].insert(i, q); rings[a].insert(i, p) }
        // a vertex in the middle of another edge
        _ => { let k = (j + 1) % rings[b].len(); let (p, q) = (rings[b][j], rings[b][k]); rings[a][i] = [(p[0] + q[0]) / 2, (p[1] + q[1]) / 2] }
    }
}

fn overlaid(r: &mut Rng) -> Option<Vec<Vec<Pt>>> {
    let mut v = some(r)?.ring_points();
    let more = if r.chance(50) { v.clone() } else { some(r)?.ring_points() };
    let (dx, dy) = if r.chance(30) { (0, 0) } else { (r.range(-5, 5), r.range(-5, 5)) };
    let flip = r.chance(30);
    v.extend(more.into_iter().map(|ring| ring.into_iter().map(|p| if flip { [p[1] + dx, p[0] + dy] } else { [p[0] + dx, p[1] + dy] }).collect()));
    Some(v)
}

fn scramble(r: &mut Rng, rings: &mut [Vec<Pt>]) {
    for ring in rings {
        let (from, len) = (r.below(ring.len()), 2 + r.below(4));
        let mut some: Vec<Pt> = ring.iter().copied().cycle().skip(from).take(len.min(ring.len())).collect();
        r.shuffle(&mut some);
        let n = ring.len();
        for (k, p) in some.into_iter().enumerate() {
            ring[(from + k) % n] = p;
        }
    }
}

/// Sometimes, coordinates which are not numbers to reckon with
pub fn spoil(r: &mut Rng, verts: &mut [[f64; 2]]) -> bool {
    if !r.chance(10) {
        return false;
    }
    for _ in 0..1 + r.below(3) {
        let k = r.below(verts.len());
        verts[k][r.below(2)] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308, 5e-324]);
    }
    true
}

// ------------------------------------------------------------------------------------------------ runs

/// A restatement of Lifecycle for runs without panicking builders, to select what TLC sees first
fn odd(n: usize, events: &[Event]) -> bool {
    let (mut open, mut fault, mut failed, mut built) = (false, None, None, false);
    for (k, e) in events.iter().enumerate() {
        match e.op {
            Op::Return => {
                let right = match (fault, e.res) {
                    (Some(f), res) => res == f && (failed == fault || !open),
                    (None, Res::Panic | Res::Hang) => true,
                    (None, Res::Ok) => built,
                    (None, Res::TriangulationInternal) => k == 0 || failed == Some(e.res),
                    (None, Res::NoVertices | Res::TrapezoidationInternal) => k == 0,
                    _ => false,
                };
                return !right || k + 1 != events.len();
            }
            Op::Fail if !open || failed.is_some() || fault.is_some_and(|f| f != e.res) || fault.is_none() && e.res != Res::TriangulationInternal => return true,
            Op::Fail => failed = Some(e.res),
            _ if fault.is_some() || failed.is_some() || built => return true,
            op => {
                let used = match op { Op::Initialize | Op::NewFan | Op::AddTriangle => 3, Op::ExtendFan => 1, _ => 0 };
                if e.v[..used].iter().any(|&v| v == 0 || v as usize > n) || matches!(op, Op::Initialize | Op::InitializeList) != (k == 0) {
                    return true;
                }
                if e.res != Res::Ok {
                    fault = Some(e.res);
                }
                built = op == Op::Build && e.res == Res::Ok;
                open = !(matches!(op, Op::Initialize | Op::InitializeList | Op::Build) && e.res != Res::Ok || e.res == Res::Panic);
            }
        }
    }
    true
}

/// Runs with recording builders
pub fn violated(args: &Args) {
    let n = 20_000 * args.num("scale", 100) as usize / 100;
    let (seed, keep) = (args.num("seed", 1), args.num("keep", 100) as usize);
    let modes = Mode::all();
    cases(args, "violated", n, |i, found| {
        let mut r = Rng::new(seed, hash_of(&("violated", i)));
        let Some((kind, input)) = unruly(&mut r) else { found.tally("ungenerated", 1); return };
        let mut flat = Flat::f64(&input);
        let spoiled = spoil(&mut r, &mut flat.verts);
        let (n, ids) = (input.n(), flat_id(input.pts.len()));
        let mut worked = 0;
        for o in 0..12 {
            if worked == 3 {
                break;
            }
            let orders: Orders = (o > 0).then(|| input.rings.iter().map(|ring| r.perm(ring.len())).collect());
            let mode = *r.pick(&modes);
            let mut ev: Vec<Value> = Vec::new();
            let mut suspicious = false;
            let mut what = Vec::new();
            let mut known: Vec<(Op, [u32; 3])> = Vec::new();
            let mut note = |events: &[Event], how: &str, fault: Option<usize>, found: &mut Found| {
                if !ev.is_empty() {
                    ev.push(json!({"e": how, "v": [], "r": "ok"}));
                }
                ev.extend(events_json(events).as_array().unwrap().iter().cloned());
                suspicious |= odd(n, events);
                let calls: Vec<_> = events.iter().filter(|e| !matches!(e.op, Op::Fail | Op::Return)).map(|e| (e.op, e.v)).collect();
                if how == "anew" {
                    known.clear();
                }
                suspicious |= calls.iter().zip(&known).any(|(a, b)| a != b) || fault.is_none() && calls.len() < known.len() && events.last().unwrap().res != Res::Hang;
                if calls.len() > known.len() {
                    known = calls;
                }
                what.push(json!(fault));
                let last = events.last().unwrap().res;
                found.tally(&format!("returned/{}{}", match last { Res::Err(_) => "builder's error".to_string(), _ => last.text() }, if events.len() > 1 { " after calls" } else { "" }), 1);
                found.tally("runs", 1);
            };
            set_orders(&orders);
            let t = std::panic::catch_unwind(|| triangulate::PolygonList::trapezoidize(&flat));
            let trapped = match &t {
                Err(_) => Res::Panic,
                Ok(Err(e)) => classify_trapezoidation(e),
                Ok(Ok(_)) => Res::Ok,
            };
            match &t {
                Ok(Ok(t)) => {
                    worked += 1;
                    let events = run_trapezoidation(t, n, &ids, mode, None);
                    let calls = events.iter().filter(|e| !matches!(e.op, Op::Fail | Op::Return)).count();
                    note(&events, "anew", None, found);
                    for fault in [Some(r.below(calls + 1)), Some(r.below(calls + 1) + if r.chance(20) { PANIC_AT } else { 0 }), None] {
                        note(&run_trapezoidation(t, n, &ids, mode, fault), "again", fault, found);
                    }
                }
                _ => note(&[Event { op: Op::Return, v: [0; 3], res: trapped }], "anew", None, found),
            }
            let fault = r.chance(50).then(|| r.below(3 * n));
            set_orders(&orders);
            note(&run_list(&flat, n, &ids, Mode { one_step: true, ..mode }, fault), "anew", fault, found);
            found.tally(&format!("{}/{kind}", if matches!(t, Ok(Ok(_))) { "trapezoidized" } else { "not-trapezoidized" }), 1);
            // there is little to see in a run that never reached its builder
            if suspicious || r.below(1000) < if ev.len() > 5 { keep } else { keep / 50 } {
                let meta = json!({"kind": kind, "pts": input.pts, "rings": input.rings, "spoiled": spoiled.then(|| format!("{:?}", flat.verts)), "orders": orders, "mode": mode.text(), "faults": what});
                found.raws.push(Raw { trace: json!({"n": input.pts.len(), "ev": ev}), meta, suspicious, size: n, key: (i as u64, o as u64) });
            }
        }
        found.tally(&format!("inputs/{kind}"), 1);
    });
}
