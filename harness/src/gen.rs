//! Polygon sets: every generator yields only inputs which meet the documented preconditions (`valid`).

use std::collections::{HashMap, HashSet};

use crate::{geom::*, rng::Rng};

/// All simple polygons with `n` vertices on a `w` x `h` grid, one per cyclic sequence up to direction
pub fn grid_polygons(w: i64, h: i64, n: usize) -> Vec<Input> {
    fn rec(all: &[Pt], n: usize, cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Input>) {
        if cur.len() == n {
            if cur[1] > cur[n - 1] {
                return;
            }
            let input = Input::from_rings(&[cur.iter().map(|&i| all[i]).collect()]);
            if valid(&input) {
                out.push(input);
            }
            return;
        }
        for i in cur[0] + 1..all.len() {
            if used[i] {
                continue;
            }
            // prune: the new edge must not meet earlier ones
            let k = cur.len();
            let (a, b) = (all[cur[k - 1]], all[i]);
            let bad = (0..k - 1).any(|j| {
                let (c, d) = (all[cur[j]], all[cur[j + 1]]);
                if j + 1 == k - 1 {
                    cross(a, b, c) == 0 && dot(a, b, c) > 0
                } else {
                    segments_meet(a, b, c, d)
                }
            });
            if bad {
                continue;
            }
            used[i] = true;
            cur.push(i);
            rec(all, n, cur, used, out);
            cur.pop();
            used[i] = false;
        }
    }
    let all: Vec<Pt> = (0..w * h).map(|i| [i % w, i / w]).collect();
    let mut out = Vec::new();
    for start in 0..all.len() {
        let mut used = vec![false; all.len()];
        used[start] = true;
        rec(&all, n, &mut vec![start], &mut used, &mut out);
    }
    out
}

pub fn two_opt(r: &mut Rng, n: usize, w: usize, h: usize) -> Option<Vec<Pt>> {
    let mut seen = HashSet::new();
    let mut p: Vec<Pt> = Vec::new();
    let mut tries = 0;
    while p.len() < n {
        tries += 1;
        if tries > 20 * n + 100 {
            return None;
        }
        let q = [r.below(w) as i64, r.below(h) as i64];
        if seen.insert(q) {
            p.push(q);
        }
    }
    for _ in 0..200 * n {
        let mut found = None;
        'o: for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                if segments_meet(p[i], p[i + 1], p[j], p[(j + 1) % n]) {
                    found = Some((i, j));
                    break 'o;
                }
            }
        }
        match found {
            Some((i, j)) => p[i + 1..=j].reverse(),
            None => break,
        }
    }
    let input = Input::from_rings(&[p.clone()]);
    valid(&input).then_some(p)
}

/// The boundary rings of a random set of unit squares: holes, islands, disjoint parts, many equal coordinates
pub fn polyomino(r: &mut Rng, w: usize, h: usize, keep_collinear: bool) -> Option<Vec<Vec<Pt>>> {
    let density = 30 + r.below(50);
    let mut g = vec![vec![false; w + 2]; h + 2];
    for row in g.iter_mut().take(h + 1).skip(1) {
        for c in row.iter_mut().take(w + 1).skip(1) {
            *c = r.chance(density);
        }
    }
    cells_to_rings(r, g, keep_collinear)
}

/// Concentric square rings of cells: nesting to the given depth
pub fn nested_cells(r: &mut Rng, depth: usize, keep_collinear: bool) -> Option<Vec<Vec<Pt>>> {
    let s = 2 * depth - 1;
    let mut g = vec![vec![false; s + 2]; s + 2];
    for (y, row) in g.iter_mut().enumerate() {
        for (x, c) in row.iter_mut().enumerate() {
            if x >= 1 && y >= 1 && x <= s && y <= s {
                let d = (x - 1).min(y - 1).min(s - x).min(s - y);
                *c = d % 2 == 0;
            }
        }
    }
    cells_to_rings(r, g, keep_collinear)
}

fn cells_to_rings(r: &mut Rng, mut g: Vec<Vec<bool>>, keep_collinear: bool) -> Option<Vec<Vec<Pt>>> {
    let (h, w) = (g.len() - 2, g[0].len() - 2);
    // remove diagonal contacts
    loop {
        let mut changed = false;
        for y in 0..=h {
            for x in 0..=w {
                let (a, b, c, d) = (g[y][x], g[y][x + 1], g[y + 1][x], g[y + 1][x + 1]);
                if a == d && b == c && a != b {
                    let v = x > 0 && y > 0 && x < w && y < h && r.below(2) == 0;
                    g[y][x] = v;
                    g[y + 1][x + 1] = v;
                    g[y][x + 1] = v;
                    g[y + 1][x] = v;
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    let mut next: HashMap<Pt, Pt> = HashMap::new();
    for y in 0..h + 2 {
        for x in 0..w + 2 {
            if g[y][x] {
                let (x0, y0) = (x as i64, y as i64);
                if !g[y - 1][x] {
                    next.insert([x0, y0], [x0 + 1, y0]);
                }
                if !g[y][x + 1] {
                    next.insert([x0 + 1, y0], [x0 + 1, y0 + 1]);
                }
                if !g[y + 1][x] {
                    next.insert([x0 + 1, y0 + 1], [x0, y0 + 1]);
                }
                if !g[y][x - 1] {
                    next.insert([x0, y0 + 1], [x0, y0]);
                }
            }
        }
    }
    let mut keys: Vec<Pt> = next.keys().copied().collect();
    keys.sort_unstable();
    let mut seen = HashSet::new();
    let mut out = Vec::new();
    for k in keys {
        if seen.contains(&k) {
            continue;
        }
        let mut l = Vec::new();
        let mut q = k;
        loop {
            seen.insert(q);
            l.push(q);
            q = next[&q];
            if q == k {
                break;
            }
        }
        if !keep_collinear {
            let n = l.len();
            l = (0..n).filter(|&i| cross(l[(i + n - 1) % n], l[i], l[(i + 1) % n]) != 0).map(|i| l[i]).collect();
        }
        out.push(l);
    }
    (!out.is_empty()).then_some(out)
}

/// Rings relisted: rotated, reversed and permuted
pub fn relist(r: &mut Rng, rings: &mut Vec<Vec<Pt>>) {
    for l in rings.iter_mut() {
        if r.chance(50) {
            l.reverse();
        }
        let n = l.len();
        l.rotate_left(r.below(n));
    }
    r.shuffle(rings);
}

/// An invertible linear map with small coefficients
pub fn linear_map(r: &mut Rng, rings: &mut [Vec<Pt>]) {
    const MAPS: [[i64; 4]; 10] = [
        [1, 0, 0, 1], [0, 1, -1, 0], [-1, 0, 0, -1], [0, -1, 1, 0], [1, 0, 0, -1], [0, 1, 1, 0],
        [1, 1, 0, 1], [1, 0, 1, 1], [2, 1, -1, 3], [1, 3, 2, -1],
    ];
    let m = *r.pick(&MAPS);
    for p in rings.iter_mut().flatten() {
        *p = [m[0] * p[0] + m[1] * p[1], m[2] * p[0] + m[3] * p[1]];
    }
}

/// A random point placed strictly between two neighbours on some edges (collinear vertices); scales the input
pub fn insert_collinear(r: &mut Rng, rings: &mut [Vec<Pt>], percent: usize) {
    let k = 2 + r.below(2) as i64;
    for ring in rings.iter_mut() {
        let n = ring.len();
        let mut out = Vec::new();
        for i in 0..n {
            let (a, b) = (ring[i], ring[(i + 1) % n]);
            out.push([a[0] * k, a[1] * k]);
            if r.chance(percent) {
                for j in 1..k {
                    if r.chance(70) {
                        out.push([a[0] * k + (b[0] - a[0]) * j, a[1] * k + (b[1] - a[1]) * j]);
                    }
                }
            }
        }
        *ring = out;
    }
}

fn isqrt_dir(i: usize, n: usize, radius: i64) -> Pt {
    let t = std::f64::consts::TAU * i as f64 / n as f64;
    [(t.cos() * radius as f64).round() as i64, (t.sin() * radius as f64).round() as i64]
}

/// Structured shapes, indexed by `kind`
pub fn shape(r: &mut Rng, kind: usize, n: usize) -> Vec<Pt> {
    let n = n.max(3);
    let m = n as i64;
    match kind % 12 {
        // convex
        0 => (0..n).map(|i| isqrt_dir(i, n, 20 * m)).collect(),
        // star
        1 => (0..2 * n).map(|i| isqrt_dir(i, 2 * n, if i % 2 == 0 { 40 * m } else { 15 * m })).collect(),
        // comb with vertical teeth
        2 => {
            let mut v = vec![[2 * m, 0], [0, 0]];
            for i in 0..m {
                v.push([2 * i, 10]);
                v.push([2 * i + 1, 3]);
            }
            v.push([2 * m, 10]);
            v
        }
        // comb with teeth of random depth, both sides
        3 => {
            let mut v = Vec::new();
            for i in 0..m {
                v.push([2 * i, 20 + r.range(0, 9)]);
                v.push([2 * i + 1, 12 + r.range(0, 6)]);
            }
            for i in (0..m).rev() {
                v.push([2 * i + 1, r.range(-6, 4)]);
                v.push([2 * i, 5 + r.range(0, 5)]);
            }
            v
        }
        // zigzag band
        4 => {
            let mut v: Vec<Pt> = (0..m).map(|i| [3 * i, if i % 2 == 0 { 0 } else { 9 }]).collect();
            v.extend((0..m).rev().map(|i| [3 * i, if i % 2 == 0 { 4 } else { 13 }]));
            v
        }
        // square spiral
        5 => {
            let k = n.clamp(2, 40) as i64;
            let mut outer = Vec::new();
            let mut inner = Vec::new();
            // a corridor of width 1, pitch 2
            for i in 0..k {
                let d = 2 * i;
                let s = 4 * k - d;
                let e = d;
                outer.extend([[e - if i == 0 { 0 } else { 2 }, e], [s, e], [s, s], [e, s]]);
                inner.extend([[e + 1 - if i == 0 { 0 } else { 2 }, e + 1], [s - 1, e + 1], [s - 1, s - 1], [e + 1, s - 1]]);
            }
            inner.reverse();
            outer.extend(inner);
            outer
        }
        // staircase
        6 => {
            let mut v = Vec::new();
            for i in 0..m {
                v.push([i, i]);
                v.push([i + 1, i]);
            }
            v.push([m, m + 1]);
            v.push([-1, m + 1]);
            v.push([-1, 0]);
            v
        }
        // y-monotone with long chains on both sides
        7 => {
            let mut left = Vec::new();
            let mut right = Vec::new();
            for i in 1..m {
                left.push([-r.range(1, 12), 2 * i]);
                right.push([r.range(1, 12), 2 * i + r.range(0, 1)]);
            }
            let mut v = vec![[0, 0]];
            v.extend(right);
            v.push([0, 2 * m + 2]);
            left.reverse();
            v.extend(left);
            v
        }
        // one long chain against a single edge: reflex and convex runs
        8 => {
            let mut v = vec![[0, 0], [0, 4 * m]];
            for i in (1..m).rev() {
                v.push([r.range(1, 15), 4 * i + r.range(-1, 1)]);
            }
            v
        }
        // concave chain (all reflex) against a single edge
        9 => {
            let mut v = vec![[0, 0]];
            for i in 1..m {
                v.push([i * (m - i) / 2 + 1, i * 2]);
            }
            v.push([0, 2 * m]);
            v.push([m * m, m]);
            v
        }
        // sawtooth: all teeth tips on one line
        10 => {
            let mut v = vec![[0, -4]];
            for i in 0..m {
                v.push([4 * i + 4, -4 + 0 * i]);
            }
            v.truncate(2);
            v = vec![[0, -4], [4 * m, -4]];
            for i in (0..m).rev() {
                v.push([4 * i + 4, 0]);
                v.push([4 * i + 2, -2]);
            }
            v.push([0, 0]);
            v
        }
        // tall thin triangles fanned from one vertex
        _ => {
            let mut v = vec![[0, 0]];
            for i in 0..m {
                v.push([7 * m - 3 * i, 5 * i + 1 + (i % 3)]);
                if i + 1 < m {
                    v.push([(7 * m - 3 * i) / 3, (5 * i + 4) / 3 + 1]);
                }
            }
            v
        }
    }
}

/// Copies of small polygons in the cells of a grid
pub fn scattered(r: &mut Rng, cols: usize, rows: usize) -> Option<Vec<Vec<Pt>>> {
    let s = 8i64;
    let mut out = Vec::new();
    for y in 0..rows {
        for x in 0..cols {
            if r.chance(75) {
                let n = 3 + r.below(5);
                if let Some(p) = two_opt(r, n, s as usize - 1, s as usize - 1) {
                    out.push(p.into_iter().map(|q| [q[0] + s * x as i64, q[1] + s * y as i64]).collect());
                }
            }
        }
    }
    (!out.is_empty()).then_some(out)
}

/// A random polygon, scaled up, with small polygons in some of its grid cells (inside or outside)
pub fn punched(r: &mut Rng) -> Option<Vec<Vec<Pt>>> {
    let n = 4 + r.below(9);
    let base = two_opt(r, n, 6, 6)?;
    let k = 12i64;
    let mut out: Vec<Vec<Pt>> = vec![base.iter().map(|p| [p[0] * k, p[1] * k]).collect()];
    let mut current = Input::from_rings(&out);
    for _ in 0..2 + r.below(8) {
        let (ox, oy) = (r.range(0, 5 * k), r.range(0, 5 * k));
        let size = 3 + r.below(7);
        let m = 3 + r.below(4);
        if let Some(p) = two_opt(r, m, size, size) {
            let mut next = out.clone();
            next.push(p.into_iter().map(|q| [q[0] + ox, q[1] + oy]).collect());
            let cand = Input::from_rings(&next);
            if valid(&cand) {
                out = next;
                current = cand;
            }
        }
    }
    let _ = current;
    Some(out)
}

/// Nested scaled copies of a star-shaped polygon
pub fn concentric(r: &mut Rng, depth: usize) -> Option<Vec<Vec<Pt>>> {
    let n = 3 + r.below(8);
    let base: Vec<Pt> = (0..n).map(|i| isqrt_dir(i, n, 60 + r.range(-8, 8))).collect();
    Some((1..=depth as i64).map(|d| base.iter().map(|p| [p[0] * d, p[1] * d]).collect()).collect())
}

pub const FAMILIES: &[&str] = &["small", "medium", "poly", "polyc", "shape", "collinear", "multi", "nest"];

/// The `i`-th input of a family (None if the attempt failed)
pub fn family(name: &str, r: &mut Rng) -> Option<Input> {
    let mut rings = match name {
        // a few vertices on a coarse grid: many equal coordinates
        "small" => {
            let n = 3 + r.below(8);
            let (w, h) = (3 + r.below(5), 3 + r.below(5));
            vec![two_opt(r, n, w, h)?]
        }
        "medium" => {
            let n = 3 + r.below(40);
            let (w, h) = (5 + r.below(100), 5 + r.below(100));
            vec![two_opt(r, n, w, h)?]
        }
        "poly" | "polyc" => {
            let (w, h) = (1 + r.below(6), 1 + r.below(6));
            polyomino(r, w, h, name == "polyc")?
        }
        "shape" => {
            let kind = r.below(12);
            let n = 3 + r.below(24);
            vec![shape(r, kind, n)]
        }
        "collinear" => {
            let n = 3 + r.below(6);
            let (w, h) = (3 + r.below(4), 3 + r.below(4));
            let mut v = vec![two_opt(r, n, w, h)?];
            insert_collinear(r, &mut v, 50);
            v
        }
        "multi" => match r.below(2) {
            0 => {
                let (c, w) = (1 + r.below(3), 1 + r.below(3));
                scattered(r, c, w)?
            }
            _ => punched(r)?,
        },
        "nest" => match r.below(3) {
            0 => {
                let d = 1 + r.below(5);
                let keep = r.chance(30);
                nested_cells(r, d, keep)?
            }
            1 => {
                let d = 2 + r.below(5);
                concentric(r, d)?
            }
            _ => {
                let (w, h) = (5 + r.below(5), 5 + r.below(5));
                polyomino(r, w, h, false)?
            }
        },
        _ => panic!("unknown family {name}"),
    };
    relist(r, &mut rings);
    linear_map(r, &mut rings);
    let input = Input::from_rings(&rings);
    valid(&input).then_some(input)
}
