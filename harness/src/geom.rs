//! Exact integer geometry: the preconditions of an input, and a fast oracle which selects the executions
//! worth showing to TLC first. The verdict is TLC's.

use std::collections::HashMap;

pub type Pt = [i64; 2];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Input {
    pub pts: Vec<Pt>,
    /// Indices into `pts`
    pub rings: Vec<Vec<usize>>,
    pub place: Place,
}

/// Where the library sees the points: at (p + t) * 2^k, exactly, or else each coordinate moved at random by less
/// than 2^-jitter first, which changes no triangulation if no three points are on a line.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Place {
    pub k: i32,
    pub t: Pt,
    pub jitter: Option<(u64, u32)>,
}

impl Place {
    pub fn text(&self) -> String {
        let (s, j) = self.jitter.unwrap_or_default();
        format!("{} {} {} {s} {j}", self.k, self.t[0], self.t[1])
    }

    pub fn parse(s: &str) -> Self {
        let v: Vec<i128> = s.split(' ').map(|x| x.parse().unwrap()).collect();
        Self { k: v[0] as i32, t: [v[1] as i64, v[2] as i64], jitter: (v[4] != 0).then_some((v[3] as u64, v[4] as u32)) }
    }

    pub fn coords(&self, p: Pt) -> [f64; 2] {
        let scale = f64::from_bits(((1023 + self.k) as u64) << 52);
        [0, 1].map(|i| {
            let c = (p[i] + self.t[i]) as f64;
            let c = match self.jitter {
                None => c,
                Some((seed, j)) => c + (crate::explore::hash_of(&(seed, p, i)) >> 11) as f64 / (1u64 << 53) as f64 / (1u64 << j) as f64,
            };
            c * scale
        })
    }
}

impl Input {
    pub fn from_rings(rings: &[Vec<Pt>]) -> Self {
        let mut pts = Vec::new();
        let mut out = Vec::new();
        for r in rings {
            let start = pts.len();
            pts.extend_from_slice(r);
            out.push((start..pts.len()).collect());
        }
        Self { pts, rings: out, place: Place::default() }
    }

    /// No three points on a line
    pub fn general_position(&self) -> bool {
        let n = self.pts.len();
        (0..n).all(|i| (0..i).all(|j| (0..j).all(|k| cross(self.pts[i], self.pts[j], self.pts[k]) != 0)))
    }

    /// The same input, where it is or somewhere else
    pub fn placed(mut self, r: &mut crate::rng::Rng) -> Self {
        let extent = self.pts.iter().flatten().map(|c| c.unsigned_abs()).max().unwrap_or(0).max(1);
        let bits = 65 - extent.leading_zeros();
        let mut place = Place::default();
        if bits <= 13 && self.pts.len() <= 60 && r.below(3) == 0 && self.general_position() {
            place.jitter = Some((r.next(), 2 * bits + 4 + r.below(12) as u32));
            place.k = r.below(40) as i32 - 20;
        } else if bits <= 25 {
            match r.below(8) {
                0..=3 => (),
                4 => place.k = -(1 + r.below(60) as i32),
                5 => place.k = 1 + r.below(60) as i32,
                6 => place.k = *r.pick(&[-400, -200, -100, 100, 200, 400]),
                _ => {
                    for t in &mut place.t {
                        let e = r.below(51);
                        *t = ((1i64 << e) + r.below(16) as i64) * if r.below(2) == 0 { 1 } else { -1 };
                    }
                    place.k = r.below(80) as i32 - 70;
                }
            }
        }
        self.place = place;
        self
    }

    pub fn ring_points(&self) -> Vec<Vec<Pt>> {
        self.rings.iter().map(|r| r.iter().map(|&i| self.pts[i]).collect()).collect()
    }

    pub fn n(&self) -> usize {
        self.rings.iter().map(Vec::len).sum()
    }

    pub fn edges(&self) -> Vec<(usize, usize)> {
        self.rings.iter().flat_map(|r| (0..r.len()).map(move |i| (r[i], r[(i + 1) % r.len()]))).collect()
    }
}

pub fn cross(a: Pt, b: Pt, c: Pt) -> i64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

pub fn dot(a: Pt, b: Pt, c: Pt) -> i64 {
    (b[0] - a[0]) * (c[0] - a[0]) + (b[1] - a[1]) * (c[1] - a[1])
}

pub fn on_segment(a: Pt, b: Pt, c: Pt) -> bool {
    c[0] >= a[0].min(b[0]) && c[0] <= a[0].max(b[0]) && c[1] >= a[1].min(b[1]) && c[1] <= a[1].max(b[1]) && cross(a, b, c) == 0
}

pub fn segments_meet(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    if a[0].max(b[0]) < c[0].min(d[0]) || c[0].max(d[0]) < a[0].min(b[0]) || a[1].max(b[1]) < c[1].min(d[1]) || c[1].max(d[1]) < a[1].min(b[1]) {
        return false;
    }
    let (s1, s2, s3, s4) = (cross(a, b, c).signum(), cross(a, b, d).signum(), cross(c, d, a).signum(), cross(c, d, b).signum());
    (s1 * s2 < 0 && s3 * s4 < 0) || on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}

pub fn lower(a: Pt, b: Pt) -> bool {
    (a[1], a[0]) < (b[1], b[0])
}

/// The documented preconditions
pub fn valid(input: &Input) -> bool {
    if input.rings.iter().any(|r| r.len() < 3) {
        return false;
    }
    let mut seen = std::collections::HashSet::new();
    for r in &input.rings {
        for &i in r {
            if !seen.insert(input.pts[i]) {
                return false;
            }
        }
    }
    // edges sorted by their lowest y
    let mut es: Vec<_> = input.edges().into_iter().map(|(u, v)| {
        let (a, b) = (input.pts[u], input.pts[v]);
        (a[1].min(b[1]), a[1].max(b[1]), u, v)
    }).collect();
    es.sort_unstable();
    for i in 0..es.len() {
        let (_, top, u, v) = es[i];
        for &(low, _, w, x) in &es[i + 1..] {
            if low > top {
                break;
            }
            let (a, b, c, d) = (input.pts[u], input.pts[v], input.pts[w], input.pts[x]);
            let (s, p, q) = if u == w { (a, b, d) } else if u == x { (a, b, c) } else if v == w { (b, a, d) } else if v == x { (b, a, c) } else {
                if segments_meet(a, b, c, d) {
                    return false;
                }
                continue;
            };
            if p == q || (cross(s, p, q) == 0 && dot(s, p, q) > 0) {
                return false;
            }
        }
    }
    true
}

fn upward(input: &Input, e: (usize, usize)) -> (usize, usize) {
    if lower(input.pts[e.0], input.pts[e.1]) { e } else { (e.1, e.0) }
}

/// The boundary of the interior, each edge directed so that the interior is on its left
pub fn interior_boundary(input: &Input) -> Vec<(usize, usize)> {
    let ups: Vec<_> = input.edges().into_iter().map(|e| upward(input, e)).collect();
    let mut out = Vec::new();
    for r in &input.rings {
        let e1 = (r[0], r[1]);
        let u1 = upward(input, e1);
        let (a, b) = (input.pts[u1.0], input.pts[u1.1]);
        let mut left = 0;
        for &f in &ups {
            if f == u1 {
                continue;
            }
            let (c, d) = (input.pts[f.0], input.pts[f.1]);
            // f passes the height just above a
            if lower(a, c) || !lower(a, d) {
                continue;
            }
            let is_left = if f.0 != u1.0 {
                cross(c, d, a) < 0
            } else if lower(d, b) {
                cross(a, b, d) > 0
            } else {
                cross(c, d, b) < 0
            };
            if is_left {
                left += 1;
            }
        }
        let interior_east = left % 2 == 0;
        let forward = (u1 == e1) != interior_east;
        for i in 0..r.len() {
            let e = (r[i], r[(i + 1) % r.len()]);
            out.push(if forward { e } else { (e.1, e.0) });
        }
    }
    out
}

/// Do the triangles tile the interior? (orientation of the triangles is ignored)
pub fn tiles(input: &Input, tris: &[[usize; 3]]) -> bool {
    let boundary = interior_boundary(input);
    let conforming = || {
        let mut m: HashMap<(usize, usize), i32> = HashMap::with_capacity(tris.len() * 3);
        let mut add = |a: usize, b: usize, s: i32| if a < b { *m.entry((a, b)).or_default() += s } else { *m.entry((b, a)).or_default() -= s };
        for &(u, v) in &boundary {
            add(u, v, -1);
        }
        for t in tris {
            let c = cross(input.pts[t[0]], input.pts[t[1]], input.pts[t[2]]);
            if c == 0 {
                return false;
            }
            let t = if c > 0 { *t } else { [t[0], t[2], t[1]] };
            add(t[0], t[1], 1);
            add(t[1], t[2], 1);
            add(t[2], t[0], 1);
        }
        m.values().all(|v| *v == 0)
    };
    if conforming() {
        return true;
    }
    let used: Vec<usize> = input.rings.iter().flatten().copied().collect();
    let mut m: HashMap<(usize, usize), i32> = HashMap::new();
    let mut add = |a: usize, b: usize, s: i32| {
        let (p, q) = (input.pts[a], input.pts[b]);
        let mut on: Vec<_> = used.iter().copied().filter(|&w| on_segment(p, q, input.pts[w])).map(|w| (dot(p, q, input.pts[w]), w)).collect();
        on.sort_unstable();
        for w in on.windows(2) {
            let (a, b) = (w[0].1, w[1].1);
            if a < b { *m.entry((a, b)).or_default() += s } else { *m.entry((b, a)).or_default() -= s }
        }
    };
    for &(u, v) in &boundary {
        add(u, v, -1);
    }
    for t in tris {
        let c = cross(input.pts[t[0]], input.pts[t[1]], input.pts[t[2]]);
        if c == 0 {
            continue;
        }
        let t = if c > 0 { *t } else { [t[0], t[2], t[1]] };
        add(t[0], t[1], 1);
        add(t[1], t[2], 1);
        add(t[2], t[0], 1);
    }
    m.values().all(|v| *v == 0)
}
