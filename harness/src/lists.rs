//! Polygon list types under test

use triangulate::{PolygonElement, PolygonList, Vertex};

use crate::geom::{Input, Pt};

/// A user-defined polygon list: one vertex buffer, and a stream of indices and separators
pub struct Flat<V> {
    pub verts: Vec<V>,
    pub stream: Vec<Option<usize>>,
}

impl<V> Flat<V> {
    pub fn new(input: &Input, vertex: impl Fn(Pt) -> V) -> Self {
        let mut stream = Vec::with_capacity(input.n() + input.rings.len());
        for (k, r) in input.rings.iter().enumerate() {
            if k > 0 {
                stream.push(None);
            }
            stream.extend(r.iter().map(|&i| Some(i)));
        }
        Self { verts: input.pts.iter().map(|&p| vertex(p)).collect(), stream }
    }
}

impl Flat<[f64; 2]> {
    pub fn f64(input: &Input) -> Self {
        Self::new(input, |p| input.place.coords(p))
    }
}

impl<'p, V: Vertex + 'p> PolygonList<'p> for Flat<V> {
    type Vertex = V;
    type Index = usize;
    type IntoItem = Option<usize>;
    type Iter<'i> = std::iter::Copied<std::slice::Iter<'i, Option<usize>>>
    where Self: 'i, V: 'i, 'p: 'i;

    fn vertex_count(&self) -> usize {
        self.stream.iter().flatten().count()
    }

    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where Self: 'i, V: 'i, 'p: 'i {
        self.stream.iter().copied()
    }

    fn get_vertex<'a>(&'a self, index: usize) -> &'a V
    where 'p: 'a {
        &self.verts[index]
    }
}

/// 1-based vertex id of a `Flat` index, 0 if there is no such vertex
pub fn flat_id(n: usize) -> impl Fn(&usize) -> u32 {
    move |&i| if i < n { i as u32 + 1 } else { 0 }
}

pub fn nested<V>(input: &Input, vertex: impl Fn(Pt) -> V) -> Vec<Vec<V>> {
    input.rings.iter().map(|r| r.iter().map(|&i| vertex(input.pts[i])).collect()).collect()
}

/// Vertex ids of the indices of a nested list
pub fn nested_id(input: &Input) -> impl Fn(&[usize; 2]) -> u32 {
    let rings = input.rings.clone();
    move |&[a, b]| rings.get(a).and_then(|r| r.get(b)).map_or(0, |&i| i as u32 + 1)
}

/// A user-defined polygon list whose stream consists of `PolygonElement`s
pub struct Elements<V> {
    pub verts: Vec<V>,
    pub stream: Vec<Option<usize>>,
}

impl<'p, V: Vertex + 'p> PolygonList<'p> for Elements<V> {
    type Vertex = V;
    type Index = usize;
    type IntoItem = PolygonElement<usize>;
    type Iter<'i> = ElementIter<'i>
    where Self: 'i, V: 'i, 'p: 'i;

    fn vertex_count(&self) -> usize {
        self.stream.iter().flatten().count()
    }

    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where Self: 'i, V: 'i, 'p: 'i {
        ElementIter(self.stream.iter())
    }

    fn get_vertex<'a>(&'a self, index: usize) -> &'a V
    where 'p: 'a {
        &self.verts[index]
    }
}

pub struct ElementIter<'i>(std::slice::Iter<'i, Option<usize>>);

impl Iterator for ElementIter<'_> {
    type Item = PolygonElement<usize>;

    fn next(&mut self) -> Option<Self::Item> {
        Some(match self.0.next()? {
            Some(i) => PolygonElement::ContinuePolygon(*i),
            None => PolygonElement::NewPolygon,
        })
    }
}
