//! C01-C06: explicit-state search over the real planar graph.
//!
//! A state is a real `PlanarGraph`; a transition calls one real operation on a clone of it. States are merged when
//! their complete observable content (node order, exact positions, node data, edge order, endpoints, edge data) is
//! equal. Each transition is compared with a reference model that computes the expected successor from the observed
//! predecessor: straight-line geometry in f64, three-valued ("the same / distinct / too close to tell") so that the
//! verdict never depends on rounding, and exact set arithmetic for everything combinatorial.

use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::{self, Write};

use kami::glm::Vec2;
use kami::graph::planar_graph::{Node, PlanarGraph, PlanarGraphError};

use crate::engine::{dom, Class, Cx, Dom, Plan, Tier};
use crate::geom::{grid, tr, Tr, P};
use crate::util::{hash128, subsets};

// ----------------------------------------------------------------------------------------------- observed states

thread_local!(static SEEN: Cell<u32> = Cell::new(0));

/// Node and edge data. Node data is not exposed by an accessor, only through `Debug`, which reports it here.
#[derive(Copy, Clone, Default, PartialEq)]
pub struct Tag(pub u32);

impl fmt::Debug for Tag {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        SEEN.with(|s| s.set(self.0));
        Ok(())
    }
}

struct Nowhere;
impl Write for Nowhere {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}

fn node_tag(n: &Node<Tag>) -> u32 {
    SEEN.with(|s| s.set(0));
    let _ = write!(Nowhere, "{:?}", n);
    SEEN.with(|s| s.get())
}

pub type G = PlanarGraph<Tag, Tag>;

#[derive(Clone, PartialEq)]
pub struct Snap {
    /// position bits, data
    pub nodes: Vec<(u32, u32, u32)>,
    /// src, dst, data
    pub edges: Vec<(usize, usize, u32)>,
}

pub fn snap(g: &G) -> Snap {
    Snap {
        nodes: g.get_nodes().iter().map(|n| (n.get_position().x.to_bits(), n.get_position().y.to_bits(), node_tag(n))).collect(),
        edges: g.get_edges().iter().map(|e| (e.get_node_indices().0, e.get_node_indices().1, e.get_data().0)).collect(),
    }
}

impl Snap {
    pub fn pos(&self, i: usize) -> [f64; 2] {
        [f32::from_bits(self.nodes[i].0) as f64, f32::from_bits(self.nodes[i].1) as f64]
    }
    fn key(&self) -> u128 {
        let mut b = Vec::with_capacity(12 * self.nodes.len() + 12 * self.edges.len() + 4);
        b.extend_from_slice(&(self.nodes.len() as u32).to_le_bytes());
        for n in &self.nodes {
            // -0.0 and 0.0 stay distinct states
            for w in &[n.0, n.1, n.2] { b.extend_from_slice(&w.to_le_bytes()); }
        }
        for e in &self.edges {
            for w in &[e.0 as u32, e.1 as u32, e.2] { b.extend_from_slice(&w.to_le_bytes()); }
        }
        hash128(&b)
    }
    /// All indices refer to existing nodes.
    fn sound(&self) -> bool {
        let n = self.nodes.len();
        self.edges.iter().all(|e| e.0 < n && e.1 < n)
    }
    fn scale(&self) -> f64 {
        self.nodes.iter().fold(1.0f64, |m, n| m.max(f32::from_bits(n.0).abs() as f64).max(f32::from_bits(n.1).abs() as f64))
    }
    fn degree(&self, v: usize) -> usize {
        self.edges.iter().filter(|e| e.0 == v || e.1 == v).count()
    }
    pub fn show(&self) -> String {
        let n: Vec<String> = (0..self.nodes.len()).map(|i| format!("{}:({:?}, {:?})", i, f32::from_bits(self.nodes[i].0), f32::from_bits(self.nodes[i].1))).collect();
        let e: Vec<String> = self.edges.iter().map(|e| format!("{}-{}#{}", e.0, e.1, e.2)).collect();
        format!("nodes [{}] edges [{}]", n.join(" "), e.join(" "))
    }
}

// ----------------------------------------------------------------------------------------------------- operations

#[derive(Clone, Copy, PartialEq)]
enum Op {
    AddNode(f32, f32, u32),
    AddEdge(usize, usize, u32),
    RemEdge(usize),
    RemNode(usize),
}

impl Op {
    fn show(&self) -> String {
        match self {
            Op::AddNode(x, y, t) => format!("add_node(({:?}, {:?}), #{})", x, y, t),
            Op::AddEdge(a, b, t) => format!("add_edge({}, {}, #{})", ix(*a), ix(*b), t),
            Op::RemEdge(i) => format!("remove_edge({})", ix(*i)),
            Op::RemNode(i) => format!("remove_node({})", ix(*i)),
        }
    }
}

fn ix(i: usize) -> String {
    if i == usize::MAX { "usize::MAX".into() } else { i.to_string() }
}

/// Indices that do not exist but equal existing ones if some of their bits are lost.
fn alias(i: usize) -> Vec<usize> {
    vec![i + (1 << 16), i + (1 << 32), i + (1 << 63)]
}

enum Rep {
    Node(usize, Vec<usize>),
    Edge(Vec<usize>, Vec<usize>),
    NoVertex,
    NoEdge,
    Rem(Vec<usize>, Vec<usize>),
}

impl Rep {
    /// What a result says; the order of the reported slots does not matter.
    fn same(&self) -> (u8, usize, BTreeSet<usize>, BTreeSet<usize>) {
        let set = |v: &Vec<usize>| v.iter().cloned().collect::<BTreeSet<usize>>();
        match self {
            Rep::Node(i, e) => (0, *i, BTreeSet::new(), set(e)),
            Rep::Edge(n, e) => (1, 0, set(n), set(e)),
            Rep::NoVertex => (2, 0, BTreeSet::new(), BTreeSet::new()),
            Rep::NoEdge => (3, 0, BTreeSet::new(), BTreeSet::new()),
            Rep::Rem(n, e) => (4, 0, set(n), set(e)),
        }
    }
}

fn apply(g: &mut G, op: Op) -> Rep {
    match op {
        Op::AddNode(x, y, t) => {
            let (i, e) = g.add_node(&Vec2::new(x, y), Tag(t));
            Rep::Node(i, e)
        }
        Op::AddEdge(a, b, t) => match g.add_edge(a, b, Tag(t)) {
            Ok((n, e)) => Rep::Edge(n, e),
            Err(PlanarGraphError::NoSuchVertex) => Rep::NoVertex,
            Err(PlanarGraphError::NoSuchEdge) => Rep::NoEdge,
        },
        Op::RemEdge(i) => {
            let (n, e) = g.remove_edge(i);
            Rep::Rem(n, e)
        }
        Op::RemNode(i) => {
            let (n, e) = g.remove_node(i);
            Rep::Rem(n, e)
        }
    }
}

/// Data for an added node / edge: depends on where it is, and differs from what is already there.
fn tag_of(words: &[u32], taken: bool) -> u32 {
    let mut h: u32 = 0x811c9dc5;
    for w in words {
        for b in &w.to_le_bytes() { h = (h ^ *b as u32).wrapping_mul(0x01000193); }
    }
    ((h >> 3) % 400000) * 2 + 2 + taken as u32
}

// ------------------------------------------------------------------------------------------------ f64 plane geometry

pub type V = [f64; 2];
pub fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1]] }
pub fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] }
pub fn crs(a: V, b: V) -> f64 { a[0] * b[1] - a[1] * b[0] }
pub fn len(a: V) -> f64 { (a[0] * a[0] + a[1] * a[1]).sqrt() }
pub fn seg_dist(a: V, b: V, p: V) -> f64 {
    let d = sub(b, a);
    let l2 = dot(d, d);
    if l2 == 0.0 { return len(sub(p, a)); }
    let t = (dot(sub(p, a), d) / l2).max(0.0).min(1.0);
    len(sub(p, [a[0] + t * d[0], a[1] + t * d[1]]))
}

/// Closer than this (times the scale) is certainly "the same" for the model, farther than `FAR` certainly distinct;
/// the model gives no verdict in between.
pub const SAME: f64 = 5e-7;
pub const FAR: f64 = 1e-4;
/// A drawing in which features that must be apart are this close is certainly not plane.
const BROKEN: f64 = 1e-6;
/// Edges that reach this far past each other certainly cross.
const CROSSED: f64 = 4e-6;

#[derive(PartialEq, Clone, Copy)]
enum Tri { Yes, No, Unclear }

fn tri(d: f64, m: f64) -> Tri {
    if d <= SAME * m { Tri::Yes } else if d >= FAR * m { Tri::No } else { Tri::Unclear }
}

/// The model declines to judge this transition (features between rounding and 1e-4 of the scale apart).
struct Unclear;

// ------------------------------------------------------------------------------------------------------- monitors

/// C01: why the state is not a plane straight-line drawing.
fn not_plane(s: &Snap) -> Option<String> {
    let m = s.scale();
    let n = s.nodes.len();
    let p: Vec<V> = (0..n).map(|i| s.pos(i)).collect();
    for i in 0..n {
        if !(p[i][0].is_finite() && p[i][1].is_finite()) { return Some(format!("node {} is at {:?}", i, p[i])); }
        for j in 0..i {
            if len(sub(p[i], p[j])) <= BROKEN * m { return Some(format!("nodes {} and {} are at the same position {:?}", j, i, p[i])); }
        }
    }
    for (i, e) in s.edges.iter().enumerate() {
        if e.0 >= n || e.1 >= n { return Some(format!("edge {} refers to a node that does not exist", i)); }
        if e.0 == e.1 { return Some(format!("edge {} joins node {} to itself", i, e.0)); }
    }
    for (i, e) in s.edges.iter().enumerate() {
        let (a, b) = (p[e.0], p[e.1]);
        let (lx, hx, ly, hy) = (a[0].min(b[0]), a[0].max(b[0]), a[1].min(b[1]), a[1].max(b[1]));
        let w = BROKEN * m;
        for v in 0..n {
            if v == e.0 || v == e.1 { continue; }
            if p[v][0] < lx - w || p[v][0] > hx + w || p[v][1] < ly - w || p[v][1] > hy + w { continue; }
            if seg_dist(a, b, p[v]) <= w { return Some(format!("node {} lies in the interior of edge {} ({}-{})", v, i, e.0, e.1)); }
        }
        for (j, f) in s.edges.iter().enumerate().take(i) {
            if (f.0, f.1) == (e.0, e.1) || (f.1, f.0) == (e.0, e.1) { return Some(format!("edges {} and {} both join nodes {} and {}", j, i, e.0, e.1)); }
            if f.0 == e.0 || f.0 == e.1 || f.1 == e.0 || f.1 == e.1 { continue; }
            let (c, d) = (p[f.0], p[f.1]);
            if c[0].max(d[0]) < lx || c[0].min(d[0]) > hx || c[1].max(d[1]) < ly || c[1].min(d[1]) > hy { continue; }
            let (ab, cd) = (sub(b, a), sub(d, c));
            let (lab, lcd) = (len(ab), len(cd));
            let (oc, od) = (crs(ab, sub(c, a)) / lab, crs(ab, sub(d, a)) / lab);
            let (oa, ob) = (crs(cd, sub(a, c)) / lcd, crs(cd, sub(b, c)) / lcd);
            let opp = |x: f64, y: f64| (x > CROSSED * m && y < -CROSSED * m) || (x < -CROSSED * m && y > CROSSED * m);
            if opp(oc, od) && opp(oa, ob) { return Some(format!("edges {} ({}-{}) and {} ({}-{}) cross", j, f.0, f.1, i, e.0, e.1)); }
        }
    }
    None
}

/// An edge as the model expects it after an addition.
#[derive(Clone, Copy)]
struct Want {
    a: usize,
    b: usize,
    data: u32,
    directed: bool,
}

/// What an addition must lead to: kept nodes, new node positions (with allowed error), edges over both.
struct Expect {
    same_as_before: bool,
    new_nodes: Vec<(V, f64)>,
    edges: Vec<Want>,
    class: Class,
}

fn unchanged(class: Class) -> Expect {
    Expect { same_as_before: true, new_nodes: vec![], edges: vec![], class }
}

fn expect_add_node(s: &Snap, p: V) -> Result<Expect, Unclear> {
    let m = s.scale().max(p[0].abs()).max(p[1].abs());
    for i in 0..s.nodes.len() {
        match tri(len(sub(p, s.pos(i))), m) {
            Tri::Yes => return Ok(unchanged("node already there")),
            Tri::Unclear => return Err(Unclear),
            Tri::No => {}
        }
    }
    let n = s.nodes.len();
    let mut edges = vec![];
    let mut split = 0;
    for e in &s.edges {
        match tri(seg_dist(s.pos(e.0), s.pos(e.1), p), m) {
            Tri::Yes => {
                split += 1;
                edges.push(Want { a: e.0, b: n, data: e.2, directed: false });
                edges.push(Want { a: n, b: e.1, data: e.2, directed: false });
            }
            Tri::No => edges.push(Want { a: e.0, b: e.1, data: e.2, directed: true }),
            Tri::Unclear => return Err(Unclear),
        }
    }
    // in a plane drawing, only edges that meet in a very flat corner can both contain the point (up to rounding)
    if split > 1 { return Err(Unclear); }
    Ok(Expect { same_as_before: false, new_nodes: vec![(p, 0.0)], edges, class: if split > 0 { "node splits an edge" } else { "free node" } })
}

fn expect_add_edge(s: &Snap, a: usize, b: usize, data: u32) -> Result<Expect, Unclear> {
    let n = s.nodes.len();
    if a >= n || b >= n { return Ok(unchanged("-no such node")); }
    if a == b { return Ok(unchanged("self edge")); }
    if s.edges.iter().any(|e| (e.0, e.1) == (a, b) || (e.1, e.0) == (a, b)) { return Ok(unchanged("edge already there")); }
    let m = s.scale();
    let (pa, pb) = (s.pos(a), s.pos(b));
    let ab = sub(pb, pa);
    let l = len(ab);
    if tri(l, m) != Tri::No { return Err(Unclear); }
    // stops along the segment: (parameter, node id)
    let mut stops: Vec<(f64, usize)> = vec![(0.0, a), (1.0, b)];
    let mut through = 0;
    let mut on = vec![false; n];
    on[a] = true;
    on[b] = true;
    for v in 0..n {
        if v == a || v == b { continue; }
        match tri(seg_dist(pa, pb, s.pos(v)), m) {
            Tri::Yes => {
                on[v] = true;
                through += 1;
                stops.push((dot(sub(s.pos(v), pa), ab) / (l * l), v));
            }
            Tri::No => {}
            Tri::Unclear => return Err(Unclear),
        }
    }
    let mut new_nodes: Vec<(V, f64)> = vec![];
    let mut edges = vec![];
    for e in &s.edges {
        let (c, d) = (s.pos(e.0), s.pos(e.1));
        let keep = Want { a: e.0, b: e.1, data: e.2, directed: true };
        if on[e.0] || on[e.1] {
            // an edge that touches the segment with an end cannot also cross it (two lines), and neither can one
            // that runs along it contain `a` or `b` in its interior (the predecessor is plane)
            edges.push(keep);
            continue;
        }
        let cd = sub(d, c);
        let den = crs(ab, cd);
        let (t, u) = (crs(sub(c, pa), cd) / den, crs(sub(c, pa), ab) / den);
        let crossing = den != 0.0 && t > 0.0 && t < 1.0 && u > 0.0 && u < 1.0;
        if !crossing {
            // no contact: an end within tolerance would have been a node on the segment, or a node on an edge
            for q in &[pa, pb] {
                if tri(seg_dist(c, d, *q), m) != Tri::No { return Err(Unclear); }
            }
            edges.push(keep);
            continue;
        }
        let x = [pa[0] + t * ab[0], pa[1] + t * ab[1]];
        let sin = den.abs() / (l * len(cd));
        let tol = 3e-6 * m + 1e-6 * m / sin;
        if tol > 0.2 * FAR * m { return Err(Unclear); }
        for v in 0..n {
            if tri(len(sub(x, s.pos(v))), m) != Tri::No { return Err(Unclear); }
        }
        for y in &new_nodes {
            if tri(len(sub(x, y.0)), m) != Tri::No { return Err(Unclear); }
        }
        let id = n + new_nodes.len();
        new_nodes.push((x, tol));
        stops.push((t, id));
        edges.push(Want { a: e.0, b: id, data: e.2, directed: false });
        edges.push(Want { a: id, b: e.1, data: e.2, directed: false });
    }
    stops.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    let mut shared = 0;
    for w in stops.windows(2) {
        let (x, y) = (w[0].1, w[1].1);
        if x < n && y < n && s.edges.iter().any(|e| (e.0, e.1) == (x, y) || (e.1, e.0) == (x, y)) {
            shared += 1;
        } else {
            edges.push(Want { a: x, b: y, data, directed: false });
        }
    }
    let class = match (shared > 0, new_nodes.len(), through) {
        (true, 0, _) => "overlap",
        (true, _, _) => "overlap and crossings",
        (_, 0, 0) => "free edge",
        (_, 0, _) => "through nodes",
        (_, 1, 0) => "one crossing",
        (_, _, 0) => "several crossings",
        _ => "crossings and through nodes",
    };
    Ok(Expect { same_as_before: false, new_nodes, edges, class })
}

fn judge_add(pre: &Snap, op: Op, rep: &Rep, post: &Snap) -> Result<Class, String> {
    let ex = match op {
        Op::AddNode(x, y, _) => expect_add_node(pre, [x as f64, y as f64]),
        Op::AddEdge(a, b, d) => expect_add_edge(pre, a, b, d),
        _ => return Ok("-not an addition"),
    };
    let ex = match ex {
        Ok(e) => e,
        Err(Unclear) => return Ok("-too close to tell"),
    };
    if ex.same_as_before {
        if post != pre { return Err(format!("{}: the graph changed from {} to {}", ex.class, pre.show(), post.show())); }
        if let (Op::AddNode(x, y, _), Rep::Node(i, e)) = (op, rep) {
            let m = pre.scale();
            if *i >= pre.nodes.len() || len(sub([x as f64, y as f64], pre.pos(*i))) > 3e-6 * m { return Err(format!("returned node index {}, which is not the node at that position", i)); }
            if !e.is_empty() { return Err(format!("nothing changed but edges {:?} were returned", e)); }
        }
        return Ok(ex.class);
    }
    let (n, k) = (pre.nodes.len(), ex.new_nodes.len());
    let fail = |m: String| Err(format!("{}; before: {}; after: {}", m, pre.show(), post.show()));
    if post.nodes.len() != n + k { return fail(format!("{} new nodes, expected {}", post.nodes.len() as i64 - n as i64, k)); }
    if let Some(i) = (0..n).find(|&i| pre.nodes[i] != post.nodes[i]) { return fail(format!("node {} changed", i)); }
    // expected node id -> actual index
    let mut map: Vec<usize> = (0..n).collect();
    let mut free: Vec<usize> = (n..n + k).collect();
    for (x, tol) in &ex.new_nodes {
        let best = free.iter().cloned().min_by(|i, j| len(sub(post.pos(*i), *x)).partial_cmp(&len(sub(post.pos(*j), *x))).unwrap_or(std::cmp::Ordering::Equal)).unwrap();
        if !(len(sub(post.pos(best), *x)) <= *tol) { return fail(format!("no new node at {:?}", x)); }
        free.retain(|f| *f != best);
        map.push(best);
    }
    if let (Op::AddNode(x, y, t), Rep::Node(i, _)) = (op, rep) {
        if post.nodes[n] != (x.to_bits(), y.to_bits(), t) { return fail("the new node does not have the given position and data".into()); }
        if *i != n { return fail(format!("returned node index {}, expected {}", i, n)); }
    }
    if let (Op::AddEdge(..), Rep::NoVertex) | (Op::AddEdge(..), Rep::NoEdge) = (op, rep) { return fail("an error was returned".into()); }
    let un = |a: usize, b: usize, d: u32| (a.min(b), a.max(b), d);
    let mut want: Vec<_> = ex.edges.iter().map(|w| un(map[w.a], map[w.b], w.data)).collect();
    let mut got: Vec<_> = post.edges.iter().map(|e| un(e.0, e.1, e.2)).collect();
    want.sort();
    got.sort();
    if want != got {
        let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
        return fail(format!("{}: edges (node, node, data) missing: {:?}, superfluous: {:?} (or present a wrong number of times)", ex.class, missing, extra));
    }
    for w in ex.edges.iter().filter(|w| w.directed) {
        if !post.edges.contains(&(w.a, w.b, w.data)) { return fail(format!("the untouched edge {}-{} was turned round", w.a, w.b)); }
    }
    Ok(ex.class)
}

type NodeId = (u32, u32, u32);
fn node_id(s: &Snap, i: usize) -> NodeId { s.nodes[i] }

fn judge_remove(pre: &Snap, op: Op, post: &Snap) -> Result<Class, String> {
    let n = pre.nodes.len();
    let mut dead_n: BTreeSet<usize> = BTreeSet::new();
    let mut dead_e: BTreeSet<usize> = BTreeSet::new();
    let class = match op {
        Op::RemEdge(i) => {
            if i < pre.edges.len() {
                dead_e.insert(i);
                let e = pre.edges[i];
                for v in &[e.0, e.1] { if pre.degree(*v) == 1 { dead_n.insert(*v); } }
            }
            if i >= pre.edges.len() { "-no such edge" } else if i + 1 == pre.edges.len() { match dead_n.len() { 0 => "last edge", 1 => "last edge, one stray", _ => "last edge, two strays" } }
            else { match dead_n.len() { 0 => "edge", 1 => "edge, one stray", _ => "edge, two strays" } }
        }
        Op::RemNode(v) => {
            if v < n {
                dead_n.insert(v);
                for (i, e) in pre.edges.iter().enumerate() { if e.0 == v || e.1 == v { dead_e.insert(i); } }
                for w in 0..n {
                    let inc: Vec<_> = pre.edges.iter().enumerate().filter(|(_, e)| e.0 == w || e.1 == w).map(|x| x.0).collect();
                    if !inc.is_empty() && inc.iter().all(|i| dead_e.contains(i)) { dead_n.insert(w); }
                }
            }
            if v >= n { "-no such node" } else if dead_e.is_empty() { "isolated node" } else { match dead_n.len() { 1 => "node", 2 => "node, one stray", _ => "node, several strays" } }
        }
        _ => return Ok("-not a removal"),
    };
    let mut want_n: Vec<NodeId> = (0..n).filter(|i| !dead_n.contains(i)).map(|i| node_id(pre, i)).collect();
    let mut got_n: Vec<NodeId> = (0..post.nodes.len()).map(|i| node_id(post, i)).collect();
    want_n.sort();
    got_n.sort();
    let fail = |m: String| Err(format!("{}; before: {}; after: {}", m, pre.show(), post.show()));
    if want_n != got_n { return fail(format!("the surviving nodes are not nodes {:?} of before", (0..n).filter(|i| !dead_n.contains(i)).collect::<Vec<_>>())); }
    if !post.sound() { return fail("an edge refers to a node that does not exist".into()); }
    let mut want_e: Vec<(NodeId, NodeId, u32)> = pre.edges.iter().enumerate().filter(|(i, _)| !dead_e.contains(i)).map(|(_, e)| (node_id(pre, e.0), node_id(pre, e.1), e.2)).collect();
    let mut got_e: Vec<(NodeId, NodeId, u32)> = post.edges.iter().map(|e| (node_id(post, e.0), node_id(post, e.1), e.2)).collect();
    want_e.sort();
    got_e.sort();
    if want_e != got_e { return fail(format!("the surviving edges are not edges {:?} of before, joining the same nodes", (0..pre.edges.len()).filter(|i| !dead_e.contains(i)).collect::<Vec<_>>())); }
    Ok(class)
}

fn judge_report(pre: &Snap, rep: &Rep, post: &Snap) -> Result<Class, String> {
    if !pre.sound() || !post.sound() { return Ok("-dangling"); }
    let diff = |a: usize, b: usize, eq: &dyn Fn(usize) -> bool| -> BTreeSet<usize> { (0..a.max(b)).filter(|&i| i >= a || i >= b || !eq(i)).collect() };
    let dn = diff(pre.nodes.len(), post.nodes.len(), &|i| pre.nodes[i] == post.nodes[i]);
    let phys = |s: &Snap, i: usize| {
        let e = s.edges[i];
        let (x, y) = (node_id(s, e.0), node_id(s, e.1));
        (x.min(y), x.max(y), e.2)
    };
    let de = diff(pre.edges.len(), post.edges.len(), &|i| phys(pre, i) == phys(post, i));
    let (rn, re): (Option<&Vec<usize>>, Option<&Vec<usize>>) = match rep {
        Rep::Node(_, e) => (None, Some(e)),
        Rep::Edge(n, e) | Rep::Rem(n, e) => (Some(n), Some(e)),
        _ => (None, None),
    };
    let set = |v: &Vec<usize>| v.iter().cloned().collect::<BTreeSet<usize>>();
    let fail = |m: String| Err(format!("{}; before: {}; after: {}", m, pre.show(), post.show()));
    match rn {
        Some(r) if set(r) != dn => return fail(format!("reported nodes {:?}, changed nodes {:?}", r, dn)),
        None if matches!(rep, Rep::NoVertex | Rep::NoEdge) && !dn.is_empty() => return fail(format!("an error was returned but nodes {:?} changed", dn)),
        _ => {}
    }
    match re {
        Some(r) if set(r) != de => return fail(format!("reported edges {:?}, changed edges {:?}", r, de)),
        None if !de.is_empty() => return fail(format!("an error was returned but edges {:?} changed", de)),
        _ => {}
    }
    Ok(match (rep, dn.is_empty(), de.is_empty()) {
        (Rep::NoVertex, _, _) | (Rep::NoEdge, _, _) => "-error",
        (_, true, true) => "nothing changed",
        (Rep::Node(..), _, true) => "node added",
        (Rep::Node(..), _, _) => "node added, edges split",
        (Rep::Edge(..), true, _) => "edges added or split",
        (Rep::Edge(..), _, _) => "nodes and edges added",
        (Rep::Rem(..), true, _) => "edges removed",
        (Rep::Rem(..), _, true) => "node removed",
        (Rep::Rem(..), _, _) => "nodes and edges removed",
    })
}

fn judge_safety(pre: &Snap, op: Op, rep: &Rep, post: &Snap) -> Result<Class, String> {
    if !post.sound() { return Err(format!("an edge refers to a node that does not exist: {}", post.show())); }
    let (n, m) = (pre.nodes.len(), pre.edges.len());
    let invalid = match op {
        Op::AddNode(..) => false,
        Op::AddEdge(a, b, _) => a >= n || b >= n,
        Op::RemEdge(i) => i >= m,
        Op::RemNode(i) => i >= n,
    };
    if invalid {
        if post != pre { return Err(format!("the index does not exist, but the graph changed from {} to {}", pre.show(), post.show())); }
        match (op, rep) {
            (Op::AddEdge(..), Rep::NoVertex) => {}
            (Op::AddEdge(..), _) => return Err("a node does not exist, but no such-vertex error was returned".into()),
            (_, Rep::Rem(a, b)) if a.is_empty() && b.is_empty() => {}
            (_, Rep::Rem(a, b)) => return Err(format!("the index does not exist, but changes were reported: nodes {:?}, edges {:?}", a, b)),
            _ => {}
        }
        return Ok("index does not exist");
    }
    Ok(match op {
        Op::AddNode(..) => "add_node",
        Op::AddEdge(a, b, _) => if a == b { "add_edge to itself" } else { "add_edge" },
        Op::RemEdge(i) => if m == 1 { "remove the only edge" } else if i + 1 == m { "remove the last edge" } else { "remove_edge" },
        Op::RemNode(v) => if pre.degree(v) == 0 { "remove an isolated node" } else { "remove_node" },
    })
}

/// C28: the same operation on copies of the same graph, and the same history from the beginning.
fn judge_again(g: &G, pre: &Snap, op: Op, rep: &Rep, post: &Snap, history: Option<&[Op]>) -> Result<Class, String> {
    const TIMES: usize = 6;
    for _ in 0..TIMES {
        let mut h = g.clone();
        let r = apply(&mut h, op);
        let s = snap(&h);
        if s != *post { return Err(format!("the operation led to two different graphs, from {} once to {} and once to {}", pre.show(), post.show(), s.show())); }
        if r.same() != rep.same() { return Err(format!("the operation returned different results, once {:?} and once {:?}", rep.same(), r.same())); }
    }
    let now = snap(g);
    if now != *pre { return Err(format!("operating on a copy changed the original from {} to {}", pre.show(), now.show())); }
    if let Some(h) = history {
        let mut f = G::new();
        let mut r = None;
        for o in h.iter().chain(std::iter::once(&op)) { r = Some(apply(&mut f, *o)); }
        let s = snap(&f);
        if s != *post { return Err(format!("repeating the whole history leads to another graph: first {}, now {}", post.show(), s.show())); }
        let r = r.unwrap();
        if r.same() != rep.same() { return Err(format!("repeating the whole history leads to another result: first {:?}, now {:?}", rep.same(), r.same())); }
    }
    Ok(match (op, post == pre) {
        (_, true) => "no change, every time",
        (Op::AddNode(..), _) => "same graph after add_node",
        (Op::AddEdge(..), _) => "same graph after add_edge",
        (Op::RemEdge(..), _) => "same graph after remove_edge",
        (Op::RemNode(..), _) => "same graph after remove_node",
    })
}

fn judge_queries(g: &G) -> Result<Class, String> {
    let s = snap(g);
    let (n, m) = (s.nodes.len(), s.edges.len());
    macro_rules! eq {
        ($got:expr, $want:expr, $($what:tt)*) => {{
            let (got, want) = ($got, $want);
            if got != want { return Err(format!("{} is {:?}, expected {:?}; graph: {}", format!($($what)*), got, want, s.show())); }
        }};
    }
    eq!(g.node_count(), n, "node_count()");
    eq!(g.edge_count(), m, "edge_count()");
    let mut joined = vec![false; n * n];
    for e in &s.edges {
        joined[e.0 * n + e.1] = true;
        joined[e.1 * n + e.0] = true;
    }
    let probe = |k: usize| (0..k + 2).chain(alias(0)).chain(alias(k.max(1) - 1)).chain(vec![usize::MAX - 1, usize::MAX]).collect::<Vec<_>>();
    for i in probe(n) {
        eq!(g.has_node_at_index(i), i < n, "has_node_at_index({})", ix(i));
        let v = g.get_vertex(i);
        if v.is_some() != (i < n) || v.map_or(false, |v| (v.get_position().x.to_bits(), v.get_position().y.to_bits(), node_tag(v)) != s.nodes[i]) {
            return Err(format!("get_vertex({}) does not return the node at that index; graph: {}", ix(i), s.show()));
        }
        let want = if i < n { Some(s.degree(i)) } else { None };
        eq!(g.number_of_edges_incident_to(i), want, "number_of_edges_incident_to({})", ix(i));
        // in huge graphs: against every neighbour, nodes with close indices, and every 40th
        let others: Vec<usize> = probe(n).into_iter().filter(|&j| n <= 120 || j >= n || j % 40 == i % 40 || i.max(j) - i.min(j) < 3 || (i < n && joined[i * n + j])).collect();
        for j in others {
            let want = i < n && j < n && joined[i * n + j];
            eq!(g.has_edge_between_nodes(i, j), want, "has_edge_between_nodes({}, {})", ix(i), ix(j));
        }
    }
    for i in probe(m) {
        eq!(g.has_edge_at_index(i), i < m, "has_edge_at_index({})", ix(i));
        let e = g.get_edge(i);
        if e.is_some() != (i < m) || e.map_or(false, |e| (e.get_node_indices().0, e.get_node_indices().1, e.get_data().0) != s.edges[i]) {
            return Err(format!("get_edge({}) does not return the edge at that index; graph: {}", ix(i), s.show()));
        }
        if let Some(e) = e {
            for v in probe(n) {
                eq!(e.includes(v), v == s.edges[i].0 || v == s.edges[i].1, "edge {} includes({})", i, ix(v));
            }
        }
    }
    if snap(g) != s { return Err("the queries changed the graph".into()); }
    Ok(if n == 0 { "empty graph" } else if m == 0 { "nodes only" } else { "nodes and edges" })
}

// --------------------------------------------------------------------------------------------------------- search

/// Which actions are enabled in a state of a domain.
#[derive(Clone, Default)]
struct Acts {
    /// add_node at these positions
    points: Vec<(f32, f32)>,
    /// add_node at fractions of every edge (1/2, 1/3), computed in f32
    on_edges: bool,
    /// add_node next to nodes and edges, 2e-4 of the scale away and 3e-7 of it (rounding)
    near: bool,
    /// add_edge between all ordered pairs of existing nodes, and from each node to itself
    edges: bool,
    /// remove_edge / remove_node of everything that exists
    removals: bool,
    /// indices that do not exist
    invalid: bool,
    /// only the add_edge calls from nodes i with i % .1 == .0
    part: Option<(usize, usize)>,
    /// only about ten nodes and edges, spread over the lists, instead of all
    sparse: bool,
    /// composite: add_node twice and add_edge between the returned indices
    segs: Vec<((f32, f32), (f32, f32))>,
}

#[derive(Clone, Copy)]
enum Act {
    One(Op),
    Seg((f32, f32), (f32, f32)),
    /// removes everything: edges or nodes first (then what is left), always the first, last or middle one
    Clear(bool, u8),
}

struct State {
    /// the graph itself and its content; dropped once the state has been expanded
    live: Option<Box<(G, Snap)>>,
    parent: usize,
    ops: Vec<Op>,
}

struct Search<'a> {
    prop: &'a str,
    states: Vec<State>,
    seen: HashSet<u128>,
    /// Whether states with the same content are explored once only. What a graph keeps besides its content cannot be
    /// observed, so some domains explore every history for itself.
    merge: bool,
}

fn tag_node(s: &Snap, x: f32, y: f32) -> u32 {
    tag_of(&[1, x.to_bits(), y.to_bits()], s.nodes.iter().any(|n| n.0 == x.to_bits() && n.1 == y.to_bits()))
}

fn tag_edge(s: &Snap, a: usize, b: usize) -> u32 {
    let w = |i: usize| if i < s.nodes.len() { (s.nodes[i].0, s.nodes[i].1) } else { (i as u32, 77) };
    let (x, y) = (w(a), w(b));
    tag_of(&[2, x.0, x.1, y.0, y.1], s.edges.iter().any(|e| (e.0, e.1) == (a, b) || (e.1, e.0) == (a, b)))
}

fn actions(s: &Snap, a: &Acts) -> Vec<Act> {
    let mut v = vec![];
    let (n, m) = (s.nodes.len(), s.edges.len());
    let some = |k: usize| -> Vec<usize> {
        if !a.sparse || k <= 12 { return (0..k).collect(); }
        let mut v = vec![0, 1, 2, k / 5, k / 3, k / 2, 3 * k / 4, k - 3, k - 2, k - 1];
        v.dedup();
        v
    };
    let f = |i: usize| (f32::from_bits(s.nodes[i].0), f32::from_bits(s.nodes[i].1));
    let mut node = |v: &mut Vec<Act>, x: f32, y: f32| v.push(Act::One(Op::AddNode(x, y, tag_node(s, x, y))));
    for &(x, y) in &a.points { node(&mut v, x, y); }
    if a.on_edges {
        for e in some(m).into_iter().map(|i| &s.edges[i]) {
            let (p, q) = (f(e.0), f(e.1));
            node(&mut v, (p.0 + q.0) * 0.5, (p.1 + q.1) * 0.5);
            node(&mut v, p.0 + (q.0 - p.0) / 3.0, p.1 + (q.1 - p.1) / 3.0);
        }
    }
    if a.near {
        let w = 2e-4 * s.scale() as f32;
        let r = 3e-7 * s.scale() as f32;
        for i in 0..n {
            let p = f(i);
            node(&mut v, p.0 + w, p.1);
            node(&mut v, p.0, p.1 - w);
            // off by less than rounding: still the same node
            node(&mut v, p.0 - r, p.1);
            node(&mut v, p.0, p.1 + r);
        }
        for e in &s.edges {
            let (p, q) = (f(e.0), f(e.1));
            let (dx, dy) = (q.0 - p.0, q.1 - p.1);
            let l = (dx * dx + dy * dy).sqrt();
            if l > 0.0 {
                node(&mut v, p.0 + 0.4 * dx - w * dy / l, p.1 + 0.4 * dy + w * dx / l);
                node(&mut v, q.0 + w * dx / l, q.1 + w * dy / l);
                // off by less than rounding: still on the edge
                node(&mut v, p.0 + 0.4 * dx + r * dy / l, p.1 + 0.4 * dy - r * dx / l);
            }
        }
    }
    if a.edges {
        for i in some(n) {
            if a.part.map_or(false, |(k, m)| i % m != k) { continue; }
            for j in some(n) { v.push(Act::One(Op::AddEdge(i, j, tag_edge(s, i, j)))); }
        }
    }
    if a.removals {
        for i in some(m) { v.push(Act::One(Op::RemEdge(i))); }
        for i in some(n) { v.push(Act::One(Op::RemNode(i))); }
    }
    if a.invalid {
        for i in vec![m, m + 1, usize::MAX].into_iter().chain(alias(m / 2)) { v.push(Act::One(Op::RemEdge(i))); }
        for i in vec![n, n + 1, usize::MAX].into_iter().chain(alias(n / 2)) { v.push(Act::One(Op::RemNode(i))); }
        let mut pairs = vec![(n, n), (n, n + 1), (usize::MAX, usize::MAX)];
        for &x in &[n, usize::MAX] {
            for i in 0..n.min(2) { pairs.push((i, x)); pairs.push((x, i)); }
        }
        for x in alias(n / 2) { if n > 1 { pairs.push((0, x)); pairs.push((x, n - 1)); } }
        for (i, j) in pairs { v.push(Act::One(Op::AddEdge(i, j, 1))); }
    }
    for &(p, q) in &a.segs { v.push(Act::Seg(p, q)); }
    v
}

impl<'a> Search<'a> {
    fn history(&self, mut i: usize) -> Vec<Op> {
        let mut parts: Vec<&Vec<Op>> = vec![];
        loop {
            parts.push(&self.states[i].ops);
            if i == 0 { break; }
            i = self.states[i].parent;
        }
        parts.iter().rev().flat_map(|p| p.iter().cloned()).collect()
    }

    /// Executes and judges one operation. `before` = operations since state `from`.
    fn step(&self, cx: &mut Cx, from: usize, before: &[Op], pre: &Snap, g: &G, op: Op) -> Option<(G, Snap, Rep)> {
        let prop = self.prop;
        cx.transitions += 1;
        let desc = || {
            let mut h: Vec<String> = self.history(from).iter().chain(before.iter()).map(|o| o.show()).collect();
            if h.len() > 120 { let k = h.len(); h.splice(30..k - 30, vec![format!("... {} more ...", k - 60)]); }
            format!("{}after [{}], {}", "", h.join("; "), op.show())
        };
        cx.case_full(desc, |_| {
            let mut h = g.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply(&mut h, op)));
            let rep = match r {
                Ok(r) => r,
                Err(e) => {
                    let add = matches!(op, Op::AddNode(..) | Op::AddEdge(..));
                    if prop == "C02" || (prop == "C03" && add) || (prop == "C04" && !add) {
                        std::panic::resume_unwind(e);
                    }
                    return Ok(("-panics (see C02)", None));
                }
            };
            let post = snap(&h);
            let class = match prop {
                "C01" => match not_plane(&post) {
                    Some(m) => return Err(format!("{}; graph: {}", m, post.show())),
                    None => match (op, post == *pre) {
                        (_, true) => "-unchanged",
                        (Op::AddNode(..), _) => "plane after add_node",
                        (Op::AddEdge(..), _) => "plane after add_edge",
                        _ => "plane after removal",
                    },
                },
                "C02" => judge_safety(pre, op, &rep, &post)?,
                "C03" => judge_add(pre, op, &rep, &post)?,
                "C04" => judge_remove(pre, op, &post)?,
                "C28" => {
                    let new = !self.seen.contains(&post.key());
                    let h: Vec<Op> = if new { self.history(from).into_iter().chain(before.iter().cloned()).collect() } else { vec![] };
                    judge_again(g, pre, op, &rep, &post, if new { Some(&h) } else { None })?
                }
                "C05" => judge_report(pre, &rep, &post)?,
                _ if self.merge && self.seen.contains(&post.key()) => "-state queried before",
                _ => judge_queries(&h)?,
            };
            if !post.sound() || (prop == "C03" && not_plane(&post).is_some()) {
                return Ok(("-not explored further", None));
            }
            Ok((class, Some((h, post, rep))))
        }, false).and_then(|x| x)
    }

    fn act(&self, cx: &mut Cx, from: usize, a: Act) -> Option<(G, Snap, Vec<Op>)> {
        let (g, pre) = { let l = self.states[from].live.as_ref().expect("a live state"); (&l.0, &l.1) };
        match a {
            Act::One(op) => self.step(cx, from, &[], pre, g, op).map(|(h, s, _)| (h, s, vec![op])),
            Act::Seg(p, q) => {
                let o1 = Op::AddNode(p.0, p.1, tag_node(pre, p.0, p.1));
                let (g1, s1, r1) = self.step(cx, from, &[], pre, g, o1)?;
                let o2 = Op::AddNode(q.0, q.1, tag_node(&s1, q.0, q.1));
                let (g2, s2, r2) = self.step(cx, from, &[o1], &s1, &g1, o2)?;
                let (i, j) = match (r1, r2) { (Rep::Node(i, _), Rep::Node(j, _)) => (i, j), _ => return None };
                let o3 = Op::AddEdge(i, j, tag_edge(&s2, i, j));
                let (g3, s3, _) = self.step(cx, from, &[o1, o2], &s2, &g2, o3)?;
                Some((g3, s3, vec![o1, o2, o3]))
            }
            Act::Clear(edges, which) => {
                let (mut g, mut s, mut ops) = (g.clone(), pre.clone(), vec![]);
                let pick = |n: usize| match which { 0 => 0, 1 => n - 1, _ => n / 2 };
                while !s.nodes.is_empty() {
                    if cx.done() { return None; }
                    let op = if edges && !s.edges.is_empty() { Op::RemEdge(pick(s.edges.len())) } else { Op::RemNode(pick(s.nodes.len())) };
                    let (g1, s1, _) = self.step(cx, from, &ops, &s, &g, op)?;
                    // a removal that removes nothing is another check's business
                    if s1.nodes.len() + s1.edges.len() >= s.nodes.len() + s.edges.len() { return None; }
                    g = g1;
                    s = s1;
                    ops.push(op);
                }
                Some((g, s, ops))
            }
        }
    }

    /// Replays the history of a state (reached from state `i` by `ops`) on a fresh graph and compares.
    fn revalidate(&self, i: usize, ops: &[Op], want: &Snap) -> bool {
        let h = self.history(i);
        let r = std::panic::catch_unwind(|| {
            let mut g = G::new();
            for op in h.iter().chain(ops) { apply(&mut g, *op); }
            snap(&g)
        });
        r.map_or(false, |s| s == *want)
    }
}

/// Builds the seed by judged operations, then explores all action sequences up to `depth`.
fn explore(cx: &mut Cx, prop: &str, seed: &[Act], acts: &[Acts], budget: f64) {
    explore_with(cx, prop, seed, acts, budget, true)
}

fn explore_with(cx: &mut Cx, prop: &str, seed: &[Act], acts: &[Acts], budget: f64, merge: bool) {
    let g = G::new();
    let s = snap(&g);
    let mut se = Search { prop, seen: HashSet::new(), states: vec![], merge };
    se.seen.insert(s.key());
    se.states.push(State { live: Some(Box::new((g, s))), parent: 0, ops: vec![] });
    cx.states += 1;
    let mut cur = 0;
    for a in seed {
        if cx.done() { return; }
        let l = &se.states[cur].live.as_ref().unwrap().1;
        let a = match *a {
            Act::One(Op::AddNode(x, y, _)) => Act::One(Op::AddNode(x, y, tag_node(l, x, y))),
            Act::One(Op::AddEdge(i, j, _)) => Act::One(Op::AddEdge(i, j, tag_edge(l, i, j))),
            x => x,
        };
        match se.act(cx, cur, a) {
            Some((g, s, ops)) => {
                if se.seen.insert(s.key()) { cx.states += 1; }
                se.states[cur].live = None;
                se.states.push(State { live: Some(Box::new((g, s))), parent: cur, ops });
                cur = se.states.len() - 1;
            }
            None => {
                // the seed itself cannot be built (an operation panics): nothing more to explore here
                return;
            }
        }
    }
    if se.revalidate(cur, &[], &se.states[cur].live.as_ref().unwrap().1) { cx.traces += 1; }
    // as many steps as fit the budget
    let branching = acts.first().map_or(1, |a| actions(&se.states[cur].live.as_ref().unwrap().1, a).len()) as f64;
    let fits = (1..=acts.len()).filter(|d| branching.powi(*d as i32) <= budget).max().unwrap_or(1);
    let acts = &acts[..fits.min(acts.len())];
    let mut frontier = vec![cur];
    for (k, a) in acts.iter().enumerate() {
        let last = k + 1 == acts.len();
        let mut next = vec![];
        for &i in &frontier {
            if cx.done() { return; }
            for act in actions(&se.states[i].live.as_ref().unwrap().1, a) {
                if let Some((g, s, ops)) = se.act(cx, i, act) {
                    let new = se.seen.insert(s.key());
                    if new { cx.states += 1; }
                    if new || !merge {
                        if se.revalidate(i, &ops, &s) { cx.traces += 1; }
                        if !last {
                            se.states.push(State { live: Some(Box::new((g, s))), parent: i, ops });
                            next.push(se.states.len() - 1);
                        }
                    }
                }
            }
            se.states[i].live = None;
            if se.states.len() > 1_500_000 || se.seen.len() > 20_000_000 {
                // a mistake of the harness, not of the code under test
                std::process::exit(70);
            }
        }
        frontier = next;
    }
}

// --------------------------------------------------------------------------------------------------------- domains

fn xy(t: &Tr, p: P) -> (f32, f32) {
    let v = t.at(p);
    (v.x, v.y)
}

fn full(points: Vec<(f32, f32)>) -> Acts {
    Acts { points, on_edges: false, near: false, edges: true, removals: true, invalid: true, part: None, sparse: false, segs: vec![] }
}

/// Every subset of `k` lattice points as nodes; then all sequences of all operations.
fn subsets_dom(prop: &str, name: &str, pts: Vec<P>, ks: &[usize], trs: Vec<Tr>, depth: usize, extra: Vec<(f64, f64)>) -> Dom {
    let sets: Vec<Vec<usize>> = ks.iter().flat_map(|k| subsets(pts.len(), *k)).collect();
    let bound = format!("{} start node sets ({:?} of {} lattice points) x {} transformations; then all sequences of {} operations: add_node at every lattice point{}, add_edge between every ordered pair (and to itself), remove every edge, remove every node, indices that do not exist", sets.len(), ks, pts.len(), trs.len(), depth, if extra.is_empty() { "" } else { " and further points" });
    let prop = prop.to_string();
    dom(name, &bound, sets.len() * trs.len(), move |u, cx| {
        let t = trs[u / sets.len()];
        let set = &sets[u % sets.len()];
        let seed: Vec<Act> = set.iter().map(|&i| { let p = xy(&t, pts[i]); Act::One(Op::AddNode(p.0, p.1, 0)) }).collect();
        let mut points: Vec<(f32, f32)> = pts.iter().map(|&p| xy(&t, p)).collect();
        points.extend(extra.iter().map(|e| ((t.s * e.0 + t.ox) as f32, (t.s * e.1 + t.oy) as f32)));
        let acts = vec![full(points); depth];
        explore(cx, &prop, &seed, &acts, f64::INFINITY);
    })
}

/// All orders of inserting segments of a lattice.
fn segs_dom(prop: &str, name: &str, pts: Vec<P>, trs: Vec<Tr>, depth: usize, directed: bool, removals: bool) -> Dom {
    let mut pairs = vec![];
    for i in 0..pts.len() {
        for j in 0..pts.len() {
            if i < j || (directed && i > j) { pairs.push((pts[i], pts[j])); }
        }
    }
    let bound = format!("all sequences of {} insertions of the {} {}segments over {} lattice points (missing end nodes are added first){} x {} transformations", depth, pairs.len(), if directed { "directed " } else { "" }, pts.len(), if removals { " mixed with removals of any node or edge" } else { "" }, trs.len());
    let prop = prop.to_string();
    let np = pairs.len();
    // the first insertion is the unit
    dom(name, &bound, np * trs.len(), move |u, cx| {
        let t = trs[u / np];
        let seg = |p: &(P, P)| (xy(&t, p.0), xy(&t, p.1));
        let first = seg(&pairs[u % np]);
        let a = Acts { segs: pairs.iter().map(|p| seg(p)).collect(), removals, ..Acts::default() };
        let mut acts = vec![a; depth - 1];
        if removals { acts.push(Acts { removals: true, ..Acts::default() }); }
        explore(cx, &prop, &[Act::Seg(first.0, first.1)], &acts, f64::INFINITY);
    })
}

struct Seed {
    name: &'static str,
    nodes: Vec<(f64, f64)>,
    /// edges between the given nodes (looked up by position order, i.e. index in `nodes`)
    edges: Vec<(usize, usize)>,
    then: Vec<Act>,
}

fn poly(n: usize, r: f64, c: (f64, f64)) -> Vec<(f64, f64)> {
    (0..n).map(|i| { let a = 2.0 * std::f64::consts::PI * i as f64 / n as f64 + 0.1; (c.0 + r * a.cos(), c.1 + r * a.sin()) }).collect()
}

fn seeds() -> Vec<Seed> {
    let mut v = vec![];
    let mut add = |name, nodes: Vec<(f64, f64)>, edges: Vec<(usize, usize)>| v.push(Seed { name, nodes, edges, then: vec![] });
    add("empty", vec![], vec![]);
    add("one node", vec![(1.0, 2.0)], vec![]);
    add("isolated nodes on a line", (0..6).map(|i| (i as f64, i as f64)).collect(), vec![]);
    add("single edge", vec![(0.0, 0.0), (3.0, 1.0)], vec![(0, 1)]);
    add("triangle", vec![(0.0, 0.0), (4.0, 0.0), (1.0, 3.0)], vec![(0, 1), (1, 2), (2, 0)]);
    add("cross", vec![(0.0, 0.0), (4.0, 4.0), (0.0, 4.0), (4.0, 0.0)], vec![(0, 1), (2, 3)]);
    add("square with diagonals", vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)], vec![(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3)]);
    add("star with eight leaves, hub last", { let mut p = poly(8, 3.0, (0.0, 0.0)); p.push((0.0, 0.0)); p }, (0..8).map(|i| (i, 8)).collect());
    add("two hubs with leaves on both sides", vec![(0.0, 0.0), (1.0, 3.0), (3.0, 0.0), (5.0, 3.0), (6.0, 0.5), (2.0, -2.0), (4.5, -2.0), (-1.0, 2.0)], vec![(2, 0), (1, 2), (2, 5), (2, 4), (4, 3), (6, 4), (0, 7), (0, 5)]);
    add("path with a stray component", vec![(0.0, 0.0), (1.0, 1.0), (2.0, 0.5), (3.0, 1.5), (4.0, 0.0), (5.0, 5.0), (6.0, 5.0)], vec![(5, 6), (0, 1), (1, 2), (2, 3), (3, 4)]);
    add("comb of six teeth", { let mut p = vec![(-1.0, 0.0), (7.0, 0.0)]; for i in 0..6 { p.push((i as f64, -1.0)); p.push((i as f64 + 0.3, 1.0)); } p }, (0..6).map(|i| (2 + 2 * i, 3 + 2 * i)).collect());
    add("collinear chain with gaps", (0..8).map(|i| (i as f64, 0.5 * i as f64)).collect(), vec![(0, 1), (3, 2), (5, 6)]);
    add("two triangles", vec![(0.0, 0.0), (2.0, 0.0), (1.0, 2.0), (5.0, 0.0), (7.0, 1.0), (6.0, 3.0)], vec![(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)]);
    add("pentagram", poly(5, 4.0, (1.0, 1.0)), vec![(0, 2), (2, 4), (4, 1), (1, 3), (3, 0)]);
    add("complete graph on six irregular points", vec![(0.0, 0.0), (5.3, 0.7), (6.1, 4.9), (2.7, 7.3), (-1.9, 4.1), (2.3, 2.9)], { let mut e = vec![]; for i in 0..6 { for j in 0..i { e.push((j, i)); } } e });
    add("three segments through one point", vec![(-2.0, -2.0), (2.0, 2.0), (-2.0, 2.0), (2.0, -2.0), (0.0, -3.0), (0.0, 3.0), (-3.0, 0.0), (3.0, 0.0)], vec![(0, 1), (2, 3), (4, 5)]);
    add("three by three grid", grid(3, 3).iter().map(|p| (p.0 as f64 * 2.0, p.1 as f64 * 2.0)).collect(), { let mut e = vec![]; for y in 0..3 { for x in 0..3 { if x < 2 { e.push((3 * y + x, 3 * y + x + 1)); } if y < 2 { e.push((3 * y + x, 3 * y + x + 3)); } } } e });
    add("leaves before and after the hub", vec![(1.0, 4.0), (3.0, 4.0), (2.0, 2.0), (0.0, 1.0), (4.0, 1.0), (2.0, -1.0), (6.0, -1.0)], vec![(0, 2), (2, 4), (1, 2), (3, 2), (4, 5), (5, 6)]);
    add("tent: edges of many slopes from two apexes", vec![(0.0, 0.0), (10.0, 0.0), (1.0, 7.0), (3.0, 6.0), (6.0, 6.5), (9.0, 7.0)], vec![(0, 2), (0, 3), (1, 4), (1, 5), (0, 4)]);
    add("crossing pair and bystanders", vec![(0.0, 0.0), (8.0, 3.0), (1.0, 5.0), (6.0, -2.0), (9.0, 9.0), (-3.0, 4.0)], vec![(0, 1), (2, 3), (4, 5)]);
    v
}

/// Drawings with many nodes, edges, crossings and incidences.
fn large_seeds() -> Vec<Seed> {
    let mut v = vec![];
    let mut add = |name, nodes: Vec<(f64, f64)>, edges: Vec<(usize, usize)>| v.push(Seed { name, nodes, edges, then: vec![] });
    let f = |i: i64| i as f64;
    add("seven by seven grid", (0..49).map(|i| (f(i % 7), f(i / 7))).collect(), { let mut e = vec![]; for y in 0..7 { for x in 0..7 { let i = 7 * y + x; if x < 6 { e.push((i, i + 1)); } if y < 6 { e.push((i + 7, i)); } } } e });
    add("comb of 24 teeth with a spine through all", { let mut p = vec![(-1.0, 0.1), (24.0, 0.2)]; for i in 0..24 { p.push((f(i), -1.0 - 0.1 * f(i % 5))); p.push((f(i) + 0.3, 1.0)); } p }, { let mut e: Vec<_> = (0..24).map(|i| (2 + 2 * i, 3 + 2 * i)).collect(); e.push((0, 1)); e });
    add("comb of 20 teeth", { let mut p = vec![(-1.0, 0.1), (20.0, 0.2)]; for i in 0..20 { p.push((f(i), -1.0)); p.push((f(i) + 0.3, 1.0 + 0.1 * f(i % 3))); } p }, (0..20).map(|i| (3 + 2 * i, 2 + 2 * i)).collect());
    add("wheel of 24 spokes", { let mut p = poly(24, 5.0, (1.0, 1.0)); p.push((1.0, 1.0)); p }, { let mut e: Vec<_> = (0..24).map(|i| (i, 24)).collect(); e.extend((0..24).map(|i| ((i + 1) % 24, i))); e });
    add("star of 33 leaves, hub first", { let mut p = vec![(0.5, 0.5)]; p.extend(poly(33, 4.0, (0.5, 0.5))); p }, (0..33).map(|i| (0, i + 1)).collect());
    add("weave of 6 and 7 lines", { let mut p = vec![]; for i in 0..6 { p.push((-1.0, f(i))); p.push((7.0, f(i) + 0.1)); } for i in 0..7 { p.push((f(i), -1.0)); p.push((f(i) - 0.1, 6.0)); } p }, (0..13).map(|i| (2 * i, 2 * i + 1)).collect());
    add("forty disjoint edges", { let mut p = vec![]; for i in 0..40 { p.push((f(i % 8) * 2.0, f(i / 8) * 2.0)); p.push((f(i % 8) * 2.0 + 1.0, f(i / 8) * 2.0 + 0.5)); } p }, (0..40).map(|i| (2 * i, 2 * i + 1)).collect());
    add("chain of 40 nodes on a line", (0..40).map(|i| (f(i), 0.25 * f(i))).collect(), (0..39).map(|i| if i % 3 == 0 { (i, i + 1) } else { (i + 1, i) }).collect());
    add("40 isolated nodes on a line and a fan", { let mut p: Vec<(f64, f64)> = (0..30).map(|i| (f(i), 0.5 * f(i))).collect(); p.push((3.0, 20.0)); p }, (0..5).map(|i| (30, 6 * i)).collect());
    add("zigzag of 30", (0..31).map(|i| (f(i), if i % 2 == 0 { 0.0 } else { 5.0 })).collect(), (0..30).map(|i| (i, i + 1)).collect());
    add("two brooms: hubs with 14 and 12 leaves, joined by a path that goes on to both sides of the lists", { let mut p = vec![(0.0, -8.0)]; p.extend(poly(9, 2.0, (0.0, 0.0))); p.push((5.0, 9.0)); p.push((10.0, 0.0)); p.extend(poly(12, 2.0, (10.0, 0.0))); p.push((5.0, 5.0)); p.push((0.0, 0.0)); p.extend(poly(5, 3.0, (0.0, 0.0))); p.push((5.0, -9.0)); p }, { let mut e = vec![]; e.extend((1..10).map(|i| (i, 25))); e.push((10, 24)); e.extend((12..24).map(|i| (11, i))); e.push((24, 11)); e.push((25, 24)); e.extend((26..31).map(|i| (25, i))); e.push((10, 31)); e.push((0, 31)); e });
    add("caterpillar: path of 10 with two leaves each", { let mut p: Vec<(f64, f64)> = (0..10).map(|i| (2.0 * f(i), 0.0)).collect(); for i in 0..10 { p.push((2.0 * f(i) + 0.2, 2.0)); p.push((2.0 * f(i) - 0.3, -2.0)); } p }, { let mut e: Vec<_> = (0..9).map(|i| (i, i + 1)).collect(); for i in 0..10 { e.push((10 + 2 * i, i)); e.push((i, 11 + 2 * i)); } e });
    v
}

/// All single operations (and where the budget allows, pairs of removals) on large drawings.
fn large_dom(prop: &str, name: &str, trs: Vec<Tr>, removals: usize, budget: f64) -> Dom {
    let ns = large_seeds().len();
    let bound = format!("{} large start drawings ({}) x {} transformations; every single operation on each, and all sequences of up to {} removals (fewer where more than {:.0} sequences)", ns, large_seeds().iter().map(|s| s.name).collect::<Vec<_>>().join(", "), trs.len(), removals, budget);
    let prop = prop.to_string();
    // the single operations are spread over several units, the removals are one more
    let parts = 8;
    dom(name, &bound, ns * trs.len() * parts, move |u, cx| {
        let (part, u) = (u % parts, u / parts);
        let all = large_seeds();
        let s = &all[u % ns];
        let t = trs[u / ns];
        let at = |p: (f64, f64)| ((t.s * p.0 + t.ox) as f32, (t.s * p.1 + t.oy) as f32);
        let seed = seed_acts(s, &t);
        if part == 0 {
            let a = Acts { removals: true, ..Acts::default() };
            explore(cx, &prop, &seed, &vec![a; removals], budget);
        } else {
            let mut a = Acts { edges: true, part: Some((part - 1, parts - 1)), ..Acts::default() };
            if part == 1 {
                a.points = vec![at((2.25, 1.125)), at((-1.5, 0.75))];
                a.points.extend(s.nodes.iter().map(|&p| at(p)));
                a.on_edges = true;
                a.invalid = true;
            }
            explore(cx, &prop, &seed, &[a], f64::INFINITY);
        }
    })
}

/// Hundreds of nodes; single operations crossing, covering or removing hundreds of things at once.
fn huge_seeds() -> Vec<Seed> {
    let mut v = vec![];
    let mut add = |name, nodes: Vec<(f64, f64)>, edges: Vec<(usize, usize)>| v.push(Seed { name, nodes, edges, then: vec![] });
    let f = |i: i64| i as f64;
    add("comb of 300 teeth", { let mut p = vec![(-1.0, 0.1), (300.0, 0.2)]; for i in 0..300 { p.push((f(i), -1.0)); p.push((f(i) + 0.3, 1.0 + 0.1 * f(i % 3))); } p }, (0..300).map(|i| if i % 2 == 0 { (3 + 2 * i, 2 + 2 * i) } else { (2 + 2 * i, 3 + 2 * i) }).collect());
    add("150 nodes on a line, joined in threes", (0..150).map(|i| (f(i), 0.5 * f(i))).collect(), (0..50).flat_map(|i| vec![(3 * i, 3 * i + 1), (3 * i + 2, 3 * i + 1)]).collect());
    add("star of 300 leaves, hub first", { let mut p = vec![(0.5, 0.5)]; p.extend(poly(300, 40.0, (0.5, 0.5))); p }, (0..300).map(|i| (0, i + 1)).collect());
    add("star of 280 leaves, hub last", { let mut p = poly(280, 40.0, (0.5, 0.5)); p.push((0.5, 0.5)); p }, (0..280).map(|i| (i, 280)).collect());
    add("broom: hub with 270 leaves in the middle of a path, whose nodes lie between the leaves in the list", { let mut p = vec![]; let ring = poly(270, 40.0, (0.5, 0.5)); for (i, q) in ring.iter().enumerate() { p.push(*q); if i % 27 == 13 { p.push((50.0 + f(i as i64 / 27), f(i as i64 / 27 % 2) * 3.0 + 0.5)); } } p.push((0.5, 0.5)); p }, { let hub = 280; let path: Vec<usize> = (0..280).filter(|i| i % 28 == 14).collect(); let mut e: Vec<_> = (0..280).filter(|i| i % 28 != 14).map(|i| if i % 3 == 0 { (hub, i) } else { (i, hub) }).collect(); e.extend(path.windows(2).map(|w| (w[1], w[0]))); e.push((hub, path[0])); e });
    add("sixteen by sixteen grid", (0..256).map(|i| (f(i % 16), f(i / 16))).collect(), { let mut e = vec![]; for y in 0..16 { for x in 0..16 { let i = 16 * y + x; if x < 15 { e.push((i, i + 1)); } if y < 15 { e.push((i + 16, i)); } } } e });
    add("zigzag of 270", (0..271).map(|i| (f(i), if i % 2 == 0 { 0.0 } else { 25.0 })).collect(), (0..270).map(|i| (i, i + 1)).collect());
    add("140 disjoint edges", { let mut p = vec![]; for i in 0..140 { p.push((f(i % 20) * 2.0, f(i / 20) * 2.0)); p.push((f(i % 20) * 2.0 + 1.0, f(i / 20) * 2.0 + 0.5)); } p }, (0..140).map(|i| (2 * i, 2 * i + 1)).collect());
    add("wheel of 130 spokes", { let mut p = poly(130, 50.0, (1.0, 1.0)); p.push((1.0, 1.0)); p }, { let mut e: Vec<_> = (0..130).map(|i| (i, 130)).collect(); e.extend((0..130).map(|i| ((i + 1) % 130, i))); e });
    v
}

fn huge_dom(prop: &str, name: &str, trs: Vec<Tr>, depth: usize) -> Dom {
    let ns = huge_seeds().len();
    let bound = format!("{} start drawings of hundreds of nodes ({}) x {} transformations; then all sequences of {} operations on about ten nodes and edges each, spread over the lists", ns, huge_seeds().iter().map(|s| s.name).collect::<Vec<_>>().join(", "), trs.len(), depth);
    let prop = prop.to_string();
    let parts = if depth > 1 { 6 } else { 3 };
    dom(name, &bound, ns * trs.len() * parts, move |u, cx| {
        let (part, u) = (u % parts, u / parts);
        let all = huge_seeds();
        let s = &all[u % ns];
        let t = trs[u / ns];
        let at = |p: (f64, f64)| ((t.s * p.0 + t.ox) as f32, (t.s * p.1 + t.oy) as f32);
        let first = part == 0;
        let mut a = Acts { points: vec![], on_edges: first, edges: true, removals: first, invalid: first, part: Some((part, parts)), sparse: true, ..Acts::default() };
        if first { a.points = vec![at((2.25, 1.125)), at((-1.5, 0.75)), at(s.nodes[0]), at(s.nodes[s.nodes.len() - 1])]; }
        let b = Acts { part: None, points: vec![], on_edges: false, edges: false, removals: true, sparse: true, ..a.clone() };
        let mut acts = vec![a];
        if depth > 1 { acts.push(b); }
        explore(cx, &prop, &seed_acts(s, &t), &acts, f64::INFINITY);
    })
}

/// Zero has two signs, which are the same coordinate.
fn zeros_dom(prop: &str, name: &str) -> Dom {
    let z = [0.0f32, -0.0];
    let mut pts: Vec<(f32, f32)> = vec![(1.0, 1.0)];
    for &a in &z {
        for &b in &z { pts.push((a, b)); }
        pts.extend(vec![(2.0, a), (a, 2.0), (-1.0, a), (a, -1.0)]);
    }
    let segs: Vec<_> = (0..pts.len()).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| (pts[i], pts[j])).collect();
    let bound = format!("{} points whose coordinates are 1, 2, -1, 0 or -0; all sequences of two of the {} segments between them, then add_node at each", pts.len(), segs.len());
    let prop = prop.to_string();
    dom(name, &bound, segs.len(), move |u, cx| {
        let a = Acts { segs: segs.clone(), ..Acts::default() };
        let b = Acts { points: pts.clone(), ..Acts::default() };
        explore(cx, &prop, &[Act::Seg(segs[u].0, segs[u].1)], &[a, b], f64::INFINITY);
    })
}

/// New edges that pass existing nodes at distances far below the resolution of the drawing, which a remote node
/// makes large compared with what happens near the new edge.
fn near_miss_dom(prop: &str, name: &str, directions: usize, fractions: Vec<f64>, far: Vec<f64>) -> Dom {
    let bound = format!("{} directions of a base edge of length 10 x a remote node at distances {:?} (added before the edge, or never) x a node at {:?} along it, off by 0, 1.5e-7 and 3e-7 of the extent to either side: the node isolated, with one edge, with edges to both sides, with edges on one side; the edge in both directions", directions, far, fractions);
    let prop = prop.to_string();
    dom(name, &bound, directions * far.len(), move |u, cx| {
        let phi = 2.0 * std::f64::consts::PI * (u % directions) as f64 / directions as f64 + 0.02;
        let r = far[u / directions];
        let at = |x: f64, y: f64| [-2.0 + x * phi.cos() - y * phi.sin(), 1.0 + x * phi.sin() + y * phi.cos()];
        let node = |p: [f64; 2]| Act::One(Op::AddNode(p[0] as f32, p[1] as f32, 0));
        let edge = |i: usize, j: usize| Act::One(Op::AddEdge(i, j, 0));
        let remote = [0.8 * r, -0.9 * r];
        for &f in &fractions {
            if cx.done() { return; }
            for &o in &[0.0, 1.5e-7, -1.5e-7, 3e-7, -3e-7] {
                let c = at(10.0 * f, o * 0.9 * r);
                let (a, b) = (at(0.0, 0.0), at(10.0, 0.0));
                let (d, e, g) = (at(10.0 * f + 2.0, 4.0), at(10.0 * f - 1.0, -3.5), at(10.0 * f - 3.0, 3.0));
                for when in 0..2 {
                    for rev in 0..2 {
                        let (s, t) = if rev == 1 { (1, 0) } else { (0, 1) };
                        let scripts: Vec<(Vec<Act>, Vec<Act>)> = vec![
                            (vec![node(a), node(b), node(c)], vec![edge(s, t)]),
                            (vec![node(a), node(b), node(c), node(d), edge(2, 3)], vec![edge(s, t)]),
                            (vec![node(a), node(b), node(c), node(e), node(d), edge(4, 2), edge(2, 3)], vec![edge(s, t)]),
                            (vec![node(a), node(b), node(c), node(g), node(d), edge(4, 2), edge(2, 3)], vec![edge(s, t)]),
                            (vec![node(a), node(b), node(c), node(e), node(d), edge(4, 3)], vec![edge(s, t)]),
                        ];
                        for (before, after) in scripts {
                            // the remote node first would renumber the others, so it is added before the base edge
                            let mut all = before.clone();
                            if when == 0 { all.push(node(remote)); }
                            all.extend(after);
                            explore(cx, &prop, &all, &[], 1.0);
                        }
                    }
                }
            }
        }
    })
}

/// Edges that end at (or start from, or cross) another one at a shallow angle, where rounding moves the computed point
/// of intersection along the edge by much more than it moves the end point away from it.
fn shallow_dom(prop: &str, name: &str, directions: usize, fractions: Vec<f64>, angles: Vec<f64>, trs: Vec<Tr>) -> Dom {
    let bound = format!("{} directions of a base edge x {} transformations x contact at {:?} of it x angles {:?} to either side x 2 lengths: a second edge from the contact, one through it, one to either side; six orders of adding nodes and edges", directions, trs.len(), fractions, angles);
    let prop = prop.to_string();
    dom(name, &bound, directions * trs.len(), move |u, cx| {
        let phi = 2.0 * std::f64::consts::PI * (u % directions) as f64 / directions as f64 + 0.01;
        let t = trs[u / directions];
        let r = |p: [f64; 2]| ((t.s * p[0] + t.ox) as f32, (t.s * p[1] + t.oy) as f32);
        let (a, b) = ([-3.0, 1.0], [-3.0 + 10.0 * phi.cos(), 1.0 + 10.0 * phi.sin()]);
        for &f in &fractions {
            if cx.done() { return; }
            let c = [a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1])];
            for &th in &angles {
                for &l in &[2.5, 4.5] {
                    for &sg in &[1.0, -1.0] {
                        let q = |w: f64, k: f64| [c[0] + k * l * (phi + w).cos(), c[1] + k * l * (phi + w).sin()];
                        let node = |p: [f64; 2]| { let (x, y) = r(p); Act::One(Op::AddNode(x, y, 0)) };
                        let edge = |i: usize, j: usize| Act::One(Op::AddEdge(i, j, 0));
                        let (q1, q2, q3) = (q(sg * th, 1.0), q(-sg * th, 1.0), q(sg * th, -0.8));
                        let scripts: Vec<Vec<Act>> = vec![
                            // contact first, then the base edge through it
                            vec![node(c), node(q1), edge(0, 1), node(a), node(b), edge(2, 3)],
                            vec![node(a), node(b), node(c), node(q1), edge(3, 2), edge(1, 0)],
                            // base edge first
                            vec![node(a), node(b), edge(0, 1), node(c), node(q1), edge(2, 3)],
                            // edges to both sides
                            vec![node(c), node(q1), node(q2), edge(1, 0), edge(0, 2), node(b), node(a), edge(3, 4)],
                            // an edge through the contact, which may or may not be a node
                            vec![node(q3), node(q1), edge(0, 1), node(a), node(b), edge(2, 3)],
                            vec![node(c), node(q3), node(q1), edge(1, 0), edge(0, 2), node(a), node(b), edge(4, 3)],
                        ];
                        for s in scripts { explore(cx, &prop, &s, &[], 1.0); }
                    }
                }
            }
        }
    })
}

/// Nodes and crossings so close to a very flat corner that they are on all of the edges there, up to rounding.
fn corner_dom(prop: &str, name: &str, directions: usize, fractions: Vec<f64>, angles: Vec<f64>, trs: Vec<Tr>) -> Dom {
    let bound = format!("{} directions x {} transformations x angles {:?} between two or three edges of a corner (of 2 lengths, in every combination of directions) x {:?} of their length away from it: a node, an edge from a node, an edge across, then one removal", directions, trs.len(), angles, fractions);
    let prop = prop.to_string();
    dom(name, &bound, directions * trs.len(), move |u, cx| {
        let phi = 2.0 * std::f64::consts::PI * (u % directions) as f64 / directions as f64;
        let t = trs[u / directions];
        let at = |w: f64, r: f64| {
            let p = [-2.0 + r * (phi + w).cos(), 1.0 + r * (phi + w).sin()];
            let (x, y) = ((t.s * p[0] + t.ox) as f32, (t.s * p[1] + t.oy) as f32);
            Act::One(Op::AddNode(x, y, 0))
        };
        for &th in &angles {
            if cx.done() { return; }
            for &f in &fractions {
                for &l in &[10.0, 6.0] {
                    for dirs in 0..8 {
                        let edge = |i: usize, j: usize, k: usize| Act::One(if dirs >> k & 1 == 1 { Op::AddEdge(j, i, 0) } else { Op::AddEdge(i, j, 0) });
                        let two = vec![at(0.0, 0.0), at(0.0, 10.0), at(th, l), edge(0, 1, 0), edge(0, 2, 1)];
                        let three = vec![at(0.0, 0.0), at(0.0, 10.0), at(th, l), at(-th, 8.0), edge(0, 1, 0), edge(0, 2, 1), edge(3, 0, 2)];
                        let d = 10.0 * f;
                        let plus = |a: &Vec<Act>, b: Vec<Act>| { let mut v = a.clone(); v.extend(b); v };
                        let mut scripts = vec![];
                        for (s, n) in &[(two, 3), (three, 4)] {
                            if *n == 3 && dirs >= 4 { continue; }
                            let n = *n;
                            scripts.push(plus(s, vec![at(0.0, d)]));
                            scripts.push(plus(s, vec![at(th, d)]));
                            // from a node of the corner sideways
                            scripts.push(plus(s, vec![at(th / 2.0, d), at(1.0, 7.0), edge(n, n + 1, 0)]));
                            // across, slanted and straight, and then the node
                            let (x, y) = (7.0 * 1f64.cos(), 7.0 * 1f64.sin());
                            let (x2, y2) = (d - 0.4 * (x - d), -0.4 * y);
                            scripts.push(plus(s, vec![at(1.0, 7.0), at(y2.atan2(x2), x2.hypot(y2)), edge(n, n + 1, 0), at(0.0, d)]));
                            scripts.push(plus(s, vec![at(3f64.atan2(d), d.hypot(3.0)), at(-3f64.atan2(d), d.hypot(3.0)), edge(n + 1, n, 0)]));
                        }
                        // the node is there before the edges
                        scripts.push(vec![at(0.0, 0.0), at(0.0, 10.0), at(th, l), at(0.0, d), edge(0, 1, 0), edge(0, 2, 1)]);
                        scripts.push(vec![at(0.0, 0.0), at(0.0, 10.0), at(th, l), at(0.0, d), edge(0, 3, 0), edge(0, 2, 1), edge(1, 3, 0)]);
                        for s in scripts { explore(cx, &prop, &s, &[Acts { removals: true, ..Acts::default() }], 1e9); }
                    }
                }
            }
        }
    })
}

fn seed_trs() -> Vec<Tr> {
    vec![tr(1.0, 0.0, 0.0), tr(100.0, 250.0, 150.0), tr(-37.3, 11.1, -220.7), tr(0.125, 0.0, 0.0)]
}

fn seed_acts(s: &Seed, t: &Tr) -> Vec<Act> {
    let at = |p: (f64, f64)| ((t.s * p.0 + t.ox) as f32, (t.s * p.1 + t.oy) as f32);
    let mut v: Vec<Act> = s.nodes.iter().map(|&p| { let q = at(p); Act::One(Op::AddNode(q.0, q.1, 0)) }).collect();
    v.extend(s.edges.iter().map(|&(i, j)| Act::One(Op::AddEdge(i, j, 0))));
    v.extend(s.then.iter().cloned());
    v
}

fn seeds_dom(prop: &str, name: &str, depth: usize, trs: Vec<Tr>, near: bool, budget: f64) -> Dom {
    let ns = seeds().len();
    let bound = format!("{} start drawings ({}) x {} transformations; then all sequences of {} operations (fewer where more than {:.0} sequences): add_node at a free point, at existing nodes, at 1/2 and 1/3 of every edge{}, add_edge between every ordered pair, remove everything, indices that do not exist", ns,
        seeds().iter().map(|s| s.name).collect::<Vec<_>>().join(", "), trs.len(), depth, budget, if near { ", 2e-4 of the scale beside every node and edge, and 3e-7 of it (rounding)" } else { "" });
    let prop = prop.to_string();
    dom(name, &bound, ns * trs.len(), move |u, cx| {
        let all = seeds();
        let s = &all[u % ns];
        let t = trs[u / ns];
        let at = |p: (f64, f64)| ((t.s * p.0 + t.ox) as f32, (t.s * p.1 + t.oy) as f32);
        let mut points = vec![at((2.25, 1.125)), at((-1.5, 0.75))];
        points.extend(s.nodes.iter().take(3).map(|&p| at(p)));
        let a = Acts { points, on_edges: true, near, edges: true, removals: true, invalid: true, part: None, sparse: false, segs: vec![] };
        explore(cx, &prop, &seed_acts(s, &t), &vec![a; depth], budget);
    })
}

/// Drawings built after another one was removed from the same graph, every history explored for itself.
fn rebuilt_dom(prop: &str, name: &str, kinds: usize) -> Dom {
    let ns = seeds().len();
    let bound = format!("all {} pairs of start drawings x {} ways to remove the first (edges or nodes first; always the first, the last or the middle one), which is much larger or of the same size; then the second is built on the emptied graph, segment by segment, then every single operation as for the drawings; no states merged", ns * ns, kinds);
    let prop = prop.to_string();
    dom(name, &bound, ns * ns, move |u, cx| {
        let all = seeds();
        let (s, s2) = (&all[u / ns], &all[u % ns]);
        for k in 0..kinds {
            if cx.done() { return; }
            let k = if kinds < 6 { (k * 7 + u) % 6 } else { k };
            let t = if (u + k) % 2 == 0 { tr(1000.0, -300.0, 200.0) } else { tr(1.0, 0.0, 0.0) };
            let mut seed = seed_acts(s, &t);
            seed.push(Act::Clear(k % 2 == 0, (k / 2) as u8));
            let at = |p: (f64, f64)| (p.0 as f32, p.1 as f32);
            seed.extend(s2.nodes.iter().map(|&p| { let q = at(p); Act::One(Op::AddNode(q.0, q.1, 0)) }));
            seed.extend(s2.edges.iter().map(|&(i, j)| Act::Seg(at(s2.nodes[i]), at(s2.nodes[j]))));
            let mut points = vec![(2.25, 1.125)];
            points.extend(s2.nodes.iter().take(2).map(|&p| at(p)));
            let a = Acts { points, on_edges: true, near: true, edges: true, removals: true, invalid: true, part: None, sparse: true, segs: vec![] };
            explore_with(cx, &prop, &seed, &[a], f64::INFINITY, false);
        }
    })
}

/// Parts of a drawing are removed and inserted again, in turns.
fn redone_dom(prop: &str, name: &str, turns: usize, budget: f64) -> Dom {
    let ns = seeds().len();
    let bound = format!("{} start drawings; all sequences of {} operations, in turns the removal of any node or edge and the insertion of any segment of the drawing (fewer where more than {:.0} sequences); no states merged", ns, turns, budget);
    let prop = prop.to_string();
    dom(name, &bound, ns, move |u, cx| {
        let all = seeds();
        let s = &all[u];
        let at = |p: (f64, f64)| (p.0 as f32, p.1 as f32);
        let rem = Acts { removals: true, ..Acts::default() };
        let add = Acts { segs: s.edges.iter().map(|&(i, j)| (at(s.nodes[i]), at(s.nodes[j]))).collect(), points: s.nodes.iter().take(3).map(|&p| at(p)).collect(), ..Acts::default() };
        let acts: Vec<Acts> = (0..turns).map(|i| if i % 2 == 0 { rem.clone() } else { add.clone() }).collect();
        explore_with(cx, &prop, &seed_acts(s, &tr(1.0, 0.0, 0.0)), &acts, budget, false);
    })
}

/// Every history of a few operations on small drawings, for itself.
fn histories_dom(prop: &str, name: &str, depth: usize, most: usize, budget: f64) -> Dom {
    let small: Vec<usize> = seeds().iter().enumerate().filter(|(_, s)| s.nodes.len() <= most).map(|x| x.0).collect();
    let bound = format!("{} start drawings of at most {} nodes; all sequences of {} operations (fewer where more than {:.0} sequences), no states merged", small.len(), most, depth, budget);
    let prop = prop.to_string();
    dom(name, &bound, small.len(), move |u, cx| {
        let all = seeds();
        let s = &all[small[u]];
        let at = |p: (f64, f64)| (p.0 as f32, p.1 as f32);
        let mut points = vec![(2.25, 1.125)];
        points.extend(s.nodes.iter().take(1).map(|&p| at(p)));
        let a = Acts { points, edges: true, removals: true, ..Acts::default() };
        explore_with(cx, &prop, &seed_acts(s, &tr(1.0, 0.0, 0.0)), &vec![a; depth], budget, false);
    })
}

/// Long removal histories: from larger drawings, all orders of removing.
fn removal_dom(prop: &str, name: &str, depth: usize, budget: f64) -> Dom {
    let ns = seeds().len();
    let bound = format!("{} start drawings; all sequences of {} removals of any node or edge (fewer where more than {:.0} sequences)", ns, depth, budget);
    let prop = prop.to_string();
    dom(name, &bound, ns, move |u, cx| {
        let all = seeds();
        let s = &all[u];
        let a = Acts { removals: true, ..Acts::default() };
        explore(cx, &prop, &seed_acts(s, &tr(1.0, 0.0, 0.0)), &vec![a; depth], budget);
    })
}

pub fn plan(prop: &str, tier: Tier) -> Plan {
    let unit = vec![tr(1.0, 0.0, 0.0)];
    let canvas = vec![tr(100.0, 50.0, 50.0), tr(-57.31, 41.2, -3.9)];
    let mut doms = vec![
        subsets_dom(prop, "3x3 lattice, from 4 nodes", grid(3, 3), &[4], unit.clone(), 3, vec![]),
        subsets_dom(prop, "3x3 lattice, from 5 and 6 nodes", grid(3, 3), &[5, 6], vec![tr(1.0, -1.0, -1.0), canvas[1]], 2, vec![(0.5, 0.5), (1.5, 0.5)]),
        segs_dom(prop, "segments of the 3x3 lattice", grid(3, 3), unit.clone(), 3, false, false),
        segs_dom(prop, "directed segments of the 3x3 lattice with removals", grid(3, 3), vec![canvas[0]], 2, true, true),
        segs_dom(prop, "segments of the 4x4 lattice", grid(4, 4), vec![tr(1.0, 0.0, 0.0), canvas[1], tr(0.37, 100.3, 200.7)], 2, false, false),
        seeds_dom(prop, "drawings", 1, seed_trs(), true, 1e9),
        seeds_dom(prop, "drawings, two steps", 2, vec![tr(1.0, 0.0, 0.0)], false, 1e9),
        removal_dom(prop, "removal histories", 4, 1e6),
        large_dom(prop, "large drawings", vec![tr(1.0, 0.0, 0.0)], 2, 3e4),
        shallow_dom(prop, "shallow contacts", 16, vec![0.1, 0.37, 0.5, 0.8], vec![5e-4, 1e-3, 2e-3, 5e-3, 1e-2, 3e-2, 0.1], vec![tr(1.0, 0.0, 0.0), tr(60.0, 300.0, 250.0), tr(333.3, -1000.1, 500.7)]),
        huge_dom(prop, "huge drawings", vec![tr(1.0, 0.0, 0.0)], 1),
        corner_dom(prop, "very flat corners", 8, vec![3e-4, 1e-3, 2.1e-3, 6e-3], vec![3e-4, 1e-3, 3e-3], vec![tr(1.0, 0.0, 0.0), tr(60.0, 300.0, 250.0)]),
        zeros_dom(prop, "both signs of zero"),
        rebuilt_dom(prop, "drawings built after others were removed", 2),
        redone_dom(prop, "removed and inserted again", 4, 4e4),
        histories_dom(prop, "unmerged histories", 3, 6, 1e5),
        near_miss_dom(prop, "near misses", 12, vec![0.2, 0.5, 0.73], vec![100.0, 1000.0, 8000.0]),
        seeds_dom(prop, "drawings far from the origin and very large", 1, vec![tr(1000.0, -3000.0, 2000.0), tr(1.0, 400.0, -300.0), tr(7.7, -1000.3, 555.5), tr(1e4, 0.0, 0.0), tr(0.25, 1.0, -1.0)], true, 1e9),
    ];
    if tier == Tier::Thorough {
        doms.push(subsets_dom(prop, "3x3 lattice, from 5 nodes, 3 steps", grid(3, 3), &[5], vec![unit[0], canvas[0]], 3, vec![]));
        doms.push(subsets_dom(prop, "4x4 lattice, from 4 nodes", grid(4, 4), &[4], vec![canvas[1]], 2, vec![]));
        doms.push(segs_dom(prop, "segments of the 3x3 lattice, 4 steps", grid(3, 3), unit.clone(), 4, false, false));
        doms.push(segs_dom(prop, "segments of the 4x4 lattice, 3 steps", grid(4, 4), vec![tr(1.0, 0.0, 0.0)], 3, false, false));
        doms.push(segs_dom(prop, "directed segments of the 3x3 lattice with removals, 3 steps", grid(3, 3), vec![canvas[0]], 3, true, true));
        doms.push(seeds_dom(prop, "drawings, two steps, all scales", 2, seed_trs(), true, 1e9));
        doms.push(seeds_dom(prop, "small drawings, more steps", 4, vec![tr(1.0, 0.0, 0.0)], false, 1.5e7));
        doms.push(removal_dom(prop, "removal histories, long", 7, 2e7));
        doms.push(large_dom(prop, "large drawings, all scales", seed_trs(), 3, 3e5));
        doms.push(shallow_dom(prop, "shallow contacts, more", 90, vec![0.04, 0.1, 0.2, 0.37, 0.5, 0.613, 0.8, 0.9], vec![4e-4, 5e-4, 7e-4, 1e-3, 1.4e-3, 2e-3, 3e-3, 5e-3, 7e-3, 1e-2, 2e-2, 3e-2, 6e-2, 0.1], vec![tr(1.0, 0.0, 0.0), tr(1.0, -5.0, 7.0), tr(0.07, 0.0, 0.0), tr(60.0, 300.0, 250.0), tr(333.3, -1000.1, 500.7), tr(12.5, -40.3, 1000.0)]));
        doms.push(corner_dom(prop, "very flat corners, more", 48, vec![1.5e-4, 3e-4, 6e-4, 1e-3, 1.5e-3, 2.1e-3, 3e-3, 4.4e-3, 6e-3, 1e-2, 2e-2], vec![1.5e-4, 3e-4, 6e-4, 1e-3, 2e-3, 3e-3, 6e-3, 1e-2], vec![tr(1.0, 0.0, 0.0), tr(60.0, 300.0, 250.0), tr(-37.3, 11.1, -220.7)]));
        doms.push(near_miss_dom(prop, "near misses, more", 72, vec![0.1, 0.2, 0.35, 0.5, 0.618, 0.73, 0.9], vec![30.0, 100.0, 300.0, 1000.0, 3000.0, 8000.0]));
        doms.push(rebuilt_dom(prop, "drawings built after others were removed, every way", 6));
        doms.push(redone_dom(prop, "removed and inserted again, more turns", 6, 2e6));
        doms.push(histories_dom(prop, "unmerged histories, longer", 4, 8, 1.5e6));
        doms.push(huge_dom(prop, "huge drawings, then a removal", vec![tr(1.0, 0.0, 0.0), tr(7.3, 100.0, -250.0)], 2));
        doms.push(seeds_dom(prop, "drawings far from the origin, two steps", 2, vec![tr(1000.0, -3000.0, 2000.0), tr(1.0, 400.0, -300.0)], false, 1e9));
    }
    let _ = BTreeMap::<u8, u8>::new();
    Plan {
        level: "model_checking",
        rule: "explicit-state search over the real PlanarGraph: a transition is one real operation on a clone, states are merged on complete observable content, every transition is compared with an independent reference transition relation, and the history of every state is replayed from an empty graph and must reproduce the state (traces_validated_against_impl)",
        assumptions: vec![
            "features of a drawing between 5e-7 and 1e-4 of its scale apart get no verdict (the model declines, class 'too close to tell')",
            "node data is observed through the Debug output of Node (there is no accessor)",
        ],
        doms,
    }
}
