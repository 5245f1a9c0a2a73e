//! C27: the drawing depends only on which segments were inserted, not on the order or direction.
//!
//! Every insertion order is executed on a fresh real graph and the final drawing is compared with the arrangement of
//! the segments, computed in f64 from the segments alone (no intermediate drawing is looked at).

use crate::engine::{dom, Class, Cx, Dom, Plan, Tier};
use crate::geom::{grid, tr, Tr, P};
use crate::graph::{crs, dot, len, seg_dist, snap, sub, Tag, FAR, G, SAME, V};
use crate::util::{permutations, subsets};
use kami::glm::Vec2;

type Seg = ((f32, f32), (f32, f32));

/// The arrangement of a set of segments: vertices, and for each piece its ends and the segments it belongs to.
struct Arr {
    m: f64,
    v: Vec<V>,
    /// how far from there a node may be
    tol: Vec<f64>,
    pieces: Vec<(usize, usize, Vec<usize>)>,
    shared: bool,
}

fn pt(p: (f32, f32)) -> V {
    [p.0 as f64, p.1 as f64]
}

/// None if some features are between "the same" and "clearly apart".
fn arrangement(segs: &[Seg]) -> Option<Arr> {
    let m = segs.iter().fold(1.0f64, |m, s| [(s.0).0, (s.0).1, (s.1).0, (s.1).1].iter().fold(m, |m, c| m.max(c.abs() as f64)));
    let mut v: Vec<V> = vec![];
    let mut unclear = false;
    let mut put = |p: V, unclear: &mut bool| {
        for (i, q) in v.iter().enumerate() {
            let d = len(sub(p, *q));
            if d <= SAME * m { return i; }
            if d < FAR * m { *unclear = true; return i; }
        }
        v.push(p);
        v.len() - 1
    };
    // vertex, the segments that cross there, the sine of the angle between them
    let mut crossings: Vec<(usize, usize, usize, f64)> = vec![];
    for s in segs {
        put(pt(s.0), &mut unclear);
        put(pt(s.1), &mut unclear);
    }
    for i in 0..segs.len() {
        for j in 0..i {
            let (a, b, c, d) = (pt(segs[i].0), pt(segs[i].1), pt(segs[j].0), pt(segs[j].1));
            let (ab, cd) = (sub(b, a), sub(d, c));
            let den = crs(ab, cd);
            if den.abs() <= 1e-6 * len(ab) * len(cd) { continue; }
            let t = crs(sub(c, a), cd) / den;
            let u = crs(sub(c, a), ab) / den;
            let (la, lc) = (len(ab), len(cd));
            // on one line up to rounding: they meet in end points only
            let off = |p: V, d: V, l: f64, x: V, y: V| (crs(d, sub(x, p)) / l).abs().max((crs(d, sub(y, p)) / l).abs()) <= SAME * m;
            if off(a, ab, la, c, d) || off(c, cd, lc, a, b) { continue; }
            let e = SAME * m;
            if t * la < -e || (1.0 - t) * la < -e || u * lc < -e || (1.0 - u) * lc < -e { continue; }
            let x = [a[0] + t * ab[0], a[1] + t * ab[1]];
            // they also touch elsewhere, up to rounding (at a flat angle)
            let touches = |p: V, q: V, r: V| seg_dist(q, r, p) < FAR * m && len(sub(p, x)) > SAME * m;
            if touches(a, c, d) || touches(b, c, d) || touches(c, a, b) || touches(d, a, b) { unclear = true; }
            let k = put(x, &mut unclear);
            crossings.push((k, i, j, den.abs() / (la * lc)));
        }
    }
    if unclear { return None; }
    let mut pieces: Vec<(usize, usize, Vec<usize>)> = vec![];
    let mut shared = false;
    let mut bent = vec![];
    for (k, s) in segs.iter().enumerate() {
        let (a, b) = (pt(s.0), pt(s.1));
        let d = sub(b, a);
        let mut on = vec![];
        let mut off = 0.0f64;
        for (i, p) in v.iter().enumerate() {
            let h = seg_dist(a, b, *p);
            if h <= SAME * m { on.push((dot(sub(*p, a), d), i)); off = off.max(h); } else if h < FAR * m { return None; }
        }
        bent.push(off);
        on.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
        for w in on.windows(2) {
            let (x, y) = (w[0].1.min(w[1].1), w[0].1.max(w[1].1));
            match pieces.iter_mut().find(|q| (q.0, q.1) == (x, y)) {
                Some(q) => { q.2.push(k); shared = true; }
                None => pieces.push((x, y, vec![k])),
            }
        }
    }
    // segments that share a piece without lying on one line run along each other for a while, at a very flat angle
    let line = |i: usize, j: usize| {
        let (a, b) = (pt(segs[i].0), pt(segs[i].1));
        let d = sub(b, a);
        [segs[j].0, segs[j].1].iter().all(|q| crs(d, sub(pt(*q), a)).abs() <= SAME * m * len(d))
    };
    for (_, _, k) in &pieces {
        for x in 0..k.len() { for y in 0..x { if !line(k[x], k[y]) && !line(k[y], k[x]) { return None; } } }
    }
    // a segment that passes through points next to it is bent, which moves the points where it crosses others
    let mut tol = vec![1e-5 * m; v.len()];
    for &(k, i, j, sin) in &crossings {
        tol[k] = tol[k].max(4.0 * (bent[i] + bent[j] + 6e-8 * m) / sin);
    }
    for i in 0..v.len() {
        if tol[i] > 1e-5 * m && (0..v.len()).any(|j| i != j && len(sub(v[i], v[j])) < 3.0 * (tol[i] + tol[j])) { return None; }
    }
    Some(Arr { m, v, tol, pieces, shared })
}

#[derive(Clone, Copy, PartialEq)]
enum Nodes {
    /// both end nodes just before their edge
    Before,
    /// all end nodes up front, in the order of the segments
    First,
    /// all end nodes up front, in the opposite order
    FirstReversed,
}

/// Inserts the segments in the given order and direction and compares.
fn insert(segs: &[Seg], order: &[usize], flip: impl Fn(usize) -> bool, nodes: Nodes, want: &Arr) -> Result<Class, String> {
    let mut g = G::new();
    let add = |g: &mut G, p: (f32, f32)| g.add_node(&Vec2::new(p.0, p.1), Tag(1)).0;
    match nodes {
        Nodes::Before => {}
        Nodes::First => for s in segs { add(&mut g, s.0); add(&mut g, s.1); },
        Nodes::FirstReversed => for s in segs.iter().rev() { add(&mut g, s.1); add(&mut g, s.0); },
    }
    for &k in order {
        let (p, q) = if flip(k) { (segs[k].1, segs[k].0) } else { segs[k] };
        let (a, b) = (add(&mut g, p), add(&mut g, q));
        if g.add_edge(a, b, Tag(10 + k as u32)).is_err() { return Err(format!("inserting segment {} fails", k)); }
    }
    let s = snap(&g);
    // nodes: one for each vertex
    let mut at: Vec<Option<usize>> = vec![None; want.v.len()];
    let mut which = vec![0; s.nodes.len()];
    for i in 0..s.nodes.len() {
        let p = s.pos(i);
        match (0..want.v.len()).position(|k| len(sub(p, want.v[k])) <= want.tol[k]) {
            None => return Err(format!("there is a node at {:?}, where no segment ends and none meet; {}", p, s.show())),
            Some(k) => {
                if let Some(j) = at[k] { return Err(format!("nodes {} and {} are both at {:?}; {}", j, i, p, s.show())); }
                at[k] = Some(i);
                which[i] = k;
            }
        }
    }
    if let Some(k) = at.iter().position(|x| x.is_none()) { return Err(format!("no node at {:?}; {}", want.v[k], s.show())); }
    // edges: one for each piece, with the data of the first segment there
    let rank = |k: usize| order.iter().position(|x| *x == k).unwrap();
    let mut seen = vec![false; want.pieces.len()];
    for (i, e) in s.edges.iter().enumerate() {
        if e.0 >= which.len() || e.1 >= which.len() { return Err(format!("edge {} refers to a node that does not exist; {}", i, s.show())); }
        let (x, y) = (which[e.0].min(which[e.1]), which[e.0].max(which[e.1]));
        match want.pieces.iter().position(|q| (q.0, q.1) == (x, y)) {
            None => return Err(format!("edge {} joins {:?} and {:?}, which are not consecutive points of an inserted segment; {}", i, want.v[x], want.v[y], s.show())),
            Some(k) => {
                if seen[k] { return Err(format!("two edges join {:?} and {:?}; {}", want.v[x], want.v[y], s.show())); }
                seen[k] = true;
                let first = want.pieces[k].2.iter().cloned().min_by_key(|&x| rank(x)).unwrap();
                if e.2 != 10 + first as u32 { return Err(format!("the edge between {:?} and {:?} carries data #{}, expected that of segment {}, #{}; {}", want.v[x], want.v[y], e.2, first, 10 + first, s.show())); }
            }
        }
    }
    if let Some(k) = seen.iter().position(|x| !x) { return Err(format!("no edge between {:?} and {:?}; {}", want.v[want.pieces[k].0], want.v[want.pieces[k].1], s.show())); }
    Ok(if want.shared { "overlapping segments" } else if want.v.len() > 2 * segs.len() { "crossing segments" } else if want.pieces.len() > segs.len() { "split by end points" } else { "no contact inside" })
}

fn describe(segs: &[Seg], order: &[usize], flip: &dyn Fn(usize) -> bool, nodes: Nodes) -> String {
    let l: Vec<String> = order.iter().take(40).map(|&k| { let (p, q) = if flip(k) { (segs[k].1, segs[k].0) } else { segs[k] }; format!("{:?}-{:?}#{}", p, q, 10 + k) }).collect();
    format!("inserting {}{}{}", l.join(", "), if order.len() > 40 { ", ..." } else { "" }, match nodes { Nodes::Before => "", Nodes::First => ", all end nodes first", Nodes::FirstReversed => ", all end nodes first in reverse" })
}

fn run(cx: &mut Cx, segs: &[Seg], orders: &[Vec<usize>], flips: &[u32], modes: &[Nodes]) {
    let want = arrangement(segs);
    for nodes in modes {
        for o in orders {
            for &f in flips {
                if cx.done() { return; }
                let flip = move |k: usize| f >> (k % 32) & 1 == 1;
                cx.transitions += o.len() as u64;
                cx.case(|| describe(segs, o, &flip, *nodes), || match &want {
                    None => Ok("-too close to tell"),
                    Some(w) => insert(segs, o, flip, *nodes, w),
                });
            }
        }
    }
}

fn sets_dom(name: &str, pts: Vec<P>, k: usize, trs: Vec<Tr>, all_directions: bool, modes: Vec<Nodes>, quick_orders: bool) -> Dom {
    let mut pairs = vec![];
    for i in 0..pts.len() {
        for j in 0..i { pairs.push((pts[j], pts[i])); }
    }
    let bound = format!("all sets of {} of the {} segments over {} lattice points, {}, {}, {} ways to add the end nodes, x {} transformations", k, pairs.len(), pts.len(), if quick_orders { "every segment first" } else { "every order" }, if all_directions { "every combination of directions" } else { "both directions at once" }, modes.len(), trs.len());
    let np = pairs.len();
    dom(name, &bound, np * trs.len(), move |u, cx| {
        let t = trs[u / np];
        let first = u % np;
        let seg = |i: usize| { let (a, b) = (t.at(pairs[i].0), t.at(pairs[i].1)); ((a.x, a.y), (b.x, b.y)) };
        let orders: Vec<Vec<usize>> = if quick_orders { (0..k).map(|r| (0..k).map(|i| (i + r) % k).collect()).collect() } else { permutations(&(0..k).collect::<Vec<_>>()) };
        let flips: Vec<u32> = if all_directions { (0..1 << k).collect() } else { vec![0, u32::MAX] };
        for rest in subsets(np - first - 1, k - 1) {
            if cx.done() { return; }
            let mut segs = vec![seg(first)];
            segs.extend(rest.iter().map(|&i| seg(first + 1 + i)));
            run(cx, &segs, &orders, &flips, &modes);
        }
    })
}

fn long_orders(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for r in 0..n {
        v.push((0..n).map(|i| (i + r) % n).collect::<Vec<_>>());
        v.push((0..n).map(|i| (n - 1 - i + r) % n).collect());
    }
    // strides coprime to n, and from both ends inwards and outwards
    for s in 2..n {
        let (mut a, mut b) = (s, n);
        while b > 0 { let c = a % b; a = b; b = c; }
        if a == 1 { v.push((0..n).map(|i| i * s % n).collect()); }
    }
    let inward: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
    v.push(inward.iter().rev().cloned().collect());
    v.push(inward);
    v
}

fn figures() -> Vec<(&'static str, Vec<((f64, f64), (f64, f64))>)> {
    let f = |i: i64| i as f64;
    let pts = |n: usize, r: f64| (0..n).map(|i| { let a = 2.0 * std::f64::consts::PI * i as f64 / n as f64 + 0.1; (r * a.cos(), r * a.sin()) }).collect::<Vec<_>>();
    let complete = |p: Vec<(f64, f64)>| { let mut v = vec![]; for i in 0..p.len() { for j in 0..i { v.push((p[j], p[i])); } } v };
    vec![
        ("complete graph on six irregular points", complete(vec![(0.0, 0.0), (5.3, 0.7), (6.1, 4.9), (2.7, 7.3), (-1.9, 4.1), (2.3, 2.9)])),
        ("complete graph on a 3x3 lattice", complete(grid(3, 3).iter().map(|p| (f(p.0), f(p.1))).collect())),
        ("grid of 5 and 6 lines", (0..5).map(|i| ((-1.0, f(i)), (6.0, f(i)))).chain((0..6).map(|i| ((f(i), -1.0), (f(i), 5.0)))).collect()),
        ("grid of 5 and 6 lines meeting the border", (0..5).map(|i| ((0.0, f(i)), (5.0, f(i)))).chain((0..6).map(|i| ((f(i), 0.0), (f(i), 4.0)))).collect()),
        ("weave of 9 and 8 slanted lines", (0..9).map(|i| ((-1.0, f(i)), (9.0, f(i) + 0.7))).chain((0..8).map(|i| ((f(i), -1.0), (f(i) - 0.6, 10.0)))).collect()),
        ("pencil of 11 segments through one point", (0..11).map(|i| { let a = 0.05 + 0.28 * f(i); ((3.0 * a.cos(), 3.0 * a.sin()), (-2.0 * a.cos(), -2.0 * a.sin())) }).collect()),
        ("pencil of lattice segments through one point", [(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2), (2, -1), (1, -2), (3, 1), (1, 3)].iter().map(|d| ((f(d.0), f(d.1)), (-f(d.0), -f(d.1)))).collect()),
        ("overlapping segments on a line", vec![((0.0, 0.0), (4.0, 2.0)), ((2.0, 1.0), (8.0, 4.0)), ((6.0, 3.0), (10.0, 5.0)), ((0.0, 0.0), (10.0, 5.0)), ((3.0, 1.5), (5.0, 2.5)), ((9.0, 4.5), (12.0, 6.0)), ((-2.0, -1.0), (1.0, 0.5))]),
        ("overlapping segments on a line, crossed", vec![((0.0, 0.0), (4.0, 0.0)), ((2.0, 0.0), (8.0, 0.0)), ((6.0, 0.0), (10.0, 0.0)), ((-1.0, 0.0), (11.0, 0.0)), ((3.0, -1.0), (3.0, 1.0)), ((7.0, -1.0), (7.5, 2.0)), ((4.0, 0.0), (5.0, 3.0)), ((9.0, 3.0), (9.0, 0.0))]),
        ("pentagram with its pentagon", { let p = pts(5, 4.0); (0..5).map(|i| (p[i], p[(i + 2) % 5])).chain((0..5).map(|i| (p[i], p[(i + 1) % 5]))).collect() }),
        ("all diagonals of a heptagon", complete(pts(7, 4.0))),
        ("comb with a spine", (0..14).map(|i| ((f(i), -1.0 - 0.1 * f(i % 3)), (f(i) + 0.3, 1.0))).chain(vec![((-1.0, 0.1), (15.0, 0.2))]).collect()),
        ("fan cut by three segments", (0..9).map(|i| ((4.0, 9.0), (f(i), 0.0))).chain(vec![((-1.0, 2.0), (9.0, 2.5)), ((-1.0, 5.0), (9.0, 4.0)), ((0.0, 0.0), (8.0, 0.0))]).collect()),
        ("disjoint segments", (0..16).map(|i| ((2.0 * f(i % 4), 2.0 * f(i / 4)), (2.0 * f(i % 4) + 1.0, 2.0 * f(i / 4) + 0.5))).collect()),
        ("spiral crossed by a diagonal", { let c = [(0.0, 0.0), (7.0, 0.0), (7.0, 7.0), (1.0, 7.0), (1.0, 1.0), (6.0, 1.0), (6.0, 6.0), (2.0, 6.0), (2.0, 2.0), (5.0, 2.0)]; let mut v: Vec<_> = c.windows(2).map(|w| (w[0], w[1])).collect(); v.push(((-1.0, -1.5), (8.0, 8.2))); v }),
        ("crease pattern: bird base", { let (a, b, c, d, o) = ((0.0, 0.0), (8.0, 0.0), (8.0, 8.0), (0.0, 8.0), (4.0, 4.0)); let k = 8.0 * (std::f64::consts::PI / 8.0).tan(); vec![(a, b), (b, c), (c, d), (d, a), (a, c), (b, d), ((4.0, 0.0), (4.0, 8.0)), ((0.0, 4.0), (8.0, 4.0)), (a, (8.0, k)), (a, (k, 8.0)), (c, (0.0, 8.0 - k)), (c, (8.0 - k, 0.0)), (b, (0.0, k)), (d, (8.0, 8.0 - k)), (o, (1.0, 4.0))] }),
    ]
}

fn figures_dom(name: &str, trs: Vec<Tr>, modes: Vec<Nodes>, pairs: bool) -> Dom {
    let nf = figures().len();
    let bound = format!("{} sets of segments ({}) in every rotation and reversed rotation of their order, every stride coprime to their number, from both ends inwards and outwards{}; all forward, all backward, alternating; {} ways to add the end nodes, x {} transformations", nf, figures().iter().map(|x| x.0).collect::<Vec<_>>().join(", "), if pairs { ", and with every two exchanged" } else { "" }, modes.len(), trs.len());
    dom(name, &bound, nf * trs.len() * modes.len(), move |u, cx| {
        let (_, l) = &figures()[u % nf];
        let t = trs[u / nf % trs.len()];
        let at = |p: (f64, f64)| ((t.s * p.0 + t.ox) as f32, (t.s * p.1 + t.oy) as f32);
        let segs: Vec<Seg> = l.iter().map(|s| (at(s.0), at(s.1))).collect();
        let mut orders = long_orders(segs.len());
        if pairs {
            for i in 0..segs.len() { for j in 0..i { let mut o: Vec<usize> = (0..segs.len()).collect(); o.swap(i, j); orders.push(o); } }
        }
        run(cx, &segs, &orders, &[0, u32::MAX, 0x55555555], &modes[u / nf / trs.len()..][..1]);
    })
}

/// Points whose distances range from a few ten-thousandths of the drawing to all of it.
fn close_points(xs: &[i64], ys: &[i64]) -> Vec<P> {
    xs.iter().flat_map(|&x| ys.iter().map(move |&y| (x, y))).collect()
}

/// Large drawings: hundreds of nodes and edges.
fn large_dom(trs: Vec<Tr>) -> Dom {
    let f = |i: usize| i as f64;
    let sets: Vec<(&'static str, Vec<((f64, f64), (f64, f64))>)> = vec![
        ("weave of 17 and 18 slanted lines", (0..17).map(|i| ((-1.0, f(i)), (19.0, f(i) + 0.7))).chain((0..18).map(|i| ((f(i), -1.0), (f(i) - 0.6, 18.0)))).collect()),
        ("comb of 150 teeth with a spine", (0..150).map(|i| ((f(i), -1.0 - 0.1 * f(i % 3)), (f(i) + 0.3, 1.0))).chain(vec![((-1.0, 0.1), (151.0, 0.2))]).collect()),
        ("pencil of 90 segments through one point", (0..90).map(|i| { let a = 0.01 + std::f64::consts::PI * f(i) / 90.0; ((3.0 * a.cos(), 3.0 * a.sin()), (-2.0 * a.cos(), -2.0 * a.sin())) }).collect()),
        ("300 disjoint segments", (0..300).map(|i| ((2.0 * f(i % 20), 2.0 * f(i / 20)), (2.0 * f(i % 20) + 1.0, 2.0 * f(i / 20) + 0.5))).collect()),
    ];
    let ns = sets.len();
    let bound = format!("{} sets of segments ({}) in order, reversed, from both ends inwards and outwards, and with the last one first; all forward, alternating; x {} transformations", ns, sets.iter().map(|x| x.0).collect::<Vec<_>>().join(", "), trs.len());
    dom("large drawings", &bound, ns * trs.len() * 5, move |u, cx| {
        let t = trs[u / ns % trs.len()];
        let at = |p: (f64, f64)| ((t.s * p.0 + t.ox) as f32, (t.s * p.1 + t.oy) as f32);
        let segs: Vec<Seg> = sets[u % ns].1.iter().map(|s| (at(s.0), at(s.1))).collect();
        let n = segs.len();
        let inward: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
        let o: Vec<usize> = match u / ns / trs.len() {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => inward,
            3 => inward.into_iter().rev().collect(),
            _ => (0..n).map(|i| (i + n - 1) % n).collect(),
        };
        run(cx, &segs, &[o], &[0, 0x55555555], &[Nodes::Before]);
    })
}

pub fn c27(tier: Tier) -> Plan {
    let unit = tr(1.0, 0.0, 0.0);
    let (c0, c1, c2) = (tr(100.0, 50.0, 50.0), tr(-57.31, 41.2, -3.9), tr(0.37, 100.3, 200.7));
    let three = vec![Nodes::Before, Nodes::First, Nodes::FirstReversed];
    let mut doms = vec![
        sets_dom("three segments of the 3x3 lattice", grid(3, 3), 3, vec![unit], true, three.clone(), false),
        sets_dom("three segments of the 3x3 lattice at canvas scale", grid(3, 3), 3, vec![c1], false, vec![Nodes::Before], false),
        sets_dom("two segments of the 5x5 lattice", grid(5, 5), 2, vec![unit, c1], true, vec![Nodes::Before], false),
        sets_dom("four segments of the 3x3 lattice", grid(3, 3), 4, vec![c0], false, vec![Nodes::Before], true),
        sets_dom("two segments with close features", close_points(&[0, 1, 2, 511, 512, 1023, 1024], &[-1024, -3, 0, 1, 512, 1023]), 2, vec![tr(1.0 / 1024.0, 0.0, 0.0), tr(0.75, 100.0, 50.0)], true, vec![Nodes::Before], false),
        sets_dom("three segments with close features", close_points(&[0, 1, 512, 1024], &[0, 2, 700]), 3, vec![tr(1.0 / 1024.0, 0.0, 0.0)], false, vec![Nodes::Before], false),
        sets_dom("two segments with very close features", close_points(&[0, 1, 3, 4096, 8191, 8192], &[-8192, -1, 0, 1, 4097]), 2, vec![tr(1.0 / 8192.0, 0.0, 0.0), tr(-1.0 / 8192.0, 0.0, 0.0)], true, vec![Nodes::Before, Nodes::First], false),
        sets_dom("three segments with very close features", close_points(&[0, 1, 8192], &[0, 1, 4096, 8192]), 3, vec![tr(1.0 / 8192.0, 0.0, 0.0)], false, vec![Nodes::Before], false),
        large_dom(vec![unit, c2]),
        figures_dom("figures", vec![unit, c0, c1, c2, tr(0.125, 0.0, 0.0), tr(1000.0, -3000.0, 2000.0), tr(3.3, 7.1, -3000.7), tr(-3.3, -2900.3, 5.5)], three.clone(), false),
    ];
    if tier == Tier::Thorough {
        doms.push(sets_dom("three segments of the 4x4 lattice", grid(4, 4), 3, vec![unit, c1], false, vec![Nodes::Before], false));
        doms.push(sets_dom("four segments of the 3x3 lattice, every order", grid(3, 3), 4, vec![unit, c2], false, three.clone(), false));
        doms.push(sets_dom("five segments of the 3x3 lattice", grid(3, 3), 5, vec![unit], false, vec![Nodes::Before], true));
        doms.push(sets_dom("five segments of the 3x2 lattice, every order and direction", grid(3, 2), 5, vec![unit, c1], true, three.clone(), false));
        doms.push(sets_dom("two segments of the 7x7 lattice", grid(7, 7), 2, vec![unit, c1], true, vec![Nodes::Before], false));
        doms.push(sets_dom("three segments with close features, all directions", close_points(&[0, 1, 512, 1023, 1024], &[0, 1, 512, 1024]), 3, vec![tr(1.0 / 1024.0, 0.0, 0.0), tr(0.75, 100.0, 50.0)], true, vec![Nodes::Before, Nodes::First], false));
        doms.push(figures_dom("figures, more orders", vec![unit, c0, c1, c2, tr(0.125, 0.0, 0.0), tr(1000.0, -3000.0, 2000.0), tr(7.7, -1000.3, 555.5), tr(1e4, 0.0, 0.0)], three, true));
    }
    Plan {
        level: "exploration",
        rule: "every stated order of insertion is executed on a fresh graph and the resulting drawing compared with the arrangement computed from the segments; drawings with features between 5e-7 and 1e-4 of the scale apart get no verdict",
        assumptions: vec!["node and edge data observed as in C01-C06"],
        doms,
    }
}
