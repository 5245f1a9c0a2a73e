//! C08-C10: polygons against exact lattice geometry, over all simple lattice polygons.

use std::collections::HashMap;

use kami::geometry::polygon::{Polygon, PolygonError};
use kami::glm::Vec2;

use crate::engine::{dom, Class, Cx, Dom, Plan, Tier};
use crate::geom::{wide, grid, meet, on_closed, orient, tr, Tr, EPS, P};
use crate::util::{all, tuples};

// ------------------------------------------------------------------------------------------ lattice polygon space

fn shoelace(v: &[P]) -> i64 {
    (0..v.len()).map(|i| { let (p, q) = (v[i], v[(i + 1) % v.len()]); p.0 * q.1 - q.0 * p.1 }).sum()
}

/// Sides touch only where consecutive ones share a vertex (straight angles are allowed, spikes are not).
pub fn is_simple(v: &[P]) -> bool {
    let n = v.len();
    for i in 0..n {
        let (a, b, c) = (v[i], v[(i + 1) % n], v[(i + 2) % n]);
        if a == b || (orient(a, b, c) == 0 && (on_closed(a, b, c) || on_closed(b, c, a))) { return false; }
        for j in i + 2..n {
            if (j + 1) % n == i { continue; }
            if meet(a, b, v[j], v[(j + 1) % n]) { return false; }
        }
    }
    n >= 3
}

/// All simple polygons with `n` vertices whose first (lexicographically smallest) vertex is `pts[first]`, each once
/// (start fixed, direction fixed by second < last).
fn simple_polygons(pts: &[P], first: usize, n: usize, f: &mut dyn FnMut(&[P]) -> bool) {
    fn ok_to_add(path: &[P], p: P) -> bool {
        // the new side from the last vertex must not touch earlier sides
        let k = path.len();
        let last = path[k - 1];
        if k >= 2 {
            let prev = path[k - 2];
            if orient(prev, last, p) == 0 && (on_closed(prev, last, p) || on_closed(last, p, prev)) { return false; }
            for i in 0..k - 2 {
                if meet(path[i], path[i + 1], last, p) { return false; }
            }
        }
        true
    }
    fn rec(pts: &[P], first: usize, n: usize, ix: &mut Vec<usize>, path: &mut Vec<P>, f: &mut dyn FnMut(&[P]) -> bool) -> bool {
        if ix.len() == n {
            return if ix[1] < ix[n - 1] && is_simple(path) { f(path) } else { true };
        }
        for j in first + 1..pts.len() {
            if ix.contains(&j) || !ok_to_add(path, pts[j]) { continue; }
            ix.push(j);
            path.push(pts[j]);
            let go = rec(pts, first, n, ix, path, f);
            ix.pop();
            path.pop();
            if !go { return false; }
        }
        true
    }
    rec(pts, first, n, &mut vec![first], &mut vec![pts[first]], f);
}

fn general_position(v: &[P]) -> bool {
    let n = v.len();
    for i in 0..n { for j in 0..i { for k in 0..j { if orient(v[i], v[j], v[k]) == 0 { return false; } } } }
    true
}

fn rotated(v: &[P], start: usize, rev: bool) -> Vec<P> {
    let n = v.len();
    (0..n).map(|i| if rev { v[(start + n - i) % n] } else { v[(start + i) % n] }).collect()
}

fn coords(t: &Tr, v: &[P]) -> Vec<Vec2> {
    v.iter().map(|&p| t.at(p)).collect()
}

fn show(v: &[Vec2]) -> String {
    v.iter().map(|p| format!("({:?}, {:?})", p.x, p.y)).collect::<Vec<_>>().join(" ")
}

fn bits(p: &Vec2) -> (u32, u32) {
    ((p.x + 0.0).to_bits(), (p.y + 0.0).to_bits())
}

/// Lattice points of the polygon's own vertex list (after construction may have reversed it).
fn back(poly: &Polygon, given: &[P], c: &[Vec2]) -> Result<Vec<P>, String> {
    let m: HashMap<(u32, u32), P> = c.iter().zip(given).map(|(x, p)| (bits(x), *p)).collect();
    poly.get_vertices().iter().map(|x| m.get(&bits(x)).cloned().ok_or_else(|| format!("{:?} is not one of the vertices", (x.x, x.y)))).collect()
}

/// Boundary polygon (counter-clockwise) of a set of unit cells, if it is one simple loop; with or without the
/// vertices at straight angles.
fn boundary(cells: &[P], flat: bool) -> Option<Vec<P>> {
    let has = |x: i64, y: i64| cells.contains(&(x, y));
    let mut next: HashMap<P, P> = HashMap::new();
    let mut k = 0;
    for &(x, y) in cells {
        for (nb, from, to) in &[((x, y - 1), (x, y), (x + 1, y)), ((x + 1, y), (x + 1, y), (x + 1, y + 1)), ((x, y + 1), (x + 1, y + 1), (x, y + 1)), ((x - 1, y), (x, y + 1), (x, y))] {
            if !has(nb.0, nb.1) {
                if next.insert(*from, *to).is_some() { return None; }
                k += 1;
            }
        }
    }
    let start = *next.keys().min()?;
    let mut loop_ = vec![start];
    let mut at = next[&start];
    while at != start {
        loop_.push(at);
        at = next[&at];
        if loop_.len() > k { return None; }
    }
    if loop_.len() != k { return None; }
    let n = loop_.len();
    Some((0..n).filter(|&i| flat || orient(loop_[(i + n - 1) % n], loop_[i], loop_[(i + 1) % n]) != 0).map(|i| loop_[i]).collect())
}

/// Boundaries of all hole-free edge-connected cell sets in a w x h block.
fn polyomino_dom(name: &str, w: usize, h: usize, trs: Vec<Tr>, starts: bool, flat: bool, what: fn(&mut Cx, &Tr, &[P])) -> Dom {
    let bound = format!("boundaries of all subsets of a {}x{} block of unit cells that are bounded by one simple loop, {} vertices at straight angles, {} x {} scales/offsets", w, h, if flat { "with" } else { "without" }, if starts { "every start vertex and both directions" } else { "first start vertex, both directions" }, trs.len());
    let total: u64 = 1 << (w * h);
    let units = 256.min(total) as usize;
    dom(name, &bound, units, move |u, cx: &mut Cx| {
        let mut mask = u as u64;
        while mask < total {
            let cells: Vec<P> = (0..w * h).filter(|i| mask >> i & 1 == 1).map(|i| ((i % w) as i64, (i / w) as i64)).collect();
            if !cells.is_empty() {
                if let Some(p) = boundary(&cells, flat) {
                    for t in &trs {
                        for s in 0..if starts { p.len() } else { 1 } {
                            for &rev in &[false, true] { what(cx, t, &rotated(&p, s, rev)); }
                        }
                    }
                }
            }
            if cx.done() { return; }
            mask += units as u64;
        }
    })
}

// ------------------------------------------------------------------------------- large families, integer coordinates

/// Integer polygons with many vertices (or special shapes); each is verified to be simple.
fn families(max: usize) -> Vec<(String, Vec<P>)> {
    let mut v: Vec<(String, Vec<P>)> = vec![];
    let mut ns = vec![6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 31, 32, 33, 40, 48, 64, 65, 96, 128, 129, 200, 256, 258, 384, 512];
    ns.retain(|n| *n <= max);
    for &n in &ns {
        // convex, on a circle (rounded to integers)
        v.push((format!("convex {}", n), (0..n).map(|i| { let a = 2.0 * std::f64::consts::PI * (i as f64 + 0.3) / n as f64; ((900.0 * a.cos()).round() as i64, (900.0 * a.sin()).round() as i64) }).collect()));
        // star: alternating radii
        if n % 2 == 0 {
            v.push((format!("star {}", n), (0..n).map(|i| { let a = 2.0 * std::f64::consts::PI * i as f64 / n as f64; let r = if i % 2 == 0 { 1000.0 } else { 300.0 }; ((r * a.cos()).round() as i64, (r * a.sin()).round() as i64) }).collect()));
            // comb: k teeth, exactly aligned tips
            let k = n as i64 / 2;
            let mut c = vec![];
            for i in 0..k { c.push((4 * i, 0)); c.push((4 * i + 2, 10)); }
            c.push((4 * k, 0));
            c.push((4 * k, -3));
            c.push((0, -3));
            v.push((format!("comb {}", c.len()), c));
            // zigzag band
            let mut top: Vec<P> = (0..k).map(|i| (5 * i, if i % 2 == 0 { 0 } else { 7 })).collect();
            let bot: Vec<P> = (0..k).rev().map(|i| (5 * i, if i % 2 == 0 { 3 } else { 10 } + 100 - 98)).collect();
            top.extend(bot.iter().map(|p| (p.0, p.1)));
            v.push((format!("zigzag {}", top.len()), top));
            // staircase
            let mut s = vec![];
            for i in 0..k { s.push((3 * i, 2 * i)); s.push((3 * i + 3, 2 * i)); }
            s.push((3 * k, 2 * k));
            s.push((0, 2 * k));
            v.push((format!("staircase {}", s.len()), s));
            // deep slots from both sides, flat vertices along the bottom
            let mut d = vec![];
            for i in 0..k { d.push((2 * i, 0)); }
            for i in (0..k).rev() { d.push((2 * i, if i % 2 == 0 { 20 } else { 1 })); }
            v.push((format!("slots {}", d.len()), d));
        }
    }
    // rectangular spirals: one cell wide corridors wound inwards
    for steps in &[3usize, 5, 7, 9, 11, 14] {
        let (mut x, mut y, mut dx, mut dy) = (0i64, 0i64, 1i64, 0i64);
        let mut cells = vec![(0i64, 0i64)];
        let mut len = 2 * ((*steps as i64 + 3) / 2);
        for k in 0..*steps {
            for _ in 0..len { x += dx; y += dy; cells.push((x, y)); }
            let t = dx; dx = -dy; dy = t;
            if k % 2 == 1 || k == 0 { len -= if k == 0 { 0 } else { 2 }; }
            if len <= 0 { break; }
        }
        for &flat in &[false, true] {
            if let Some(p) = boundary(&cells, flat) { v.push((format!("spiral {}", p.len()), p)); }
        }
    }
    // from the literature (O'Rourke), as used by the crate's own example
    v.push(("textbook 18".into(), vec![(0, 0), (10, 7), (12, 3), (20, 8), (13, 17), (10, 12), (12, 14), (14, 9), (8, 10), (6, 14), (10, 15), (7, 18), (0, 16), (1, 13), (3, 15), (5, 8), (-2, 9), (5, 5)]));
    v.push(("L".into(), vec![(0, 0), (6, 0), (6, 2), (2, 2), (2, 6), (0, 6)]));
    v.push(("U".into(), vec![(0, 0), (9, 0), (9, 9), (6, 9), (6, 3), (3, 3), (3, 9), (0, 9)]));
    v.push(("arrow".into(), vec![(0, 0), (10, 5), (0, 10), (4, 5)]));
    v.push(("needle".into(), vec![(0, 0), (1000, 1), (1000, 2), (0, 3)]));
    v.push(("plus".into(), vec![(3, 0), (6, 0), (6, 3), (9, 3), (9, 6), (6, 6), (6, 9), (3, 9), (3, 6), (0, 6), (0, 3), (3, 3)]));
    v.retain(|(_, p)| p.len() <= max + 8 && is_simple(p));
    v
}

// ------------------------------------------------------------------------------------------------------ C09

/// Is the open segment between vertices i and j strictly inside the simple polygon? (exact)
fn interior_diagonal(v: &[P], i: usize, j: usize) -> bool {
    let n = v.len();
    if i == j || (i + 1) % n == j || (j + 1) % n == i { return false; }
    let (a, b) = (v[i], v[j]);
    for k in 0..n {
        if k != i && k != j && on_closed(a, b, v[k]) { return false; }
        let l = (k + 1) % n;
        if k == i || k == j || l == i || l == j { continue; }
        if meet(a, b, v[k], v[l]) { return false; }
    }
    // no contact: inside as a whole or outside as a whole; decide for the midpoint in doubled coordinates
    let m = (a.0 + b.0, a.1 + b.1);
    let mut inside = false;
    for k in 0..n {
        let (p, q) = ((2 * v[k].0, 2 * v[k].1), (2 * v[(k + 1) % n].0, 2 * v[(k + 1) % n].1));
        if (p.1 > m.1) != (q.1 > m.1) {
            // x of the crossing > m.x ?
            let o = orient(p, q, m);
            if (q.1 > p.1) == (o > 0) { inside = !inside; }
        }
    }
    inside
}

fn diagonal_class(v: &[P], i: usize, j: usize, want: bool) -> Class {
    let n = v.len();
    if i == j { "same vertex" } else if (i + 1) % n == j || (j + 1) % n == i { "side" } else if want { "interior diagonal" } else { "not a diagonal" }
}

/// The polygon as constructed, or (moved) constructed elsewhere, scaled and translated into its place by the library
/// itself; with the coordinates its vertices have then.
fn build(t: &Tr, given: &[P], moved: bool) -> Option<(Polygon, Vec<Vec2>)> {
    let mut c = coords(t, given);
    let mut poly = Polygon::new(&c).ok()?;
    if moved {
        for &(s, x, y) in &[(2.0f32, 3.0f32, -5.0f32), (-0.25, 0.5, 64.0)] {
            // everything is asked before, too, in case the polygon remembers its answers
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (poly.area(), poly.center(), poly.diagonal(0, 2), poly.triangulate())));
            poly.uniform_scale(s);
            poly.translate(&Vec2::new(x, y));
            for p in c.iter_mut() { *p = Vec2::new(p.x * s + x, p.y * s + y); }
        }
    }
    Some((poly, c))
}

fn c09_poly(cx: &mut Cx, t: &Tr, given: &[P], moved: bool, all_pairs: bool) {
    let (poly, c) = match build(t, given, moved) { Some(p) => p, None => return };
    let v = match back(&poly, given, &c) { Ok(v) => v, Err(_) => return };
    let n = v.len();
    if poly.get_vertices().len() != given.len() { return; }
    for i in 0..n {
        for j in 0..n {
            if !all_pairs && (i + j) % 7 != 0 && (j + n - i) % n > 3 { continue; }
            let want = interior_diagonal(&v, i, j);
            cx.case(|| format!("polygon {} pair {}, {}", show(poly.get_vertices()), i, j), || {
                let got = poly.diagonal(i, j);
                if got != want { return Err(format!("diagonal is {}, expected {}", got, want)); }
                Ok(diagonal_class(&v, i, j, want))
            });
        }
    }
}

// ------------------------------------------------------------------------------------------------------ C10

fn c10_poly(cx: &mut Cx, t: &Tr, given: &[P]) { c10_built(cx, t, given, false) }
fn c10_moved(cx: &mut Cx, t: &Tr, given: &[P]) { c10_built(cx, t, given, true) }

fn c10_built(cx: &mut Cx, t: &Tr, given: &[P], moved: bool) {
    cx.case(|| format!("polygon {}{}", show(&coords(t, given)), if moved { ", scaled by 2, moved by (3, -5), scaled by -0.25, moved by (0.5, 64)" } else { "" }), || {
        let (poly, c) = build(t, given, moved).ok_or_else(|| "the polygon cannot be built".to_string())?;
        let n = given.len();
        let before = poly.get_vertices().to_vec();
        if moved && back(&poly, given, &c).is_err() { return Ok("-not moved faithfully (see C08)"); }
        if before.len() != n { return Ok("-not built faithfully (see C08)"); }
        let ts = poly.triangulate();
        if poly.get_vertices()[..] != before[..] { return Err("the polygon was modified".into()); }
        if ts.len() != n - 2 { return Err(format!("{} triangles, expected {}", ts.len(), n - 2)); }
        let id: HashMap<(u32, u32), usize> = c.iter().enumerate().map(|(i, x)| (bits(x), i)).collect();
        let sign = shoelace(given).signum();
        // count of directed sides, polygon traversed counter-clockwise
        let mut chain: HashMap<(usize, usize), i32> = HashMap::new();
        let mut area = 0i64;
        for (k, q) in ts.iter().enumerate() {
            let vs = q.get_vertices();
            if vs.len() != 3 { return Err(format!("piece {} has {} vertices", k, vs.len())); }
            let mut ix = vec![];
            for x in vs { ix.push(*id.get(&bits(x)).ok_or_else(|| format!("corner {:?} of triangle {} is not a vertex of the polygon", (x.x, x.y), k))?); }
            let o = orient(given[ix[0]], given[ix[1]], given[ix[2]]);
            if o == 0 { return Err(format!("triangle {} ({}) has no area", k, show(vs))); }
            if o < 0 { ix.swap(1, 2); }
            area += o.abs();
            for e in 0..3 { *chain.entry((ix[e], ix[(e + 1) % 3])).or_insert(0) += 1; }
        }
        for i in 0..n {
            let j = (i + 1) % n;
            let side = if sign > 0 { (i, j) } else { (j, i) };
            if chain.get(&side) != Some(&1) { return Err(format!("side {:?}-{:?} of the polygon is a side of {} triangles", given[side.0], given[side.1], chain.get(&side).unwrap_or(&0))); }
            chain.remove(&side);
        }
        for (&(a, b), &k) in &chain {
            if k != 1 || chain.get(&(b, a)) != Some(&1) { return Err(format!("the inner side {:?}-{:?} is not shared by exactly two triangles", given[a], given[b])); }
        }
        if area != shoelace(given).abs() { return Err(format!("twice the areas add up to {}, the polygon has {}", area, shoelace(given).abs())); }
        // areas as reported by the library
        let sum: f64 = ts.iter().map(|q| q.area() as f64).sum();
        let ext = c.iter().fold(0.0f64, |m, p| m.max(p.x.abs() as f64).max(p.y.abs() as f64));
        let want = area as f64 * 0.5 * t.s * t.s * if moved { 0.25 } else { 1.0 };
        if !((sum - want).abs() <= 64.0 * EPS * (want + ext * ext)) { return Err(format!("the reported areas add up to {}, expected {}", sum, want)); }
        let reflex = (0..n).filter(|&i| orient(given[(i + n - 1) % n], given[i], given[(i + 1) % n]) * sign < 0).count();
        let flat = (0..n).any(|i| orient(given[(i + n - 1) % n], given[i], given[(i + 1) % n]) == 0);
        Ok(if n == 3 { "triangle" } else if reflex == 0 { if flat { "convex with straight angles" } else { "strictly convex" } } else if flat { "concave with straight angles" } else if reflex == 1 { "one reflex vertex" } else { "several reflex vertices" })
    });
}

// ---------------------------------------------------------------------------------------------- C09 / C10 domains

fn lattice_dom(name: &str, pts: Vec<P>, ns: std::ops::RangeInclusive<usize>, trs: Vec<Tr>, starts: bool, only_general: bool, what: fn(&mut Cx, &Tr, &[P])) -> Dom {
    let bound = format!("all simple polygons with {} to {} vertices among {} lattice points{}, {} x {} scales/offsets", ns.start(), ns.end(), pts.len(),
        if only_general { " (no three vertices on a line)" } else { "" }, if starts { "every start vertex and both directions" } else { "one start vertex, both directions" }, trs.len());
    let m = pts.len();
    let sizes: Vec<usize> = ns.collect();
    dom(name, &bound, m * sizes.len(), move |u, cx: &mut Cx| {
        let n = sizes[sizes.len() - 1 - u / m];
        simple_polygons(&pts, u % m, n, &mut |p| {
            if only_general && !general_position(p) { return true; }
            for t in &trs {
                for s in 0..if starts { n } else { 1 } {
                    for &rev in &[false, true] {
                        what(cx, t, &rotated(p, s, rev));
                    }
                }
            }
            !cx.done()
        });
    })
}

fn family_dom(name: &str, max: usize, all_starts: bool, what: fn(&mut Cx, &Tr, &[P])) -> Dom {
    family_dom_above(name, 0, max, all_starts, what)
}

fn family_dom_above(name: &str, min: usize, max: usize, all_starts: bool, what: fn(&mut Cx, &Tr, &[P])) -> Dom {
    let few = move || -> Vec<(String, Vec<P>)> { families(max).into_iter().filter(|f| f.1.len() >= min).collect() };
    let n = few().len();
    let bound = format!("{} parametric simple polygons (convex, stars, combs, zigzags, staircases, slots, spirals, textbook shapes) with {} to {} vertices x {} start vertices x both directions x 3 scales/offsets", n, min, max + 8, if all_starts { "all" } else { "4" });
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        let (_, p) = &few()[u];
        for t in &[tr(1.0, 0.0, 0.0), tr(0.25, -3.0, 7.0), tr(-1.0, 100.0, -50.0)] {
            let k = p.len();
            let step = if all_starts { 1 } else { (k / 4).max(1) };
            let mut s = 0;
            while s < k {
                for &rev in &[false, true] {
                    if cx.done() { return; }
                    what(cx, t, &rotated(p, s, rev));
                }
                s += step;
            }
        }
    })
}

fn c09_all(cx: &mut Cx, t: &Tr, p: &[P]) { c09_poly(cx, t, p, false, true) }
fn c09_moved(cx: &mut Cx, t: &Tr, p: &[P]) { c09_poly(cx, t, p, true, true) }
fn c09_some(cx: &mut Cx, t: &Tr, p: &[P]) { c09_poly(cx, t, p, false, false) }

/// Powers of two: the lattice arithmetic stays exact at every magnitude.
fn magnitudes() -> Vec<Tr> {
    [-24i32, -17, -12, -7, -3, 5, 10, 14, 20].iter().map(|e| tr(2f64.powi(*e), 0.0, 0.0)).collect()
}

pub fn c09(tier: Tier) -> Plan {
    let unit = vec![tr(1.0, 0.0, 0.0)];
    let exact = vec![tr(1.0, 0.0, 0.0), tr(0.25, -2.0, 3.0), tr(-64.0, 128.0, 300.0)];
    let canvas = vec![tr(100.1, 33.3, 77.7), tr(-57.31, 411.2, -3.9), tr(0.1, 0.0, 0.0)];
    let mut doms = vec![
        lattice_dom("3x3", grid(3, 3), 3..=9, exact.clone(), true, false, c09_all),
        lattice_dom("4x4", grid(4, 4), 3..=6, unit.clone(), false, false, c09_all),
        lattice_dom("4x4 rounded coordinates", grid(4, 4), 4..=6, canvas.clone(), false, true, c09_all),
        lattice_dom("5x5", grid(5, 5), 4..=4, exact.clone(), true, false, c09_all),
        family_dom("families", 32, false, c09_all),
        polyomino_dom("cell sets 4x4", 4, 4, unit.clone(), false, false, c09_all),
        polyomino_dom("cell sets 4x3 with straight angles", 4, 3, exact.clone(), true, true, c09_all),
        polyomino_dom("cell sets 4x4 with straight angles", 4, 4, unit.clone(), false, true, c09_all),
        lattice_dom("4x4 with 7", grid(4, 4), 7..=7, unit.clone(), false, false, c09_all),
        lattice_dom("5x5 with 5", grid(5, 5), 5..=5, unit.clone(), false, false, c09_all),
        lattice_dom("3x3, every magnitude", grid(3, 3), 3..=9, magnitudes(), false, false, c09_all),
        lattice_dom("3x3, scaled and translated polygons", grid(3, 3), 3..=9, unit.clone(), false, false, c09_moved),
        lattice_dom("4x4, scaled and translated polygons", grid(4, 4), 4..=5, unit.clone(), false, false, c09_moved),
        family_dom("families, scaled and translated", 20, false, c09_moved),
        family_dom_above("large families", 33, 128, false, c09_some),
        family_dom_above("larger families", 258, 260, false, c09_some),
        lattice_dom("4x4 of uneven spacing", wide(&[-1000, 0, 1, 1000]), 3..=5, vec![tr(1.0, 0.0, 0.0), tr(0.0078125, 0.0, 0.0)], false, false, c09_all),
    ];
    if tier == Tier::Thorough {
        doms.push(lattice_dom("4x4 with 8 and 9", grid(4, 4), 8..=9, unit.clone(), false, false, c09_all));
        doms.push(lattice_dom("5x5 with 6", grid(5, 5), 6..=6, unit.clone(), false, false, c09_all));
        doms.push(lattice_dom("5x5 rounded coordinates", grid(5, 5), 5..=6, canvas, false, true, c09_all));
        doms.push(family_dom("all pairs of large families", 64, true, c09_all));
        doms.push(family_dom_above("larger families", 129, 512, false, c09_some));
        doms.push(lattice_dom("4x4 with 10", grid(4, 4), 10..=10, unit.clone(), false, false, c09_all));
        doms.push(lattice_dom("6x4 with 4 to 6", grid(6, 4), 4..=6, unit.clone(), false, false, c09_all));
        doms.push(lattice_dom("5x5 of uneven spacing", wide(&[-1000, -999, 0, 1, 1000]), 3..=5, unit.clone(), false, false, c09_all));
        doms.push(lattice_dom("4x4, every magnitude", grid(4, 4), 4..=6, magnitudes(), false, false, c09_all));
        doms.push(lattice_dom("4x4, scaled and translated polygons up to 8", grid(4, 4), 6..=8, unit.clone(), false, false, c09_moved));
        doms.push(polyomino_dom("cell sets 5x4", 5, 4, unit.clone(), false, false, c09_all));
        doms.push(polyomino_dom("cell sets 5x4 with straight angles", 5, 4, unit.clone(), false, true, c09_all));
    }
    Plan {
        level: "exploration",
        rule: "every ordered vertex pair of every enumerated simple polygon; all cases are non-trivial (the outcome classes separate sides, equal vertices, interior diagonals and rejected pairs)",
        assumptions: vec!["for coordinates that are rounded, only polygons without three collinear vertices are judged, so that rounding cannot change the answer"],
        doms,
    }
}

pub fn c10(tier: Tier) -> Plan {
    let unit = vec![tr(1.0, 0.0, 0.0)];
    let exact = vec![tr(1.0, 0.0, 0.0), tr(0.25, -2.0, 3.0), tr(-64.0, 128.0, 300.0)];
    let canvas = vec![tr(100.1, 33.3, 77.7), tr(-57.31, 411.2, -3.9), tr(0.1, 0.0, 0.0)];
    let mut doms = vec![
        lattice_dom("3x3", grid(3, 3), 3..=9, exact.clone(), true, false, c10_poly),
        lattice_dom("4x4", grid(4, 4), 3..=6, unit.clone(), true, false, c10_poly),
        lattice_dom("4x4 rounded coordinates", grid(4, 4), 4..=6, canvas.clone(), false, true, c10_poly),
        lattice_dom("5x5", grid(5, 5), 4..=5, unit.clone(), true, false, c10_poly),
        family_dom("families", 64, true, c10_poly),
        polyomino_dom("cell sets 4x4", 4, 4, unit.clone(), true, false, c10_poly),
        polyomino_dom("cell sets 4x4 with straight angles", 4, 4, vec![exact[1]], true, true, c10_poly),
        lattice_dom("4x4 with 7", grid(4, 4), 7..=7, unit.clone(), true, false, c10_poly),
        lattice_dom("3x3, every magnitude", grid(3, 3), 3..=9, magnitudes(), true, false, c10_poly),
        lattice_dom("3x3, scaled and translated polygons", grid(3, 3), 3..=9, unit.clone(), true, false, c10_moved),
        lattice_dom("4x4, scaled and translated polygons", grid(4, 4), 4..=6, unit.clone(), false, false, c10_moved),
        family_dom("families, scaled and translated", 40, false, c10_moved),
        family_dom_above("large families", 65, 130, false, c10_poly),
        family_dom_above("larger families", 258, 260, false, c10_poly),
        lattice_dom("4x4 of uneven spacing", wide(&[-1000, 0, 1, 1000]), 3..=5, vec![tr(1.0, 0.0, 0.0), tr(0.0078125, 0.0, 0.0)], true, false, c10_poly),
    ];
    if tier == Tier::Thorough {
        let unit2 = unit.clone();
        doms.push(lattice_dom("4x4 with 8", grid(4, 4), 8..=8, unit.clone(), true, false, c10_poly));
        doms.push(lattice_dom("5x5 of uneven spacing", wide(&[-1000, -999, 0, 1, 1000]), 3..=5, unit.clone(), true, false, c10_poly));
        doms.push(lattice_dom("4x4 up to 10", grid(4, 4), 9..=10, unit.clone(), false, false, c10_poly));
        doms.push(lattice_dom("5x5 up to 6", grid(5, 5), 6..=6, exact, true, false, c10_poly));
        doms.push(lattice_dom("5x5 with 7", grid(5, 5), 7..=7, unit, false, false, c10_poly));
        doms.push(lattice_dom("5x5 rounded coordinates", grid(5, 5), 5..=6, canvas, false, true, c10_poly));
        doms.push(family_dom_above("all starts of large families", 65, 130, true, c10_poly));
        doms.push(family_dom_above("larger families", 130, 512, false, c10_poly));
        doms.push(lattice_dom("6x4 with 4 to 7", grid(6, 4), 4..=7, unit2.clone(), false, false, c10_poly));
        doms.push(lattice_dom("4x4, every magnitude", grid(4, 4), 4..=7, magnitudes(), false, false, c10_poly));
        doms.push(lattice_dom("4x4, scaled and translated polygons up to 8", grid(4, 4), 7..=8, unit2.clone(), false, false, c10_moved));
        doms.push(polyomino_dom("cell sets 5x4", 5, 4, unit2.clone(), true, false, c10_poly));
        doms.push(polyomino_dom("cell sets 5x4 with straight angles", 5, 4, unit2, false, true, c10_poly));
    }
    Plan {
        level: "exploration",
        rule: "every enumerated simple polygon x start vertex x direction is triangulated once; all cases are non-trivial (classes by convexity)",
        assumptions: vec!["positively oriented triangles whose directed sides cancel to the polygon's boundary cover every interior point exactly once (winding number)", "for coordinates that are rounded, only polygons without three collinear vertices are judged"],
        doms,
    }
}

// ------------------------------------------------------------------------------------------------------ C08

fn c08_lists(name: &str, pts: Vec<P>, lens: std::ops::RangeInclusive<usize>, trs: Vec<Tr>) -> Dom {
    let n = pts.len();
    let bound = format!("all lists of {} to {} of {} lattice points, repetitions included, x {} scales/offsets", lens.start(), lens.end(), n, trs.len());
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for t in &trs {
            for l in lens.clone() {
                if l == 0 && u > 0 { continue; }
                tuples(if l == 0 { 0 } else { l - 1 }, n, |ix| {
                    let mut list: Vec<P> = vec![];
                    if l > 0 { list.push(pts[u]); }
                    list.extend(ix.iter().map(|&i| pts[i]));
                    let c = coords(t, &list);
                    cx.case(|| format!("Polygon::new({})", show(&c)), || {
                        let r = Polygon::new(&c);
                        if l < 3 {
                            return match r { Err(PolygonError::Degenerate) => Ok("too few vertices"), Ok(_) => Err("a polygon was built from fewer than three vertices".into()) };
                        }
                        let poly = r.map_err(|_| "no polygon was built".to_string())?;
                        let a2 = shoelace(&list);
                        let want: Vec<(u32, u32)> = if a2 < 0 { c.iter().rev().map(bits).collect() } else { c.iter().map(bits).collect() };
                        let got: Vec<(u32, u32)> = poly.get_vertices().iter().map(bits).collect();
                        if got.len() != want.len() || !(0..l).any(|k| (0..l).all(|i| got[(i + k) % l] == want[i])) {
                            return Err(format!("the vertices are {}, expected the given ones {}", show(poly.get_vertices()), if a2 < 0 { "reversed" } else { "in order" }));
                        }
                        let ctr = poly.center();
                        let m = c.iter().fold(0.0f64, |m, p| m.max(p.x.abs() as f64).max(p.y.abs() as f64));
                        let (sx, sy) = c.iter().fold((0.0f64, 0.0f64), |s, p| (s.0 + p.x as f64, s.1 + p.y as f64));
                        if !((ctr.x as f64 - sx / l as f64).abs() <= 8.0 * EPS * m && (ctr.y as f64 - sy / l as f64).abs() <= 8.0 * EPS * m) {
                            return Err(format!("the centre is ({}, {}), expected ({}, {})", ctr.x, ctr.y, sx / l as f64, sy / l as f64));
                        }
                        let simple = is_simple(&list);
                        if simple {
                            let want = (a2.abs() as f64) * 0.5 * t.s * t.s;
                            if !((poly.area() as f64 - want).abs() <= 1e-6 * want) { return Err(format!("the area is {}, expected {}", poly.area(), want)); }
                        }
                        Ok(if simple { if a2 < 0 { "simple, clockwise" } else { "simple, counter-clockwise" } } else if a2 == 0 { "no signed area" } else { "not simple" })
                    });
                    !cx.done()
                });
            }
        }
    })
}

fn c08_simple(cx: &mut Cx, t: &Tr, given: &[P]) {
    let c = coords(t, given);
    cx.case(|| format!("Polygon::new({})", show(&c)), || {
        let poly = Polygon::new(&c).map_err(|_| "no polygon was built".to_string())?;
        let v = back(&poly, given, &c)?;
        let n = given.len();
        if v.len() != n { return Err(format!("{} vertices, given {}", v.len(), n)); }
        let a2 = shoelace(given);
        let want: Vec<P> = if a2 < 0 { given.iter().rev().cloned().collect() } else { given.to_vec() };
        if !(0..n).any(|k| (0..n).all(|i| v[(i + k) % n] == want[i])) { return Err(format!("the vertices are {}, expected the given ones {}", show(poly.get_vertices()), if a2 < 0 { "reversed" } else { "in order" })); }
        let m = c.iter().fold(0.0f64, |m, p| m.max(p.x.abs() as f64).max(p.y.abs() as f64));
        let w = (a2.abs() as f64) * 0.5 * t.s * t.s;
        if !((poly.area() as f64 - w).abs() <= 1e-6 * w + 16.0 * EPS * m * m) { return Err(format!("the area is {}, expected {}", poly.area(), w)); }
        let ctr = poly.center();
        let (sx, sy) = c.iter().fold((0.0f64, 0.0f64), |s, p| (s.0 + p.x as f64 / n as f64, s.1 + p.y as f64 / n as f64));
        if !((ctr.x as f64 - sx).abs() <= (n as f64) * EPS * m && (ctr.y as f64 - sy).abs() <= (n as f64) * EPS * m) { return Err(format!("the centre is ({}, {}), expected ({}, {})", ctr.x, ctr.y, sx, sy)); }
        Ok(if a2 < 0 { "clockwise" } else { "counter-clockwise" })
    });
}

fn c08_regular(name: &str, sides: Vec<usize>) -> Dom {
    let radii = [0.01f32, 0.5, 1.0, 3.0, 250.0, 1000.0];
    let ctrs = [(0.0f32, 0.0f32), (1.0, -2.0), (300.5, 199.25), (-0.3, 1000.0)];
    let bound = format!("{} numbers of sides from {} to {} x {} radii x {} centres", sides.len(), sides[0], sides[sides.len() - 1], radii.len(), ctrs.len());
    dom(name, &bound, sides.len(), move |u, cx: &mut Cx| {
        let n = sides[u];
        for &r in &radii {
            for &(x, y) in &ctrs {
                cx.case(|| format!("Polygon::regular({}, {:?}, ({:?}, {:?}))", n, r, x, y), || {
                    let p = Polygon::regular(n, r, &Vec2::new(x, y));
                    let v = p.get_vertices();
                    if v.len() != n { return Err(format!("{} vertices", v.len())); }
                    let m = (r as f64) + (x.abs().max(y.abs()) as f64);
                    let tol = 8.0 * EPS * m;
                    let d: Vec<[f64; 2]> = v.iter().map(|q| [q.x as f64 - x as f64, q.y as f64 - y as f64]).collect();
                    // so small and far away that rounding decides on the orientation
                    let tiny = 0.5 * n as f64 * (2.0 * std::f64::consts::PI / n as f64).sin() * (r as f64) * (r as f64) < 16.0 * n as f64 * EPS * m * m;
                    let turn = if tiny && d[0][0] * d[1][1] < d[0][1] * d[1][0] { -1.0 } else { 1.0 };
                    let step = turn * 2.0 * std::f64::consts::PI / n as f64;
                    for i in 0..n {
                        let (a, b) = (d[i], d[(i + 1) % n]);
                        let l = a[0].hypot(a[1]);
                        if !((l - r as f64).abs() <= tol) { return Err(format!("vertex {} is {} from the centre", i, l)); }
                        // the next vertex is this one turned by 360/n degrees
                        let (c, s) = (step.cos(), step.sin());
                        let e = [c * a[0] - s * a[1] - b[0], s * a[0] + c * a[1] - b[1]];
                        if !(e[0].hypot(e[1]) <= 4.0 * tol + 4e-6 * r as f64) { return Err(format!("vertices {} and {} are not {} of a full turn apart counter-clockwise", i, (i + 1) % n, 1.0 / n as f64)); }
                    }
                    Ok("regular")
                });
            }
        }
    })
}

/// All sequences of scalings and translations, breadth first.
fn c08_transforms(name: &str, shapes: Vec<Vec<P>>, scales: Vec<f32>, shifts: Vec<(f32, f32)>, depth: usize) -> Dom {
    let k = scales.len() + shifts.len();
    let bound = format!("{} polygons x all sequences of up to {} of {} scalings {:?} and translations {:?}", shapes.len(), depth, k, scales, shifts);
    dom(name, &bound, shapes.len(), move |u, cx: &mut Cx| {
        let given = &shapes[u];
        let c: Vec<Vec2> = given.iter().map(|p| Vec2::new(p.0 as f32, p.1 as f32)).collect();
        let base = match Polygon::new(&c) { Ok(p) => p, Err(_) => return };
        let n = c.len();
        let v0: Vec<[f64; 2]> = base.get_vertices().iter().map(|p| [p.x as f64, p.y as f64]).collect();
        let a0 = shoelace(given).abs() as f64 * 0.5;
        // (polygon, scale, shift, error bound, history)
        type St = (Polygon, f64, [f64; 2], f64, Vec<usize>);
        let mut frontier: Vec<St> = vec![(base, 1.0, [0.0, 0.0], 0.0, vec![])];
        cx.states += 1;
        let op = |i: usize| if i < scales.len() { format!("scale {:?}", scales[i]) } else { format!("translate {:?}", shifts[i - scales.len()]) };
        for d in 0..depth {
            let mut next = vec![];
            for (p, s, t, err, h) in &frontier {
                if cx.done() { return; }
                for i in 0..k {
                    cx.transitions += 1;
                    let r = cx.case_full(|| format!("polygon {} after [{}], {}", show(&c), h.iter().map(|&i| op(i)).collect::<Vec<_>>().join(", "), op(i)), |_| {
                        let mut q = p.clone();
                        let (mut s, mut t) = (*s, *t);
                        if i < scales.len() {
                            q.uniform_scale(scales[i]);
                            let f = scales[i] as f64;
                            s *= f;
                            t = [t[0] * f, t[1] * f];
                        } else {
                            let w = shifts[i - scales.len()];
                            q.translate(&Vec2::new(w.0, w.1));
                            t = [t[0] + w.0 as f64, t[1] + w.1 as f64];
                        }
                        let v = q.get_vertices();
                        if v.len() != n { return Err(format!("{} vertices", v.len())); }
                        let m = v0.iter().fold(1e-30f64, |m, x| m.max((s * x[0] + t[0]).abs()).max((s * x[1] + t[1]).abs()));
                        let err = (if i < scales.len() { err * (scales[i] as f64).abs() } else { *err }) + EPS * m;
                        for j in 0..n {
                            let w = [s * v0[j][0] + t[0], s * v0[j][1] + t[1]];
                            if !((v[j].x as f64 - w[0]).abs() <= err && (v[j].y as f64 - w[1]).abs() <= err) { return Err(format!("vertex {} is ({}, {}), expected {:?}", j, v[j].x, v[j].y, w)); }
                        }
                        let sh: f64 = (0..n).map(|j| { let (a, b) = (&v[j], &v[(j + 1) % n]); a.x as f64 * b.y as f64 - b.x as f64 * a.y as f64 }).sum();
                        let want = a0 * s * s;
                        let ext = v0.iter().fold(0.0f64, |m, x| m.max((s * (x[0] - v0[0][0])).abs()).max((s * (x[1] - v0[0][1])).abs()));
                        let wa = 8.0 * n as f64 * (EPS * ext * ext + err * ext);
                        if want > 1e-3 * m * m && !(sh > 0.0) { return Err("the polygon is not counter-clockwise any more".into()); }
                        if !((q.area() as f64 - want).abs() <= wa) { return Err(format!("the area is {}, expected {}", q.area(), want)); }
                        let (cx0, cy0) = v0.iter().fold((0.0, 0.0), |a, x| (a.0 + x[0] / n as f64, a.1 + x[1] / n as f64));
                        let ctr = q.center();
                        let wc = err + n as f64 * EPS * m;
                        if !((ctr.x as f64 - (s * cx0 + t[0])).abs() <= wc && (ctr.y as f64 - (s * cy0 + t[1])).abs() <= wc) { return Err(format!("the centre is ({}, {}), expected ({}, {})", ctr.x, ctr.y, s * cx0 + t[0], s * cy0 + t[1])); }
                        let mut h = h.clone();
                        h.push(i);
                        Ok((if i < scales.len() { "scaled" } else { "translated" }, (q, s, t, err, h)))
                    }, false);
                    if let Some(x) = r {
                        cx.states += 1;
                        if d + 1 < depth { next.push(x); }
                    }
                }
            }
            frontier = next;
        }
    })
}

pub fn c08(tier: Tier) -> Plan {
    let exact = vec![tr(1.0, 0.0, 0.0), tr(0.25, -2.0, 3.0), tr(-64.0, 128.0, 300.0)];
    let canvas = vec![tr(1.0, 0.0, 0.0), tr(100.1, 33.3, 77.7), tr(-57.31, 411.2, -3.9), tr(0.1, 0.0, 0.0)];
    let shapes = vec![vec![(0, 0), (4, 0), (1, 3)], vec![(0, 0), (0, 4), (4, 4), (4, 0)], vec![(0, 0), (10, 5), (0, 10), (4, 5)],
        vec![(-3, -3), (7, -3), (7, 2), (2, 2), (2, 8), (-3, 8)], vec![(3, 0), (6, 0), (6, 3), (9, 3), (9, 6), (6, 6), (6, 9), (3, 9), (3, 6), (0, 6), (0, 3), (3, 3)], vec![(100, 200), (90, 250), (300, 240)]];
    let mut doms = vec![
        c08_lists("all lists over 3x3", grid(3, 3), 0..=5, exact.clone()),
        c08_lists("all lists over 2x2 and a far point", vec![(0, 0), (2, 0), (2, 2), (0, 2), (40, -30)], 6..=7, exact.clone()),
        lattice_dom("simple polygons 3x3", grid(3, 3), 3..=9, canvas.clone(), true, false, c08_simple),
        lattice_dom("simple polygons 4x4", grid(4, 4), 3..=5, canvas.clone(), true, false, c08_simple),
        family_dom("families", 64, true, c08_simple),
        polyomino_dom("cell sets 4x4", 4, 4, vec![exact[1], canvas[1]], true, true, c08_simple),
        c08_regular("regular polygons", (3..=1100).collect()),
        c08_regular("regular polygons with very many sides", vec![2048, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 70000]),
        c08_lists("all lists over 3x3, every magnitude", grid(3, 3), 3..=4, magnitudes()),
        lattice_dom("simple polygons 3x3, every magnitude", grid(3, 3), 3..=9, magnitudes(), true, false, c08_simple),
        family_dom_above("large families", 65, 512, false, c08_simple),
        lattice_dom("simple polygons on a 4x4 lattice of uneven spacing", wide(&[-1000, 0, 1, 1000]), 3..=5, vec![tr(1.0, 0.0, 0.0), tr(0.0078125, 0.0, 0.0)], true, false, c08_simple),
        lattice_dom("simple polygons 4x4 up to 7", grid(4, 4), 6..=7, canvas.clone(), false, false, c08_simple),
        c08_transforms("small and large steps", shapes.clone(), vec![1.0, 1.003, 0.9995, 200.0, -0.01], vec![(0.0007, -0.0003), (0.0, 0.02), (0.0, 0.0), (5000.0, 0.001)], 3),
        c08_transforms("transform sequences", shapes.clone(), vec![2.0, 0.5, -1.0, 0.3, -7.1], vec![(1.0, 2.0), (-3.5, 0.25), (0.0, -100.3)], 4),
    ];
    if tier == Tier::Thorough {
        doms.push(c08_lists("all lists over 3x3, length 6 and 7", grid(3, 3), 6..=7, exact));
        doms.push(lattice_dom("simple polygons 4x4 up to 8, every start", grid(4, 4), 6..=8, canvas.clone(), true, false, c08_simple));
        doms.push(lattice_dom("simple polygons 5x5", grid(5, 5), 3..=6, canvas, true, false, c08_simple));
        doms.push(c08_regular("regular polygons, more sides", (1101..=5000).collect()));
        doms.push(c08_transforms("long transform sequences", shapes.clone(), vec![2.0, 0.5, -1.0, -0.3], vec![(1.0, 2.0), (-3.5, 0.25)], 7));
        doms.push(c08_transforms("longer transform sequences", shapes, vec![2.0, 0.5, -1.0, 0.3, -7.1, 100.0], vec![(1.0, 2.0), (-3.5, 0.25), (0.0, -100.3), (512.0, 511.0)], 5));
    }
    let _: Vec<Vec<u8>> = all(0, &[0u8]);
    Plan {
        level: "exploration",
        rule: "every vertex list / simple polygon / regular polygon in the stated sets, and every transform sequence up to the stated length (breadth first over real polygons, compared with the affine image in f64); all cases are non-trivial",
        assumptions: vec!["the enclosed area is demanded for simple polygons only"],
        doms,
    }
}
pub fn list_families() { for (n, p) in families(128) { eprint!("{}({}) ", n, p.len()); } eprintln!(); }
