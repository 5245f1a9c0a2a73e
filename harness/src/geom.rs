//! C07, C11-C15: planar predicates and constructions against exact integer / f64 references.

use kami::geometry::line::Line;
use kami::geometry::polygon as pg;
use kami::geometry::utils as ut;
use kami::glm::Vec2;
use kami::math::vector::Vector3;

use crate::engine::{dom, Class, Cx, Dom, Plan, Tier};
use crate::util::tuples;

pub const EPS: f64 = 1.1920929e-7;

pub type P = (i64, i64);

pub fn grid(w: i64, h: i64) -> Vec<P> {
    let mut v = vec![];
    for y in 0..h {
        for x in 0..w {
            v.push((x, y));
        }
    }
    v
}

/// Maps lattice points to coordinates: x -> s * x + o.
#[derive(Clone, Copy, Debug)]
pub struct Tr {
    pub s: f64,
    pub ox: f64,
    pub oy: f64,
}

pub fn tr(s: f64, ox: f64, oy: f64) -> Tr {
    Tr { s, ox, oy }
}

impl Tr {
    pub fn at(&self, p: P) -> Vec2 {
        Vec2::new((self.s * p.0 as f64 + self.ox) as f32, (self.s * p.1 as f64 + self.oy) as f32)
    }
}

/// Transformations that are exact in single precision on small lattices.
pub fn exact_trs() -> Vec<Tr> {
    vec![tr(1.0, 0.0, 0.0), tr(0.125, -0.25, 0.5), tr(1.0, -2.0, -3.0), tr(64.0, 128.0, -64.0), tr(3.0, -700.0, 500.0), tr(-0.5, 1.0, 1.0)]
}

/// Transformations whose results are rounded, from unit to canvas scale.
pub fn rounded_trs() -> Vec<Tr> {
    vec![tr(0.1, 0.0, 0.0), tr(1.0 / 3.0, -0.7, 0.4), tr(100.1, 33.3, 77.7), tr(-57.31, 411.2, -3.9), tr(0.37, 100.3, 200.7)]
}

pub fn orient(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}

pub fn on_closed(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

pub fn proper(a: P, b: P, c: P, d: P) -> bool {
    orient(a, b, c).signum() * orient(a, b, d).signum() < 0 && orient(c, d, a).signum() * orient(c, d, b).signum() < 0
}

pub fn meet(a: P, b: P, c: P, d: P) -> bool {
    proper(a, b, c, d) || on_closed(a, b, c) || on_closed(a, b, d) || on_closed(c, d, a) || on_closed(c, d, b)
}

fn v64(p: &Vec2) -> [f64; 2] {
    [p.x as f64, p.y as f64]
}
fn sub(a: [f64; 2], b: [f64; 2]) -> [f64; 2] {
    [a[0] - b[0], a[1] - b[1]]
}
fn dot(a: [f64; 2], b: [f64; 2]) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
fn crs(a: [f64; 2], b: [f64; 2]) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
fn len(a: [f64; 2]) -> f64 {
    a[0].hypot(a[1])
}
/// Transformations to very small and very large coordinates, exact in single precision on small lattices.
pub fn extreme_trs() -> Vec<Tr> {
    vec![tr(2f64.powi(-8), 0.0, 0.0), tr(2f64.powi(-12), 0.5, -0.25), tr(2f64.powi(-12), 0.0, 0.0), tr(2f64.powi(-20), 0.0, 0.0), tr(2f64.powi(-33), 0.0, 0.0),
        tr(2f64.powi(12), 0.0, 0.0), tr(2f64.powi(12), -8192.0, 4096.0), tr(2f64.powi(20), 0.0, 0.0), tr(2f64.powi(27), 0.0, 0.0)]
}

/// The largest absolute coordinate.
fn mag0(ps: &[&Vec2]) -> f64 {
    ps.iter().fold(0.0, |m: f64, p| m.max(p.x.abs() as f64).max(p.y.abs() as f64))
}
fn mag(ps: &[&Vec2]) -> f64 {
    ps.iter().fold(1.0, |m, p| m.max(p.x.abs() as f64).max(p.y.abs() as f64))
}
/// Distance of `p` from the closed segment `ab`.
pub fn seg_dist(a: [f64; 2], b: [f64; 2], p: [f64; 2]) -> f64 {
    let d = sub(b, a);
    let l2 = dot(d, d);
    if l2 == 0.0 {
        return len(sub(p, a));
    }
    let t = (dot(sub(p, a), d) / l2).max(0.0).min(1.0);
    len(sub(p, [a[0] + t * d[0], a[1] + t * d[1]]))
}
fn show(ps: &[&Vec2]) -> String {
    ps.iter().map(|p| format!("({:?}, {:?})", p.x, p.y)).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------------------------------------------ C07

fn want_eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{} is {:?}, expected {:?}", what, got, want)) }
}

fn c07_triples(name: &str, pts: Vec<P>, trs: Vec<Tr>) -> Dom {
    let n = pts.len();
    let bound = format!("all ordered triples of {} lattice points x {} exact scales/offsets", n, trs.len());
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for t in &trs {
            for j in 0..n {
                if cx.done() { return; }
                for k in 0..n {
                    let (a, b, c) = (pts[u], pts[j], pts[k]);
                    let (pa, pb, pc) = (t.at(a), t.at(b), t.at(c));
                    let o = orient(a, b, c);
                    let want = (t.s * t.s * o as f64) as f32;
                    cx.case(|| show(&[&pa, &pb, &pc]), || {
                        want_eq("area2", pg::area2(&pa, &pb, &pc), want)?;
                        want_eq("left", pg::left(&pa, &pb, &pc), o > 0)?;
                        want_eq("left_on", pg::left_on(&pa, &pb, &pc), o >= 0)?;
                        want_eq("collinear", pg::collinear(&pa, &pb, &pc), o == 0)?;
                        if a != b {
                            want_eq("between", pg::between(&pa, &pb, &pc), on_closed(a, b, c))?;
                        }
                        Ok(if a == b || b == c || a == c { "-coinciding points" } else if o > 0 { "left" } else if o < 0 { "right" }
                            else if on_closed(a, b, c) { "between" } else { "collinear outside" })
                    });
                }
            }
        }
    })
}

fn c07_quads(name: &str, pts: Vec<P>, trs: Vec<Tr>) -> Dom {
    let n = pts.len();
    let bound = format!("all ordered pairs of segments with distinct ends over {} lattice points x {} exact scales/offsets", n, trs.len());
    dom(name, &bound, n * n, move |u, cx: &mut Cx| {
        let (a, b) = (pts[u / n], pts[u % n]);
        if a == b { return; }
        for t in &trs {
            if cx.done() { return; }
            let (pa, pb) = (t.at(a), t.at(b));
            for &c in &pts {
                for &d in &pts {
                    if c == d { continue; }
                    let (pc, pd) = (t.at(c), t.at(d));
                    let (pr, me) = (proper(a, b, c, d), meet(a, b, c, d));
                    cx.case(|| show(&[&pa, &pb, &pc, &pd]), || {
                        want_eq("intersect_prop", pg::intersect_prop(&pa, &pb, &pc, &pd), pr)?;
                        want_eq("intersect", pg::intersect(&pa, &pb, &pc, &pd), me)?;
                        Ok(if pr { "proper crossing" } else if !me { if orient(a, b, c) == 0 && orient(a, b, d) == 0 { "collinear disjoint" } else { "disjoint" } }
                            else if orient(a, b, c) == 0 && orient(a, b, d) == 0 { "collinear contact" }
                            else if a == c || a == d || b == c || b == d { "shared endpoint" } else { "T contact" })
                    });
                }
            }
        }
    })
}

/// Zero has two signs, which are the same coordinate.
fn signed(p: P, mask: usize) -> Vec2 {
    let z = |c: i64, m: usize| if c == 0 && mask & m != 0 { -0.0 } else { c as f32 };
    Vec2::new(z(p.0, 1), z(p.1, 2))
}

/// All variants of a lattice point in the sign of its zeros.
fn signed_all(p: P) -> Vec<Vec2> {
    (0..4).filter(|m| (p.0 == 0 || m & 1 == 0) && (p.1 == 0 || m & 2 == 0)).map(|m| signed(p, m)).collect()
}

fn c07_zeros(name: &str, pts: Vec<P>) -> Dom {
    let all: Vec<(P, Vec2)> = pts.iter().flat_map(|&p| signed_all(p).into_iter().map(move |v| (p, v))).collect();
    let n = all.len();
    let bound = format!("all triples and all pairs of segments over {} points, zero coordinates with either sign", n);
    dom(name, &bound, n * n, move |u, cx: &mut Cx| {
        let ((a, pa), (b, pb)) = (all[u / n], all[u % n]);
        if a == b { return; }
        for &(c, pc) in &all {
            let o = orient(a, b, c);
            cx.case(|| show(&[&pa, &pb, &pc]), || {
                want_eq("area2", pg::area2(&pa, &pb, &pc), o as f32)?;
                want_eq("left", pg::left(&pa, &pb, &pc), o > 0)?;
                want_eq("left_on", pg::left_on(&pa, &pb, &pc), o >= 0)?;
                want_eq("collinear", pg::collinear(&pa, &pb, &pc), o == 0)?;
                want_eq("between", pg::between(&pa, &pb, &pc), on_closed(a, b, c))?;
                Ok(if o != 0 { "not collinear" } else { "collinear" })
            });
            for &(d, pd) in &all {
                if c == d { continue; }
                let (pr, me) = (proper(a, b, c, d), meet(a, b, c, d));
                cx.case(|| show(&[&pa, &pb, &pc, &pd]), || {
                    want_eq("intersect_prop", pg::intersect_prop(&pa, &pb, &pc, &pd), pr)?;
                    want_eq("intersect", pg::intersect(&pa, &pb, &pc, &pd), me)?;
                    Ok(if pr { "proper crossing" } else if me { "contact" } else { "disjoint" })
                });
            }
        }
    })
}

/// Lattice points with far and near coordinates whose arithmetic is exact in f32.
pub fn wide(c: &[i64]) -> Vec<P> {
    let mut v = vec![];
    for &x in c {
        for &y in c {
            v.push((x, y));
        }
    }
    v
}

pub fn c07(tier: Tier) -> Plan {
    let mut doms = vec![
        c07_triples("triples 5x5", grid(5, 5), exact_trs()),
        c07_triples("triples 4x4 extreme scales", grid(4, 4), extreme_trs()),
        c07_quads("segments 4x4 extreme scales", grid(4, 4), extreme_trs()),
        c07_quads("segments 3x3 extreme scales, mirrored", grid(3, 3), extreme_trs().into_iter().map(|t| tr(-t.s, t.ox, t.oy)).collect()),
        c07_triples("triples wide", wide(&[-1400, -1399, -3, 0, 1, 7, 1399, 1400]), vec![tr(1.0, 0.0, 0.0), tr(0.25, 0.0, 0.0)]),
        c07_quads("segments 4x4", grid(4, 4), exact_trs()),
        c07_quads("segments 5x5", grid(5, 5), vec![tr(1.0, 0.0, 0.0), tr(0.125, -0.25, 0.5)]),
        c07_quads("segments 7x2", grid(7, 2), vec![tr(1.0, 0.0, 0.0), tr(64.0, 128.0, -64.0)]),
        c07_quads("segments wide", wide(&[-1400, 0, 1, 1400]), vec![tr(1.0, 0.0, 0.0)]),
        c07_zeros("both signs of zero", wide(&[-1, 0, 2])),
    ];
    {
        doms.push(c07_triples("triples 8x8", grid(8, 8), exact_trs()));
        doms.push(c07_quads("segments 6x6", grid(6, 6), exact_trs()));
        doms.push(c07_quads("segments 7x7", grid(7, 7), vec![tr(1.0, 0.0, 0.0), tr(64.0, 128.0, -64.0)]));
        doms.push(c07_quads("segments wide 6", wide(&[-1400, -1399, 0, 1, 700, 1400]), vec![tr(1.0, 0.0, 0.0), tr(0.5, 0.0, 0.0)]));
    }
    if tier == Tier::Thorough {
        doms.push(c07_triples("triples 16x16", grid(16, 16), exact_trs()));
        doms.push(c07_triples("triples wide 16", wide(&[-1400, -1399, -1398, -701, -700, -64, -3, -1, 0, 1, 2, 7, 63, 700, 1399, 1400]), vec![tr(1.0, 0.0, 0.0), tr(0.25, 0.0, 0.0)]));
        doms.push(c07_quads("segments 8x8", grid(8, 8), exact_trs()));
        doms.push(c07_quads("segments 10x10", grid(10, 10), vec![tr(1.0, 0.0, 0.0), tr(0.125, -0.25, 0.5)]));
        doms.push(c07_quads("segments 12x12", grid(12, 12), vec![tr(1.0, -6.0, -5.0)]));
        doms.push(c07_quads("segments 6x6 extreme scales", grid(6, 6), extreme_trs()));
        doms.push(c07_quads("segments 40x3", grid(40, 3), vec![tr(1.0, -7.0, 100.0)]));
        doms.push(c07_quads("segments wide 10", wide(&[-1400, -1399, -701, -2, 0, 1, 2, 700, 1399, 1400]), vec![tr(1.0, 0.0, 0.0), tr(0.5, 0.0, 0.0)]));
    }
    Plan {
        level: "exploration",
        rule: "every tuple of lattice points in the stated grid and transformations; non-trivial when the points are pairwise distinct (triples) or the segments have distinct ends",
        assumptions: vec!["coordinates are chosen so that f32 arithmetic on differences and their products is exact"],
        doms,
    }
}

// ------------------------------------------------------------------------------------------------------ C11

fn c11_dom(name: &str, pts: Vec<P>, trs: Vec<Tr>, exact: bool) -> Dom {
    let n = pts.len();
    let bound = format!("all ordered pairs of segments / lines with distinct defining points over {} lattice points x {} transformations", n, trs.len());
    dom(name, &bound, n * n, move |u, cx: &mut Cx| {
        let (a, b) = (pts[u / n], pts[u % n]);
        if a == b { return; }
        for t in &trs {
            if cx.done() { return; }
            let (pa, pb) = (t.at(a), t.at(b));
            for &c in &pts {
                for &d in &pts {
                    if c == d { continue; }
                    let (pc, pd) = (t.at(c), t.at(d));
                    let par = (b.0 - a.0) * (d.1 - c.1) == (b.1 - a.1) * (d.0 - c.0);
                    cx.case(|| show(&[&pa, &pb, &pc, &pd]), || c11_case((a, b, c, d), (&pa, &pb, &pc, &pd), par, exact));
                }
            }
        }
    })
}

fn c11_case(l: (P, P, P, P), p: (&Vec2, &Vec2, &Vec2, &Vec2), par: bool, exact: bool) -> Result<Class, String> {
    let (a, b, c, d) = l;
    let (qa, qb, qc, qd) = (v64(p.0), v64(p.1), v64(p.2), v64(p.3));
    let m = mag0(&[p.0, p.1, p.2, p.3]);
    let seg = ut::calculate_line_segment_intersection(p.0, p.1, p.2, p.3);
    let line = ut::calculate_line_intersection(p.0, p.1, p.2, p.3);
    if par {
        if let Some(x) = seg {
            let (x, w) = (v64(&x), 1e-5 * m);
            if !(seg_dist(qa, qb, x) <= w && seg_dist(qc, qd, x) <= w) {
                return Err(format!("segment intersection of parallel segments is {:?}, which is not on both", x));
            }
            if exact && !meet(a, b, c, d) {
                return Err(format!("segment intersection of disjoint parallel segments is {:?}", x));
            }
        }
        if exact {
            if let Some(x) = line {
                return Err(format!("intersection of parallel lines is {:?}", v64(&x)));
            }
        }
        return Ok(if meet(a, b, c, d) { "parallel overlapping" } else { "parallel disjoint" });
    }
    let (ab, cd, ac) = (sub(qb, qa), sub(qd, qc), sub(qc, qa));
    let den = crs(ab, cd);
    let (t, s) = (crs(ac, cd) / den, crs(ac, ab) / den);
    let x = [qa[0] + t * ab[0], qa[1] + t * ab[1]];
    // f32 evaluation error of numerator / denominator, relative to the operands
    let slack = if exact { 0.0 } else { 32.0 * EPS * (len(ab) * len(cd) + (len(ab) + len(cd)) * len(ac)) / den.abs() };
    let tol = 8.0 * EPS * (m + t.abs() * len(ab)) + 2.0 * slack * len(ab);
    let shared = a == c || a == d || b == c || b == d;
    let must = if exact || shared { Some(meet(a, b, c, d)) }
        else if meet(a, b, c, d) && !proper(a, b, c, d) { None }
        else { Some(proper(a, b, c, d)) };
    match (must, &seg) {
        (Some(true), None) => return Err(format!("no segment intersection, the segments meet in {:?}", x)),
        (Some(false), Some(y)) => return Err(format!("segment intersection {:?}, but the segments do not meet", v64(y))),
        _ => {}
    }
    if let Some(y) = &seg {
        if !(len(sub(v64(y), x)) <= tol) {
            return Err(format!("segment intersection is {:?}, expected {:?}", v64(y), x));
        }
    }
    match &line {
        None => return Err(format!("no intersection of the lines, which meet in {:?}", x)),
        Some(y) => {
            if !(len(sub(v64(y), x)) <= tol) {
                return Err(format!("intersection of the lines is {:?}, expected {:?}", v64(y), x));
            }
        }
    }
    Ok(match must {
        None => "-contact within rounding",
        Some(true) => if shared { "shared endpoint" } else if proper(a, b, c, d) { "crossing" } else { "T contact" },
        Some(false) => "only the lines meet",
    })
}

pub fn c11(tier: Tier) -> Plan {
    let mut doms = vec![
        c11_dom("exact 4x4", grid(4, 4), exact_trs(), true),
        c11_dom("exact 5x5", grid(5, 5), vec![tr(1.0, 0.0, 0.0), tr(16.0, -40.0, 8.0)], true),
        c11_dom("rounded 4x4", grid(4, 4), rounded_trs(), false),
        c11_dom("exact small 4x4", grid(4, 4), vec![tr(1.0 / 4096.0, 0.0, 0.0), tr(1.0 / 2048.0, -0.5, 0.25)], true),
        c11_dom("exact 4x4 extreme scales", grid(4, 4), extreme_trs(), true),
        c11_dom("rounded 4x4 small and large", grid(4, 4), vec![tr(1e-3, 0.0, 0.0), tr(0.013, 0.7, -0.3), tr(3333.3, 101.1, -77.7)], false),
        c11_dom("exact wide", wide(&[-1400, 0, 1, 1400]), vec![tr(1.0, 0.0, 0.0)], true),
    ];
    {
        doms.push(c11_dom("exact 6x6", grid(6, 6), exact_trs(), true));
        doms.push(c11_dom("exact 7x7", grid(7, 7), vec![tr(1.0, 0.0, 0.0)], true));
        doms.push(c11_dom("rounded 6x6", grid(6, 6), rounded_trs(), false));
        doms.push(c11_dom("exact wide 6", wide(&[-1400, -700, 0, 1, 699, 1400]), vec![tr(1.0, 0.0, 0.0), tr(0.25, 0.0, 0.0)], true));
    }
    if tier == Tier::Thorough {
        doms.push(c11_dom("exact 8x8", grid(8, 8), exact_trs(), true));
        doms.push(c11_dom("exact 10x10", grid(10, 10), vec![tr(1.0, 0.0, 0.0), tr(16.0, -40.0, 8.0)], true));
        doms.push(c11_dom("rounded 8x8", grid(8, 8), rounded_trs(), false));
        doms.push(c11_dom("exact 6x6 extreme scales", grid(6, 6), extreme_trs(), true));
        doms.push(c11_dom("exact wide 10", wide(&[-1400, -1399, -701, -2, 0, 1, 2, 700, 1399, 1400]), vec![tr(1.0, 0.0, 0.0), tr(0.25, 0.0, 0.0)], true));
        doms.push(c11_dom("exact 40x3", grid(40, 3), vec![tr(1.0, -7.0, 100.0)], true));
    }
    Plan {
        level: "exploration",
        rule: "every pair of segments (and the lines through them) over the stated lattice points and transformations; all pairs are non-trivial except those whose contact is within rounding (no verdict demanded)",
        assumptions: vec!["existence of the point is decided exactly where f32 arithmetic on the inputs is exact or an endpoint is shared, and with a rounding margin otherwise", "segments of zero length are not part of the property"],
        doms,
    }
}

// ------------------------------------------------------------------------------------------------------ C12

fn c12_dom(name: &str, pts: Vec<P>, trs: Vec<Tr>, exact: bool) -> Dom {
    let n = pts.len();
    let bound = format!("all ordered triples of {} lattice points x {} transformations", n, trs.len());
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for t in &trs {
            for j in 0..n {
                if cx.done() { return; }
                for k in 0..n {
                    let (a, b, c) = (pts[u], pts[j], pts[k]);
                    let (pa, pb, pc) = (t.at(a), t.at(b), t.at(c));
                    cx.case(|| show(&[&pa, &pb, &pc]), || {
                        let flat = orient(a, b, c) == 0;
                        let deg = ut::is_degenerate_triangle(&pa, &pb, &pc);
                        let inc = ut::calculate_triangle_incenter(&pa, &pb, &pc);
                        if exact || !flat || a == b || b == c || a == c {
                            want_eq("degenerate", deg, flat)?;
                            want_eq("incircle exists", inc.is_some(), !flat)?;
                        } else {
                            // three points that would be collinear but for the rounding of their coordinates
                            want_eq("incircle exists", inc.is_some(), !deg)?;
                            return Ok("-collinear within rounding");
                        }
                        if flat {
                            return Ok(if a == b || b == c || a == c { "coinciding corners" } else { "collinear corners" });
                        }
                        let (ctr, r) = inc.unwrap();
                        let (q, r) = (v64(&ctr), r as f64);
                        let v = [v64(&pa), v64(&pb), v64(&pc)];
                        let (sa, sb, sc) = (len(sub(v[1], v[2])), len(sub(v[0], v[2])), len(sub(v[0], v[1])));
                        let ar2 = crs(sub(v[1], v[0]), sub(v[2], v[0]));
                        let wr = ar2.abs() / (sa + sb + sc);
                        let m = mag0(&[&pa, &pb, &pc]);
                        let tol = 16.0 * EPS * m;
                        if !((r - wr).abs() <= tol.min(1e-3 * wr) || (r - wr).abs() <= 1e-5 * wr) {
                            return Err(format!("inradius is {}, expected {}", r, wr));
                        }
                        for i in 0..3 {
                            let (x, y) = (v[i], v[(i + 1) % 3]);
                            let d = crs(sub(y, x), sub(q, x)) / len(sub(y, x)) * ar2.signum();
                            if !((d - wr).abs() <= tol) {
                                return Err(format!("the incentre {:?} has signed distance {} from side {}, expected {}", q, d, i, wr));
                            }
                        }
                        Ok("proper triangle")
                    });
                }
            }
        }
    })
}

pub fn c12(tier: Tier) -> Plan {
    let one = vec![tr(1.0, 0.0, 0.0)];
    let mut doms = vec![
        c12_dom("exact 5x5", grid(5, 5), exact_trs(), true),
        c12_dom("exact 5x5 extreme scales", grid(5, 5), extreme_trs(), true),
        c12_dom("rounded 5x5 small and large", grid(5, 5), vec![tr(1e-3, 0.0, 0.0), tr(0.013, 0.7, -0.3), tr(3333.3, 101.1, -77.7)], false),
        c12_dom("exact 12x4", grid(12, 4), one.clone(), true),
        c12_dom("rounded 5x5", grid(5, 5), rounded_trs(), false),
        c12_dom("exact, thin and large", wide(&[0, 4095, 4096, 4097, 8191]), one.clone(), true),
        c12_dom("exact, very thin and very large", wide(&[-5000001, 0, 1, 5000000, 5000001]), one.clone(), true),
        c12_dom("exact wide", wide(&[-1400, -3, 0, 1, 13, 1400]), one.clone(), true),
    ];
    {
        doms.push(c12_dom("exact 11x11", grid(11, 11), vec![tr(1.0, -5.0, -5.0), tr(0.0625, 0.0, 0.0)], true));
        doms.push(c12_dom("exact 9x9", grid(9, 9), exact_trs(), true));
        doms.push(c12_dom("rounded 9x9", grid(9, 9), rounded_trs(), false));
        doms.push(c12_dom("exact wide 10", wide(&[-1400, -1399, -64, -3, 0, 1, 13, 100, 700, 1400]), one.clone(), true));
    }
    if tier == Tier::Thorough {
        doms.push(c12_dom("exact 16x16", grid(16, 16), exact_trs(), true));
        doms.push(c12_dom("rounded 16x16", grid(16, 16), rounded_trs(), false));
        doms.push(c12_dom("exact 12x12 extreme scales", grid(12, 12), extreme_trs(), true));
        doms.push(c12_dom("exact 100x3", grid(100, 3), exact_trs(), true));
        doms.push(c12_dom("exact wide 20", wide(&[-1400, -1399, -1000, -701, -300, -64, -13, -3, -1, 0, 1, 2, 13, 100, 333, 700, 999, 1398, 1399, 1400]), one.clone(), true));
    }
    Plan {
        level: "exploration",
        rule: "every ordered triple of the stated lattice points under the stated transformations; every triple is non-trivial except those that are collinear only up to the rounding of their coordinates",
        assumptions: vec!["degeneracy is demanded exactly where the coordinates are exactly representable"],
        doms,
    }
}

// ------------------------------------------------------------------------------------------------------ C13

fn c13_segments(name: &str, pts: Vec<P>, trs: Vec<Tr>) -> Dom {
    let n = pts.len();
    let bound = format!("all segments over {} lattice points x {} transformations x 5 offsets x all third points", n, trs.len());
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for t in &trs {
            if cx.done() { return; }
            for j in 0..n {
                if j == u { continue; }
                let (pa, pb) = (t.at(pts[u]), t.at(pts[j]));
                let (a, b) = (v64(&pa), v64(&pb));
                let l = len(sub(b, a));
                let m = mag0(&[&pa, &pb]);
                let mid = [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0];
                cx.case(|| format!("midpoint of {}", show(&[&pa, &pb])), || {
                    let q = v64(&ut::calculate_midpoint(&pa, &pb));
                    if !(len(sub(q, mid)) <= 4.0 * EPS * m) { return Err(format!("midpoint is {:?}, expected {:?}", q, mid)); }
                    Ok("midpoint")
                });
                for &off in &[1.0f32, 0.5, 25.0, 300.0, -2.0] {
                    cx.case(|| format!("perpendicular bisector of {} with offset {}", show(&[&pa, &pb]), off), || {
                        let (q, r) = ut::calculate_perpendicular_bisector(&pa, &pb, off);
                        let (q, r) = (v64(&q), v64(&r));
                        if !(len(sub(q, mid)) <= 4.0 * EPS * m) { return Err(format!("its midpoint is {:?}, expected {:?}", q, mid)); }
                        let o = off.abs() as f64;
                        let tol = 16.0 * EPS * (m + o);
                        let d = sub(r, mid);
                        if !((len(d) - o).abs() <= tol) { return Err(format!("the second point {:?} is {} from the midpoint, expected {}", r, len(d), o)); }
                        // component along the segment
                        let along = dot(d, sub(b, a)) / l;
                        if !(along.abs() <= tol + 8.0 * EPS * m * o / l) { return Err(format!("the second point {:?} is not equally far from both ends (off by {} along the segment)", r, along)); }
                        Ok(if a[0] == b[0] { "vertical segment" } else if a[1] == b[1] { "horizontal segment" } else { "slanted segment" })
                    });
                }
                for k in 0..n {
                    let pp = t.at(pts[k]);
                    cx.case(|| format!("perpendicular foot on {} from {}", show(&[&pa, &pb]), show(&[&pp])), || {
                        let p = v64(&pp);
                        let f = v64(&ut::calculate_perpendicular_point(&pa, &pb, &pp));
                        let m3 = mag0(&[&pa, &pb, &pp]);
                        let tol = 32.0 * EPS * (m3 + len(sub(p, a)) * (1.0 + m3 * 0.0));
                        let off_line = crs(sub(b, a), sub(f, a)) / l;
                        if !(off_line.abs() <= tol) { return Err(format!("the foot {:?} is {} off the line", f, off_line)); }
                        let along = dot(sub(b, a), sub(p, f)) / l;
                        if !(along.abs() <= tol) { return Err(format!("the connection from the foot {:?} is not perpendicular (off by {})", f, along)); }
                        Ok(if orient(pts[u], pts[j], pts[k]) == 0 { "point on the line" } else { "point off the line" })
                    });
                }
            }
        }
    })
}

fn c13_parallel(name: &str, pts: Vec<P>, trs: Vec<Tr>) -> Dom {
    let n = pts.len();
    let bound = format!("all ordered pairs of segments over {} lattice points x {} transformations", n, trs.len());
    dom(name, &bound, n * n, move |u, cx: &mut Cx| {
        let (a, b) = (pts[u / n], pts[u % n]);
        if a == b { return; }
        for t in &trs {
            if cx.done() { return; }
            let (pa, pb) = (t.at(a), t.at(b));
            for &c in &pts {
                for &d in &pts {
                    if c == d { continue; }
                    let (pc, pd) = (t.at(c), t.at(d));
                    cx.case(|| show(&[&pa, &pb, &pc, &pd]), || {
                        let (x, y) = (sub(v64(&pb), v64(&pa)), sub(v64(&pd), v64(&pc)));
                        let got = ut::parallel(&pa, &pb, &pc, &pd);
                        let par = (b.0 - a.0) * (d.1 - c.1) == (b.1 - a.1) * (d.0 - c.0);
                        let ang = crs(x, y).abs().atan2(dot(x, y).abs());
                        if par && ang < 1e-4 {
                            want_eq("parallel", got, true)?;
                            return Ok(if dot(x, y) > 0.0 { "equal directions" } else { "opposite directions" });
                        }
                        if ang > 0.01 {
                            want_eq("parallel", got, false)?;
                            return Ok(if ang > 1.57 { "perpendicular" } else { "oblique" });
                        }
                        Ok("-nearly parallel")
                    });
                }
            }
        }
    })
}

/// Pairs of directions that differ by a given angle.
fn c13_fan(name: &str, angles: Vec<f64>, turns: usize) -> Dom {
    let bound = format!("{} base directions x {} angles to either side x 3 x 3 lengths x both orientations", turns, angles.len());
    dom(name, &bound, turns, move |u, cx: &mut Cx| {
        let th = u as f64 * std::f64::consts::PI * 2.0 / turns as f64;
        for &g in &angles {
            for &sg in &[1.0, -1.0] {
                for &l in &[0.5, 7.0, 300.0] {
                    for &k in &[0.25, 10.0, -500.0] {
                        if cx.done() { return; }
                        let at = |x: f64, y: f64| Vec2::new(x as f32, y as f32);
                        let (pa, pb) = (at(0.0, 0.0), at(l * th.cos(), l * th.sin()));
                        let ph = th + sg * g;
                        let (pc, pd) = (at(0.25, 0.5), at(0.25 + k * ph.cos(), 0.5 + k * ph.sin()));
                        cx.case(|| show(&[&pa, &pb, &pc, &pd]), || {
                            let (x, y) = (sub(v64(&pb), v64(&pa)), sub(v64(&pd), v64(&pc)));
                            let ang = crs(x, y).abs().atan2(dot(x, y).abs());
                            let got = ut::parallel(&pa, &pb, &pc, &pd);
                            if ang < 1e-5 {
                                want_eq("parallel", got, true)?;
                                return Ok("same direction");
                            }
                            if ang > 0.01 {
                                want_eq("parallel", got, false)?;
                                return Ok("different direction");
                            }
                            Ok("-nearly parallel")
                        });
                    }
                }
            }
        }
    })
}

pub fn c13(tier: Tier) -> Plan {
    let mut trs = exact_trs();
    trs.extend(rounded_trs());
    let mut doms = vec![
        c13_segments("segments 5x5", grid(5, 5), trs.clone()),
        c13_segments("segments wide", wide(&[-1400, -3, 0, 1, 13, 1400]), vec![tr(1.0, 0.0, 0.0), tr(0.1, 0.0, 0.0)]),
        c13_segments("segments 5x5 extreme scales", grid(5, 5), extreme_trs()),
        c13_parallel("directions 4x4 extreme scales", grid(4, 4), extreme_trs()),
        c13_fan("close directions", vec![0.0, 0.0101, 0.0105, 0.012, 0.015, 0.02, 0.03, 0.05, 0.1, 0.3, 0.7, 1.2, 1.55, 1.5707963267948966], 48),
        c13_parallel("directions 4x4", grid(4, 4), trs.clone()),
        c13_parallel("directions 11x2", grid(11, 2), vec![tr(1.0, 0.0, 0.0), tr(33.3, 0.1, 0.2)]),
        c13_parallel("directions wide", wide(&[-1400, -3, 1, 1400]), vec![tr(1.0, 0.0, 0.0)]),
    ];
    {
        doms.push(c13_segments("segments 9x9", grid(9, 9), trs.clone()));
        doms.push(c13_parallel("directions 6x6", grid(6, 6), trs.clone()));
        doms.push(c13_parallel("directions 7x7", grid(7, 7), vec![tr(1.0, 0.0, 0.0)]));
        doms.push(c13_parallel("directions wide 7", wide(&[-1400, -100, -3, 0, 1, 13, 1400]), vec![tr(1.0, 0.0, 0.0)]));
    }
    if tier == Tier::Thorough {
        doms.push(c13_segments("segments 16x16", grid(16, 16), exact_trs()));
        doms.push(c13_segments("segments 16x16 rounded", grid(16, 16), rounded_trs()));
        doms.push(c13_segments("segments 8x8 extreme scales", grid(8, 8), extreme_trs()));
        doms.push(c13_parallel("directions 10x10", grid(10, 10), vec![tr(1.0, 0.0, 0.0), tr(33.3, 0.1, 0.2)]));
        doms.push(c13_fan("close directions, finely", (0..=314).map(|i| if i == 0 { 0.0 } else { 0.0101 + (i - 1) as f64 * 0.005 }).collect(), 720));
    }
    Plan {
        level: "exploration",
        rule: "every segment (with every third point and offset) and every pair of segments over the stated lattice points and transformations; non-trivial except pairs of directions between rounding and 0.01 rad apart, where either answer is allowed",
        assumptions: vec!["segments have distinct ends"],
        doms,
    }
}

// ------------------------------------------------------------------------------------------------------ C14

fn c14_lattice(name: &str, pts: Vec<P>, trs: Vec<Tr>) -> Dom {
    let n = pts.len();
    let bound = format!("all ordered triples of {} lattice points x {} scales/offsets x endpoints in/excluded", n, trs.len());
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for t in &trs {
            for j in 0..n {
                if cx.done() { return; }
                if j == u { continue; }
                for k in 0..n {
                    let (a, b, p) = (pts[u], pts[j], pts[k]);
                    let (pa, pb, pp) = (t.at(a), t.at(b), t.at(p));
                    for &inc in &[false, true] {
                        cx.case(|| format!("segment {} point {} include_endpoints={}", show(&[&pa, &pb]), show(&[&pp]), inc), || {
                            let m = mag(&[&pa, &pb, &pp]);
                            let end = p == a || p == b;
                            let on = on_closed(a, b, p);
                            let got = ut::is_on_line_segment(&pa, &pb, &pp, inc);
                            if !on && seg_dist(v64(&pa), v64(&pb), v64(&pp)) < 1.01e-4 * m { return Ok("-between rounding and 1e-4"); }
                            want_eq("on segment", got, if end { inc } else { on })?;
                            Ok(if end { "endpoint" } else if on { "interior point" } else if orient(a, b, p) == 0 { "beyond an end" } else { "off the line" })
                        });
                    }
                }
            }
        }
    })
}

/// Points computed along a segment in f32 (so that they carry rounding errors), and points displaced from it.
fn c14_along(name: &str, pts: Vec<P>, trs: Vec<Tr>, steps: i64) -> Dom {
    let n = pts.len();
    let bound = format!("all segments over {} points x {} scales/offsets x {} computed points x displacements 0, 1.5e-4, 1e-3, 1e-2 of the scale to either side and past the ends", n, trs.len(), steps - 1);
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for t in &trs {
            for j in 0..n {
                if cx.done() { return; }
                if j == u { continue; }
                let (pa, pb) = (t.at(pts[u]), t.at(pts[j]));
                let (a, b) = (v64(&pa), v64(&pb));
                let l = len(sub(b, a));
                let (dx, dy) = ((b[0] - a[0]) / l, (b[1] - a[1]) / l);
                let m = mag(&[&pa, &pb]);
                for i in 1..steps {
                    let w = i as f32 / steps as f32;
                    for &off in &[0.0f64, 1.5e-4, -1.5e-4, 1e-3, -1e-3, 1e-2, -1e-2] {
                        let base = pa + (pb - pa) * w;
                        let pp = Vec2::new((base.x as f64 - off * m * dy) as f32, (base.y as f64 + off * m * dx) as f32);
                        for &inc in &[false, true] {
                            cx.case(|| format!("segment {} point {} (fraction {}/{}, displaced by {} of the scale) include_endpoints={}", show(&[&pa, &pb]), show(&[&pp]), i, steps, off, inc), || {
                                let got = ut::is_on_line_segment(&pa, &pb, &pp, inc);
                                if l * (i.min(steps - i) as f64) / (steps as f64) < 1e-3 * m { return Ok("-too close to an end"); }
                                want_eq("on segment", got, off == 0.0)?;
                                Ok(if off == 0.0 { "computed interior point" } else { "displaced point" })
                            });
                        }
                    }
                }
                for &past in &[1.5e-4f64, 1e-3, 0.5] {
                    for &(e, sg) in &[(b, 1.0f64), (a, -1.0)] {
                        let pp = Vec2::new((e[0] + sg * past * m * dx) as f32, (e[1] + sg * past * m * dy) as f32);
                        for &inc in &[false, true] {
                            cx.case(|| format!("segment {} point {} (past an end by {} of the scale) include_endpoints={}", show(&[&pa, &pb]), show(&[&pp]), past, inc), || {
                                if seg_dist(a, b, v64(&pp)) < 1.01e-4 * mag(&[&pa, &pb, &pp]) { return Ok("-too close to an end"); }
                                want_eq("on segment", ut::is_on_line_segment(&pa, &pb, &pp, inc), false)?;
                                Ok("past an end")
                            });
                        }
                    }
                }
            }
        }
    })
}

/// Segments with one end far away and points close to the other end: everything is small there except the rounding.
fn c14_lopsided(name: &str, mags: Vec<f64>, angles: usize) -> Dom {
    let near = [(0.0, 0.0), (0.3, -0.2), (-1.0, 1.0), (0.01, 0.7)];
    let fractions = [0.0003, 0.001, 1.0 / 512.0, 1.0 / 300.0, 0.01, 1.0 / 64.0, 0.05, 0.1, 1.0 / 3.0, 0.9];
    let bound = format!("{} near ends x {} distances x {} directions of the far end x {} fractions, exactly on and displaced by 1.5e-4 and 1e-3 of the scale to either side, both orders of the ends", near.len(), mags.len(), angles, fractions.len());
    dom(name, &bound, mags.len() * angles, move |u, cx: &mut Cx| {
        let r = mags[u / angles];
        let th = 2.0 * std::f64::consts::PI * (u % angles) as f64 / angles as f64;
        for &(x, y) in &near {
            if cx.done() { return; }
            let pb = Vec2::new(x as f32, y as f32);
            let pa = Vec2::new((x + r * th.cos()) as f32, (y + r * th.sin()) as f32);
            let (a, b) = (v64(&pa), v64(&pb));
            let m = mag(&[&pa, &pb]);
            let d = sub(a, b);
            let l = len(d);
            for &f in &fractions {
                if l * f < 1.6e-4 * m { continue; }
                for &off in &[0.0f64, 1.5e-4, -1.5e-4, 1e-3, -1e-3] {
                    let pp = Vec2::new((b[0] + f * d[0] - off * m * d[1] / l) as f32, (b[1] + f * d[1] + off * m * d[0] / l) as f32);
                    for &(s, e) in &[(&pa, &pb), (&pb, &pa)] {
                        for &inc in &[false, true] {
                            cx.case(|| format!("segment {} point {} (displaced by {} of the scale) include_endpoints={}", show(&[s, e]), show(&[&pp]), off, inc), || {
                                want_eq("on segment", ut::is_on_line_segment(s, e, &pp, inc), off == 0.0)?;
                                Ok(if off == 0.0 { "near one end" } else { "beside the near part" })
                            });
                        }
                    }
                }
            }
        }
    })
}

fn c14_lines(name: &str, base: Vec<[f64; 3]>, dirs: Vec<[f64; 3]>, ks: Vec<f64>) -> Dom {
    let bound = format!("{} base points x {} directions x {} multiples x displacement 0 and 1.5e-4, 1e-3, 1e-1 of the scale in 4 perpendicular directions", base.len(), dirs.len(), ks.len());
    c14_lines_dom(name, bound, base.into_iter().map(|b| (b, dirs.clone())).collect(), ks)
}

/// From each base point in the direction of each target, which one of the multiples reaches.
fn c14_toward(name: &str, base: Vec<[f64; 3]>, targets: Vec<[f64; 3]>, ks: Vec<f64>) -> Dom {
    let bound = format!("{} base points x {} targets, the direction being 1/k of the way for k in {:?} x all these multiples x displacement 0 and 1.5e-4, 1e-3, 1e-1 of the scale in 4 perpendicular directions", base.len(), targets.len(), ks);
    let lines = base.into_iter().map(|b| {
        let dirs = targets.iter().flat_map(|t| ks.iter().map(move |k| [(t[0] - b[0]) / k, (t[1] - b[1]) / k, (t[2] - b[2]) / k])).collect();
        (b, dirs)
    }).collect();
    c14_lines_dom(name, bound, lines, ks)
}

fn c14_lines_dom(name: &str, bound: String, lines: Vec<([f64; 3], Vec<[f64; 3]>)>, ks: Vec<f64>) -> Dom {
    dom(name, &bound, lines.len(), move |u, cx: &mut Cx| {
        let (b, dirs) = &lines[u];
        let vb = Vector3::new(b[0] as f32, b[1] as f32, b[2] as f32);
        for d in dirs {
            if cx.done() { return; }
            let vd = Vector3::new(d[0] as f32, d[1] as f32, d[2] as f32);
            let e = [vd.a1 as f64, vd.a2 as f64, vd.a3 as f64];
            let l = (e[0] * e[0] + e[1] * e[1] + e[2] * e[2]).sqrt();
            // two unit vectors perpendicular to the direction
            let h = if e[0].abs() <= e[1].abs() && e[0].abs() <= e[2].abs() { [1.0, 0.0, 0.0] } else if e[1].abs() <= e[2].abs() { [0.0, 1.0, 0.0] } else { [0.0, 0.0, 1.0] };
            let cr = |x: [f64; 3], y: [f64; 3]| [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
            let un = |x: [f64; 3]| { let n = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt(); [x[0] / n, x[1] / n, x[2] / n] };
            let p1 = un(cr(e, h));
            let p2 = un(cr(e, p1));
            for &k in &ks {
                // the moved point is computed in f32, as a client would
                let x = vb + vd * (k as f32);
                let xf = [x.a1 as f64, x.a2 as f64, x.a3 as f64];
                let m = xf.iter().chain(b.iter()).fold(1.0f64, |m, c| m.max(c.abs()));
                let line = Line::new(&vb, &vd);
                cx.case(|| format!("line through {:?} along {:?}, point {:?}", b, d, xf), || {
                    want_eq("contains", line.contains(&x), true)?;
                    Ok(if k == 0.0 { "base point" } else { "moved point" })
                });
                for &off in &[1.5e-4f64, 1e-3, 1e-1] {
                    for q in &[p1, p2, [-p1[0], -p1[1], -p1[2]], [-p2[0], -p2[1], -p2[2]]] {
                        let y = [xf[0] + off * m * q[0], xf[1] + off * m * q[1], xf[2] + off * m * q[2]];
                        let vy = Vector3::new(y[0] as f32, y[1] as f32, y[2] as f32);
                        let m2 = y.iter().fold(m, |m, c| m.max(c.abs()));
                        cx.case(|| format!("line through {:?} along {:?}, point {:?} ({} of the scale away)", b, d, y, off), || {
                            if off * m < 1.01e-4 * m2 { return Ok("-within 1e-4 of the scale"); }
                            want_eq("contains", line.contains(&vy), false)?;
                            Ok("displaced point")
                        });
                    }
                }
            }
            let _ = l;
        }
    })
}

fn cube(c: &[f64]) -> Vec<[f64; 3]> {
    let mut v = vec![];
    for &x in c { for &y in c { for &z in c { v.push([x, y, z]); } } }
    v
}

pub fn c14(tier: Tier) -> Plan {
    let trs = vec![tr(1.0, 0.0, 0.0), tr(0.25, 0.0, 0.0), tr(0.1, 0.1, -0.2), tr(1.0, -2.0, -2.0), tr(100.0, 50.0, 50.0), tr(133.7, -250.3, 17.9), tr(-57.31, 411.2, -3.9), tr(16.0, 900.0, -700.0), tr(1111.1, -3000.5, 2500.25), tr(9000.7, -20000.3, 5000.1), tr(300.0, 131072.0, -65536.0)];
    let nonzero = |v: Vec<[f64; 3]>| v.into_iter().filter(|d| d.iter().any(|c| *c != 0.0)).collect::<Vec<_>>();
    let mut dirs = nonzero(cube(&[-1.0, 0.0, 2.0]));
    for s in &[0.01, 0.3, 57.7, 1000.0] { dirs.extend(nonzero(cube(&[-0.7, 0.0, 1.1])).into_iter().map(|d| [d[0] * s, d[1] * s, d[2] * s])); }
    let ks = vec![0.0, 1.0, -1.0, 0.1, 3.7, -12.3];
    let mut doms = vec![
        c14_lattice("lattice 5x5", grid(5, 5), trs.clone()),
        c14_lattice("lattice 13x2", grid(13, 2), trs.clone()),
        c14_along("computed points 4x4", grid(4, 4), trs.clone(), 7),
        c14_lines("lines in space", cube(&[-1.0, 0.0, 0.3, 250.7]), dirs.clone(), ks.clone()),
    ];
    {
        doms.push(c14_lattice("lattice 9x9", grid(9, 9), trs.clone()));
        doms.push(c14_along("computed points 6x6", grid(6, 6), trs.clone(), 13));
        dirs.extend(nonzero(cube(&[-3.3, -0.01, 0.0, 0.5, 100.0])));
        doms.push(c14_lines("lines in space wide", cube(&[-800.1, -1.0, 0.0, 0.1, 33.3]), dirs.clone(), vec![0.0, 1.0, -1.0, 0.1, 0.33, 3.7, 7.0, -12.3, 101.0]));
    }
    for s in &[1e-6, 1e-4, 1e5] {
        let dirs = nonzero(cube(&[-0.7, 0.0, 1.1])).into_iter().map(|d| [d[0] * s, d[1] * s, d[2] * s]).collect();
        doms.push(c14_lines(&format!("lines in space, directions of length {:e}", s), cube(&[-800.1, -1.0, 0.0, 0.1, 33.3]), dirs, vec![0.0, 1.0, 1.0 / s, -0.1 / s, 33.0 / s]));
    }
    doms.push(c14_toward("lines in space from afar", nonzero(cube(&[-3000.1, -700.7, 0.0, 33.3, 1000.3])), cube(&[-1.1, 0.0, 0.3, 2.0]), vec![1.0, -0.7, 3.7, 1000.0]));
    doms.push(c14_lopsided("one end far away", vec![3.0, 20.0, 137.0, 1000.0, 4096.0, 9000.0], 48));
    if tier == Tier::Thorough {
        doms.push(c14_lopsided("one end far away, more", (0..40).map(|k| 1.5 * 1.27f64.powi(k)).collect(), 720));
        doms.push(c14_lattice("lattice 16x16", grid(16, 16), trs.clone()));
        doms.push(c14_lattice("lattice 60x3", grid(60, 3), trs.clone()));
        doms.push(c14_along("computed points 10x10", grid(10, 10), trs.clone(), 17));
    }
    Plan {
        level: "exploration",
        rule: "every triple of lattice points, every computed and displaced point, every line x multiple x displacement in the stated sets; non-trivial except points between rounding and 1e-4 of the scale from the segment, where either answer is allowed",
        assumptions: vec!["the scale of a configuration is the larger of 1 and its largest absolute coordinate; segments have distinct ends"],
        doms,
    }
}

// ------------------------------------------------------------------------------------------------------ C15

fn c15_closest(name: &str, pts: Vec<P>, lens: std::ops::RangeInclusive<usize>, trs: Vec<Tr>) -> Dom {
    let n = pts.len();
    let bound = format!("all targets and all lists of {} to {} of {} points x {} scales/offsets", lens.start(), lens.end(), n, trs.len());
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for t in &trs {
            let target = t.at(pts[u]);
            for l in lens.clone() {
                if cx.done() { return; }
                tuples(l, n, |ix| {
                    let list: Vec<Vec2> = ix.iter().map(|&i| t.at(pts[i])).collect();
                    cx.case(|| format!("closest to {} among {}", show(&[&target]), show(&list.iter().collect::<Vec<_>>())), || {
                        let (i, d) = ut::find_closest_to(&target, &list);
                        if i >= list.len() { return Err(format!("index {} is outside the list", i)); }
                        let ds: Vec<f64> = list.iter().map(|p| len(sub(v64(p), v64(&target)))).collect();
                        let best = ds.iter().cloned().fold(f64::INFINITY, f64::min);
                        let w = 4.0 * EPS * best;
                        if !(ds[i] <= best + w) { return Err(format!("index {} at distance {}, the nearest is at {}", i, ds[i], best)); }
                        if !((d as f64 - ds[i]).abs() <= w) { return Err(format!("distance is {}, expected {}", d, ds[i])); }
                        Ok(if l == 1 { "-single point" } else if best == 0.0 { "target in the list" } else if ds.iter().filter(|x| **x <= best + w).count() > 1 { "tie" } else { "unique nearest" })
                    });
                    true
                });
            }
        }
    })
}

fn up(x: f32, n: i32) -> f32 {
    let mut b = x;
    for _ in 0..n.abs() {
        let bits = b.to_bits() as i32;
        b = if b == 0.0 { f32::from_bits(1) * n.signum() as f32 } else { f32::from_bits((bits + if (b > 0.0) == (n > 0) { 1 } else { -1 }) as u32) };
    }
    b
}

fn c15_close(name: &str, coords: Vec<f32>) -> Dom {
    let n = coords.len();
    let bound = format!("all points over {} coordinates x displacement of each coordinate by 0, +-1 ulp, or 1.5e-4 / 1e-2 of the scale", n);
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for &y in &coords {
            let a = Vec2::new(coords[u], y);
            let m = mag(&[&a]) as f32;
            for kx in -3..=3i32 {
                for ky in -3..=3i32 {
                    let mv = |c: f32, k: i32| match k.abs() { 0 => c, 1 => up(c, k), 2 => c + 1.5e-4 * m * k.signum() as f32, _ => c + 1e-2 * m * k.signum() as f32 };
                    let b = Vec2::new(mv(a.x, kx), mv(a.y, ky));
                    let far = kx.abs() > 1 || ky.abs() > 1;
                    cx.case(|| format!("close_to {}", show(&[&a, &b])), || {
                        want_eq("close_to", ut::close_to(&a, &b), !far)?;
                        want_eq("close_to, swapped", ut::close_to(&b, &a), !far)?;
                        Ok(if kx == 0 && ky == 0 { "same" } else if far { "distinct" } else { "within rounding" })
                    });
                }
            }
        }
    })
}

fn c15_unique(name: &str, pts: Vec<P>, maxlen: usize, trs: Vec<Tr>, jitter: bool) -> Dom {
    let n = pts.len();
    let k = if jitter { 2 * n } else { n };
    let bound = format!("all lists of up to {} of {} points{} x {} scales/offsets", maxlen, n, if jitter { " (each exactly, or one ulp off)" } else { "" }, trs.len());
    dom(name, &bound, trs.len() * (maxlen + 1), move |u, cx: &mut Cx| {
        let t = trs[u / (maxlen + 1)];
        let l = u % (maxlen + 1);
        tuples(l, k, |ix| {
            let list: Vec<Vec2> = ix.iter().map(|&i| {
                let p = t.at(pts[i % n]);
                if i >= n { Vec2::new(up(p.x, 1), up(p.y, -1)) } else { p }
            }).collect();
            cx.case(|| format!("unique points among {}", show(&list.iter().collect::<Vec<_>>())), || {
                let before = list.clone();
                let got = ut::unique_points_among(&list);
                if list != before { return Err("the input list changed".into()); }
                let mut groups = vec![0usize; n];
                for g in &got {
                    match list.iter().position(|p| p == g) {
                        None => return Err(format!("{:?} is not one of the points", v64(g))),
                        Some(i) => groups[ix[i] % n] += 1,
                    }
                }
                for g in 0..n {
                    let want = if ix.iter().any(|&i| i % n == g) { 1 } else { 0 };
                    if groups[g] != want {
                        return Err(format!("{} representatives of {:?}, expected {}; result {:?}", groups[g], v64(&t.at(pts[g])), want, got.iter().map(|p| v64(p)).collect::<Vec<_>>()));
                    }
                }
                Ok(if l < 2 { "-fewer than two points" } else if got.len() == l { "all distinct" } else if got.len() == 1 { "all the same" } else { "some duplicates" })
            });
            !cx.done()
        });
    })
}

/// Long lists: the nearest point, or one pair of duplicates, at every position.
fn c15_long(name: &str, lens: Vec<usize>) -> Dom {
    let bound = format!("lists of {:?} points on a spiral: the nearest at every position; one duplicated point at every pair of positions (in lists of more than 64: the first, the middle and the previous position with every later one)", lens);
    dom(name, &bound, lens.len(), move |u, cx: &mut Cx| {
        let n = lens[u];
        let base: Vec<Vec2> = (0..n).map(|i| {
            let (r, th) = (10.0 + i as f64, i as f64 * 2.4);
            Vec2::new((r * th.cos()) as f32, (r * th.sin()) as f32)
        }).collect();
        for i in 0..n {
            if cx.done() { return; }
            let mut list = base.clone();
            list[i] = Vec2::new(1.0, 2.0);
            cx.case(|| format!("closest to (1, 2.5) in a list of {} with (1, 2) at position {}", n, i), || {
                let (k, d) = ut::find_closest_to(&Vec2::new(1.0, 2.5), &list);
                want_eq("index", k, i)?;
                want_eq("distance", d, 0.5)?;
                Ok("unique nearest")
            });
            cx.case(|| format!("unique points of {} distinct points rotated by {}", n, i), || {
                list.rotate_left(i);
                let mut got = ut::unique_points_among(&list);
                let mut want = list.clone();
                let key = |p: &Vec2, q: &Vec2| (p.x, p.y).partial_cmp(&(q.x, q.y)).unwrap();
                got.sort_by(key);
                want.sort_by(key);
                want_eq("points", got, want)?;
                Ok("all distinct")
            });
            for j in 0..i {
                if n > 64 && j != 0 && j != i / 2 && j != i - 1 { continue; }
                let mut list = base.clone();
                list[i] = list[j];
                cx.case(|| format!("unique points of a list of {} in which {} and {} coincide", n, j, i), || {
                    let got = ut::unique_points_among(&list);
                    want_eq("number of points", got.len(), n - 1)?;
                    for (k, p) in list.iter().enumerate() {
                        want_eq(&format!("representatives of point {}", k), got.iter().filter(|q| *q == p).count(), 1)?;
                    }
                    Ok("some duplicates")
                });
            }
        }
    })
}

fn c15_zeros(name: &str, maxlen: usize) -> Dom {
    let pts: Vec<P> = vec![(0, 0), (1, 0), (0, -2)];
    let all: Vec<(P, Vec2)> = pts.iter().flat_map(|&p| signed_all(p).into_iter().map(move |v| (p, v))).collect();
    let n = all.len();
    let bound = format!("all lists of up to {} of {} points, zero coordinates with either sign", maxlen, n);
    dom(name, &bound, n, move |u, cx: &mut Cx| {
        for l in 0..maxlen {
            if cx.done() { return; }
            tuples(l, n, |ix| {
                let list: Vec<(P, Vec2)> = std::iter::once(u).chain(ix.iter().cloned()).map(|i| all[i]).collect();
                let ps: Vec<Vec2> = list.iter().map(|p| p.1).collect();
                cx.case(|| format!("utilities on {}", show(&ps.iter().collect::<Vec<_>>())), || {
                    let got = ut::unique_points_among(&ps);
                    for p in &pts {
                        let v = signed(*p, 0);
                        let want = if list.iter().any(|q| q.0 == *p) { 1 } else { 0 };
                        want_eq(&format!("representatives of {:?}", p), got.iter().filter(|q| **q == v).count(), want)?;
                    }
                    want_eq("number of points", got.len(), pts.iter().filter(|p| list.iter().any(|q| q.0 == **p)).count())?;
                    for t in &all {
                        let (i, d) = ut::find_closest_to(&t.1, &ps);
                        if i >= ps.len() { return Err(format!("index {} is outside the list", i)); }
                        let ds: Vec<f64> = ps.iter().map(|p| len(sub(v64(p), v64(&t.1)))).collect();
                        let best = ds.iter().cloned().fold(f64::INFINITY, f64::min);
                        if !(ds[i] <= best + 1e-6) || !((d as f64 - best).abs() <= 1e-6) { return Err(format!("nearest to {}: index {}, distance {}, expected distance {}", show(&[&t.1]), i, d, best)); }
                        want_eq("close_to", ut::close_to(&t.1, &ps[0]), t.0 == list[0].0)?;
                    }
                    Ok(if got.len() < list.len() { "some duplicates" } else { "all distinct" })
                });
                true
            });
        }
    })
}

pub fn c15(tier: Tier) -> Plan {
    let trs = vec![tr(1.0, 0.0, 0.0), tr(0.1, -0.3, 0.2), tr(133.7, -250.3, 17.9), tr(-57.31, 411.2, -3.9)];
    let small = vec![tr(1e-3, 0.0, 0.0), tr(2f64.powi(-10), 1.0, -2.0), tr(5e-4, 0.125, 0.3)];
    let p4 = vec![(0, 0), (1, 0), (0, 3), (2, 1)];
    let mut doms = vec![
        c15_closest("nearest among up to 3", grid(3, 3), 1..=3, trs.clone()),
        c15_closest("nearest among up to 6", vec![(0, 0), (4, 0), (1, 3), (2, 2)], 4..=6, trs.clone()),
        c15_closest("nearest among up to 3, extreme scales", grid(3, 3), 1..=3, extreme_trs()),
        c15_closest("nearest among up to 5, extreme scales", vec![(0, 0), (4, 0), (1, 3), (2, 2)], 4..=5, extreme_trs()),
        c15_unique("duplicates, small scale", p4.clone(), 5, small.clone(), false),
        c15_unique("duplicates, large scale", p4.clone(), 5, vec![tr(1e4, 0.0, 0.0), tr(4096.0, -8000.0, 1e4)], true),
        c15_long("long lists", vec![9, 10, 16, 17, 33, 64, 65, 100, 129, 257]),
        c15_close("closeness", vec![-731.3, -100.0, -1.0, -0.3, 0.0, 0.1, 0.75, 1.0, 3.3, 99.9, 512.0, 1000.7]),
        c15_unique("duplicates", p4.clone(), 6, trs.clone(), false),
        c15_unique("duplicates within rounding", vec![(0, 1), (3, 2), (1, 1)], 5, trs.clone(), true),
        c15_zeros("both signs of zero", 4),
        c15_unique("duplicates of the origin", vec![(0, 0), (-1, 0)], 7, vec![tr(1.0, 0.0, 0.0)], false),
    ];
    {
        doms.push(c15_closest("nearest among up to 4", grid(4, 3), 1..=4, trs.clone()));
        doms.push(c15_closest("nearest among up to 8", vec![(0, 0), (4, 0), (1, 3), (2, 2)], 7..=8, trs.clone()));
        doms.push(c15_unique("duplicates, long", p4, 8, trs.clone(), false));
        doms.push(c15_unique("duplicates within rounding, long", vec![(0, 1), (3, 2), (1, 1)], 6, trs.clone(), true));
    }
    if tier == Tier::Thorough {
        doms.push(c15_closest("nearest among up to 5", grid(4, 3), 5..=5, vec![tr(1.0, 0.0, 0.0), tr(133.7, -250.3, 17.9)]));
        doms.push(c15_unique("duplicates, longer", vec![(0, 0), (1, 0), (0, 3)], 12, vec![tr(1.0, 0.0, 0.0), tr(133.7, -250.3, 17.9)], false));
        doms.push(c15_long("very long lists", vec![511, 1000, 1025, 2000]));
    }
    Plan {
        level: "exploration",
        rule: "every list of the stated points, lengths and scales; non-trivial when the list has at least two points",
        assumptions: vec!["which of several equally near points, and which representative of coinciding points, is returned is free, as is the order of unique points", "coinciding up to rounding: at most one unit in the last place per coordinate; distinct: at least 1e-4 of the coordinate scale apart"],
        doms,
    }
}
