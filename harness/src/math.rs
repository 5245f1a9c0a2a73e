//! C16-C23: geometric algebra against an 8-dimensional reference multivector.

use std::fmt::Debug;
use std::ops::{Add, Mul, Neg, Sub};

use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use kami::math::bivector::Bivector3;
use kami::math::blade;
use kami::math::rotor::Rotor3;
use kami::math::space::{Contraction, Exterior, Norm};
use kami::math::trivector::Trivector3;
use kami::math::vector::Vector3;
use num_traits::{Float, One, Zero};

use crate::engine::{dom, Class, Cx, Dom, Plan, Tier};
use crate::util::{all, hash128};

// ---------------------------------------------------------------------------------- reference model: Cl(3,0)

/// Multivector, index = bit mask of basis vectors (1 = e1, 2 = e2, 4 = e3).
type Mv<N> = [N; 8];

pub trait Num: Copy + Add<Output = Self> + Mul<Output = Self> + Sub<Output = Self> + Neg<Output = Self> + Zero + One + PartialEq + Debug + 'static {
    fn f64v(self) -> f64;
    fn from_i(i: i64) -> Self;
    /// Equality of a computed with an expected value, given the sum of magnitudes of the terms involved.
    fn close(self, expected: Self, mag: f64) -> bool;
}
impl Num for i64 {
    fn f64v(self) -> f64 { self as f64 }
    fn from_i(i: i64) -> i64 { i }
    fn close(self, e: i64, _m: f64) -> bool { self == e }
}
impl Num for i32 {
    fn f64v(self) -> f64 { self as f64 }
    fn from_i(i: i64) -> i32 { i as i32 }
    fn close(self, e: i32, _m: f64) -> bool { self == e }
}
impl Num for f64 {
    fn f64v(self) -> f64 { self }
    fn from_i(i: i64) -> f64 { i as f64 }
    fn close(self, e: f64, m: f64) -> bool { (self - e).abs() <= 1e-13 * m }
}
impl Num for f32 {
    fn f64v(self) -> f64 { self as f64 }
    fn from_i(i: i64) -> f32 { i as f32 }
    fn close(self, e: f32, m: f64) -> bool { ((self - e) as f64).abs() <= 1e-6 * m }
}

/// Sign of the product of two basis blades: number of transpositions to sort the factors.
fn blade_sign(a: usize, b: usize) -> i64 {
    let mut swaps = 0;
    let mut x = a >> 1;
    while x != 0 {
        swaps += (x & b).count_ones();
        x >>= 1;
    }
    if swaps % 2 == 0 { 1 } else { -1 }
}

fn gp<N: Num>(a: &Mv<N>, b: &Mv<N>) -> Mv<N> {
    let mut r = [N::zero(); 8];
    for i in 0..8 {
        for j in 0..8 {
            let p = a[i] * b[j];
            r[i ^ j] = if blade_sign(i, j) > 0 { r[i ^ j] + p } else { r[i ^ j] - p };
        }
    }
    r
}

fn mag<N: Num>(a: &Mv<N>, b: &Mv<N>) -> f64 {
    let s = |m: &Mv<N>| m.iter().map(|x| x.f64v().abs()).sum::<f64>();
    s(a) * s(b)
}

fn mv_v<N: Num>(v: &Vector3<N>) -> Mv<N> { let z = N::zero(); [z, v.a1, v.a2, z, v.a3, z, z, z] }
fn mv_b<N: Num>(b: &Bivector3<N>) -> Mv<N> { let z = N::zero(); [z, z, z, b.b1, z, b.b2, b.b3, z] }
fn mv_r<N: Num>(r: &Rotor3<N>) -> Mv<N> { let z = N::zero(); [r.scalar, z, z, r.bivector.b1, z, r.bivector.b2, r.bivector.b3, z] }
fn mv_t<N: Num>(t: N) -> Mv<N> { let z = N::zero(); [z, z, z, z, z, z, z, t] }
fn mv_s<N: Num>(s: N) -> Mv<N> { let z = N::zero(); [s, z, z, z, z, z, z, z] }
fn plus<N: Num>(a: Mv<N>, b: Mv<N>) -> Mv<N> { let mut r = a; for i in 0..8 { r[i] = r[i] + b[i]; } r }

/// The coefficient of a trivector (its only field is private): the struct is a wrapper around one `T`.
fn coef<N: Num>(t: Trivector3<N>) -> N {
    if std::mem::size_of::<Trivector3<N>>() == std::mem::size_of::<N>() {
        unsafe { std::mem::transmute_copy::<Trivector3<N>, N>(&t) }
    } else {
        -(t * Trivector3::new(N::one()))
    }
}

fn v<N: Num>(c: &[N]) -> Vector3<N> { Vector3 { a1: c[0], a2: c[1], a3: c[2] } }
fn b<N: Num>(c: &[N]) -> Bivector3<N> { Bivector3 { b1: c[0], b2: c[1], b3: c[2] } }
fn r<N: Num>(c: &[N]) -> Rotor3<N> { Rotor3 { scalar: c[0], bivector: b(&c[1..4]) } }

fn expect<N: Num>(what: &str, got: Mv<N>, want: Mv<N>, m: f64) -> Result<(), String> {
    for i in 0..8 {
        if !got[i].close(want[i], m) {
            const NAMES: [&str; 8] = ["1", "e1", "e2", "e12", "e3", "e13", "e23", "e123"];
            return Err(format!("{}: component {} is {:?}, Cl(3,0) gives {:?}", what, NAMES[i], got[i], want[i]));
        }
    }
    Ok(())
}

fn nonzero<N: Num>(m: &Mv<N>) -> Class {
    match m.iter().filter(|x| !x.is_zero()).count() { 0 => "-zero", 1 => "one blade", _ => "mixed" }
}

fn c16_dom<N: Num>(name: &str, vecs: Vec<N>, rots: Vec<N>) -> Dom {
    let vs = all(3, &vecs);
    let rs = all(4, &rots);
    let nv = vs.len();
    let bound = format!("components {:?} (vectors, bivectors, trivectors), {:?} (rotors), all pairs of all offered type pairs", vecs, rots);
    dom(name, &bound, nv + rs.len(), move |u, cx| {
        if u < nv {
            let x = &vs[u];
            for y in &vs {
                if cx.done() { return; }
                cx.case(|| format!("vector {:?} * vector {:?}", x, y), || {
                    let (p, q) = (mv_v(&v(x)), mv_v(&v(y)));
                    let w = gp(&p, &q);
                    expect("vector*vector", mv_r(&(v(x) * v(y))), w, mag(&p, &q))?;
                    Ok(nonzero(&w))
                });
                cx.case(|| format!("vector {:?} * bivector {:?}", x, y), || {
                    let (p, q) = (mv_v(&v(x)), mv_b(&b(y)));
                    let w = gp(&p, &q);
                    let (gv, gt) = v(x) * b(y);
                    expect("vector*bivector", plus(mv_v(&gv), mv_t(coef(gt))), w, mag(&p, &q))?;
                    Ok(nonzero(&w))
                });
                cx.case(|| format!("bivector {:?} * bivector {:?}", x, y), || {
                    let (p, q) = (mv_b(&b(x)), mv_b(&b(y)));
                    let w = gp(&p, &q);
                    expect("bivector*bivector", mv_r(&(b(x) * b(y))), w, mag(&p, &q))?;
                    Ok(nonzero(&w))
                });
                if x[1].is_zero() && x[2].is_zero() && y[1].is_zero() && y[2].is_zero() {
                    cx.case(|| format!("trivector {:?} * trivector {:?}", x[0], y[0]), || {
                        let (p, q) = (mv_t(x[0]), mv_t(y[0]));
                        let w = gp(&p, &q);
                        expect("trivector*trivector", mv_s(Trivector3::new(x[0]) * Trivector3::new(y[0])), w, mag(&p, &q))?;
                        Ok(nonzero(&w))
                    });
                }
            }
        } else {
            let x = &rs[u - nv];
            for y in &rs {
                if cx.done() { return; }
                cx.case(|| format!("rotor {:?} * rotor {:?}", x, y), || {
                    let (p, q) = (mv_r(&r(x)), mv_r(&r(y)));
                    let w = gp(&p, &q);
                    expect("rotor*rotor", mv_r(&(r(x) * r(y))), w, mag(&p, &q))?;
                    Ok(nonzero(&w))
                });
            }
            for y in &vs {
                cx.case(|| format!("rotor {:?} * vector {:?}", x, y), || {
                    let (p, q) = (mv_r(&r(x)), mv_v(&v(y)));
                    let w = gp(&p, &q);
                    let (gv, gt) = r(x) * v(y);
                    expect("rotor*vector", plus(mv_v(&gv), mv_t(coef(gt))), w, mag(&p, &q))?;
                    Ok(nonzero(&w))
                });
            }
        }
    })
}

pub fn c16(tier: Tier) -> Plan {
    let mut doms = vec![
        c16_dom::<i64>("i64 small", vec![-2, -1, 0, 1, 3], vec![-2, -1, 0, 1, 3]),
        c16_dom::<i64>("i64 large", vec![-7, 0, 11, 1_000_003], vec![-1001, 0, 1_000_003]),
        c16_dom::<i32>("i32", vec![-2, 0, 1, 5], vec![-1, 0, 4]),
        c16_dom::<f64>("f64", vec![-1.5, -1e-3, 0.0, 0.1, 2.25, 1e3], vec![-1.5, -1e-3, 0.0, 0.1, 1e3]),
        c16_dom::<f64>("f64, components of very different size", vec![-1.0, -1e-9, 0.0, 1e-12, 1e-5, 2.0], vec![-1.0, -1e-9, 0.0, 1e-6]),
        c16_dom::<f32>("f32, components of very different size", vec![-1.0, -1e-5, 0.0, 1e-6, 3e-4, 2.0], vec![-1.0, -1e-5, 0.0, 2e-4]),
        c16_dom::<f32>("f32", vec![-1.5, -1e-3, 0.0, 0.1, 2.25, 1e3], vec![-1.5, 0.0, 0.1, 1e3]),
    ];
    {
        doms.push(c16_dom::<i64>("i64 wide", vec![-5, -3, -2, -1, 0, 1, 2, 3, 4, 7], vec![-3, -2, -1, 0, 1, 2, 5]));
        doms.push(c16_dom::<f64>("f64 wide", vec![-1e6, -2.0, -1e-6, 0.0, 1e-6, 0.3, 7.0, 1e6], vec![-1e4, -2.0, -1e-4, 0.0, 1e-4, 0.3, 1e4]));
    }
    if tier == Tier::Thorough {
        doms.push(c16_dom::<i64>("i64 wider", (-7..=7).collect(), (-4..=4).collect()));
        doms.push(c16_dom::<f64>("f64 wider", vec![-1e6, -1e3, -20.0, -3.0, -1.0, -0.1, -1e-3, -1e-6, 0.0, 1e-6, 1e-3, 0.5, 1.0, 17.0, 1e3, 1e6], vec![-1e4, -2.0, -0.1, -1e-4, 0.0, 1e-4, 0.3, 7.0, 1e4]));
        doms.push(c16_dom::<f32>("f32 wider", vec![-1e4, -20.0, -3.0, -1.0, -0.1, -1e-4, 0.0, 1e-4, 0.5, 1.0, 17.0, 1e4], vec![-1e4, -2.0, -0.1, -1e-4, 0.0, 1e-4, 0.3, 7.0, 1e4]));
    }
    Plan {
        level: "exploration",
        rule: "every pair of operands over the component alphabets, for every pair of types with a product; a case is non-trivial when the product is not zero",
        assumptions: vec!["the basis-blade multiplication rule of the reference (bit masks, transposition counting)"],
        doms,
    }
}

fn c17_pairs<N: Num>(name: &str, alpha: Vec<N>) -> Dom {
    let vs = all(3, &alpha);
    let bound = format!("components {:?}, all pairs", alpha);
    dom(name, &bound, vs.len(), move |u, cx| {
        let x = &vs[u];
        for y in &vs {
            if cx.done() { return; }
            cx.case(|| format!("vectors {:?} and {:?}", x, y), || {
                let (p, q) = (mv_v(&v(x)), mv_v(&v(y)));
                let (w, m) = (gp(&p, &q), mag(&p, &q));
                expect("dot of vectors", mv_s(v(x).dot(v(y))), mv_s(w[0]), m)?;
                expect("dot of vectors, swapped", mv_s(v(y).dot(v(x))), mv_s(w[0]), m)?;
                let want = [N::zero(), N::zero(), N::zero(), w[3], N::zero(), w[5], w[6], N::zero()];
                expect("wedge of vectors", mv_b(&v(x).wedge(v(y))), want, m)?;
                let mut neg = want;
                for c in neg.iter_mut() { *c = -*c; }
                expect("wedge of vectors, swapped", mv_b(&v(y).wedge(v(x))), neg, m)?;
                Ok(if want.iter().all(|c| c.is_zero()) { "-parallel" } else if w[0].is_zero() { "orthogonal" } else { "general" })
            });
            cx.case(|| format!("bivectors {:?} and {:?}", x, y), || {
                let (p, q) = (mv_b(&b(x)), mv_b(&b(y)));
                let (w, m) = (gp(&p, &q), mag(&p, &q));
                expect("dot of bivectors", mv_s(b(x).dot(b(y))), mv_s(w[0]), m)?;
                let want = [N::zero(), N::zero(), N::zero(), w[3], N::zero(), w[5], w[6], N::zero()];
                let got: Bivector3<N> = b(x).wedge(b(y));
                expect("wedge of bivectors", mv_b(&got), want, m)?;
                Ok(if want.iter().all(|c| c.is_zero()) { "-parallel" } else { "general" })
            });
            cx.case(|| format!("bivector {:?} wedge vector {:?}", x, y), || {
                let (p, q) = (mv_b(&b(x)), mv_v(&v(y)));
                let (w, m) = (gp(&p, &q), mag(&p, &q));
                let got: Trivector3<N> = b(x).wedge(v(y));
                expect("wedge of bivector and vector", mv_t(coef(got)), mv_t(w[7]), m)?;
                Ok(if w[7].is_zero() { "-contained" } else { "general" })
            });
            if x[1].is_zero() && x[2].is_zero() && y[1].is_zero() && y[2].is_zero() {
                cx.case(|| format!("trivectors {:?} and {:?}", x[0], y[0]), || {
                    let (p, q) = (mv_t(x[0]), mv_t(y[0]));
                    expect("dot of trivectors", mv_s(Trivector3::new(x[0]).dot(Trivector3::new(y[0]))), gp(&p, &q), mag(&p, &q))?;
                    let z: N = Trivector3::new(x[0]).wedge(Trivector3::new(y[0]));
                    if !z.is_zero() { return Err(format!("wedge of trivectors is {:?}", z)); }
                    Ok("trivectors")
                });
            }
        }
    })
}

fn c17_triples<N: Num>(name: &str, alpha: Vec<N>) -> Dom {
    let vs = all(3, &alpha);
    let bound = format!("components {:?}, all triples of vectors", alpha);
    dom(name, &bound, vs.len(), move |u, cx| {
        let x = &vs[u];
        for y in &vs {
            if cx.done() { return; }
            for z in &vs {
                cx.case(|| format!("wedge of vectors {:?}, {:?}, {:?}", x, y, z), || {
                    let d = x[0] * (y[1] * z[2] - y[2] * z[1]) - x[1] * (y[0] * z[2] - y[2] * z[0]) + x[2] * (y[0] * z[1] - y[1] * z[0]);
                    let s = |c: &[N]| c.iter().map(|q| q.f64v().abs()).sum::<f64>();
                    let m = s(x) * s(y) * s(z);
                    let t: Trivector3<N> = v(x).wedge(v(y)).wedge(v(z));
                    if !coef(t).close(d, m) { return Err(format!("(u^v)^w is {:?}, the determinant is {:?}", t, d)); }
                    let t2: Trivector3<N> = v(y).wedge(v(z)).wedge(v(x));
                    if !coef(t2).close(d, m) { return Err(format!("(v^w)^u is {:?}, the determinant is {:?}", t2, d)); }
                    Ok(if d.is_zero() { "-dependent" } else { "independent" })
                });
            }
        }
    })
}

fn c17_rotors<N: Num>(name: &str, alpha: Vec<N>) -> Dom {
    let rs = all(4, &alpha);
    let bound = format!("components {:?}, all pairs of rotors", alpha);
    dom(name, &bound, rs.len(), move |u, cx| {
        let x = &rs[u];
        for y in &rs {
            if cx.done() { return; }
            cx.case(|| format!("dot of rotors {:?} and {:?}", x, y), || {
                let w = x[0] * y[0] - (x[1] * y[1] + x[2] * y[2] + x[3] * y[3]);
                let m = x.iter().map(|q| q.f64v().abs()).sum::<f64>() * y.iter().map(|q| q.f64v().abs()).sum::<f64>();
                let g = r(x).dot(r(y));
                if !g.close(w, m) || !r(y).dot(r(x)).close(w, m) { return Err(format!("dot is {:?}, expected {:?}", g, w)); }
                Ok(if w.is_zero() { "-zero" } else { "general" })
            });
        }
    })
}

pub fn c17(tier: Tier) -> Plan {
    let mut doms = vec![
        c17_pairs::<i64>("pairs i64", vec![-3, -2, -1, 0, 1, 2, 5]),
        c17_pairs::<f64>("pairs f64", vec![-1.5, -1e-3, 0.0, 0.1, 2.25, 1e3]),
        c17_pairs::<f32>("pairs f32", vec![-1.5, -1e-3, 0.0, 0.1, 2.25, 1e3]),
        c17_pairs::<f64>("pairs f64, components of very different size", vec![-1.0, -1e-9, 0.0, 1e-12, 1e-5, 2.0]),
        c17_pairs::<f32>("pairs f32, components of very different size", vec![-1.0, -1e-5, 0.0, 1e-6, 3e-4, 2.0]),
        c17_triples::<f64>("triples f64, components of very different size", vec![-1.0, 0.0, 1e-9, 1e-5]),
        c17_rotors::<f64>("rotors f64, components of very different size", vec![-1.0, 0.0, 1e-9, 1e-5]),
        c17_pairs::<i64>("pairs i64 large", vec![-100_003, 0, 7, 1_000_003]),
        c17_triples::<i64>("triples i64", vec![-2, -1, 0, 1, 3]),
        c17_triples::<f32>("triples f32", vec![-2.0, 0.0, 0.5, 3.0]),
        c17_rotors::<i64>("rotors i64", vec![-2, -1, 0, 1, 3]),
        c17_rotors::<f32>("rotors f32", vec![-1.5, 0.0, 0.25, 2.0]),
    ];
    {
        doms.push(c17_triples::<i64>("triples i64 wide", vec![-3, -2, -1, 0, 1, 2, 4]));
        doms.push(c17_rotors::<i64>("rotors i64 wide", vec![-5, -2, -1, 0, 1, 3, 4]));
        doms.push(c17_pairs::<f64>("pairs f64 wide", vec![-1e6, -20.0, -3.0, -1.0, -0.1, -1e-6, 0.0, 1e-6, 0.5, 1.0, 17.0, 1e6]));
    }
    if tier == Tier::Thorough {
        doms.push(c17_triples::<i64>("triples i64 wider", (-4..=4).collect()));
        doms.push(c17_triples::<f64>("triples f64 wider", vec![-1e3, -1.0, -1e-3, 0.0, 0.1, 2.0, 500.0]));
        doms.push(c17_pairs::<f64>("pairs f64 wider", vec![-1e6, -1e3, -20.0, -3.0, -1.0, -0.1, -1e-3, -1e-6, 0.0, 1e-6, 1e-3, 0.5, 1.0, 17.0, 1e3, 1e6]));
        doms.push(c17_rotors::<i64>("rotors i64 wider", (-4..=4).collect()));
    }
    Plan {
        level: "exploration",
        rule: "every operand tuple over the component alphabets; non-trivial when the compared part of the product does not vanish",
        assumptions: vec!["the reference product of C16"],
        doms,
    }
}

// -------------------------------------------------------------------------------------------- floating point

pub trait Fl: Num + Float {
    const EPS: f64;
    fn of(x: f64) -> Self;
}
impl Fl for f64 { const EPS: f64 = 2.3e-16; fn of(x: f64) -> f64 { x } }
impl Fl for f32 { const EPS: f64 = 1.2e-7; fn of(x: f64) -> f32 { x as f32 } }

fn f(c: &[impl Fl]) -> Vec<f64> { c.iter().map(|x| x.f64v()).collect() }
fn len(c: &[f64]) -> f64 { c.iter().map(|x| x * x).sum::<f64>().sqrt() }
fn dot3(a: &[f64], b: &[f64]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: &[f64], b: &[f64]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn near(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    if (got - want).abs() <= tol { Ok(()) } else { Err(format!("{} is {:e}, expected {:e} (tolerance {:e})", what, got, want, tol)) }
}
fn nears(what: &str, got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    for (g, w) in got.iter().zip(want) {
        if !((g - w).abs() <= tol) { return Err(format!("{} is {:?}, expected {:?} (tolerance {:e})", what, got, want, tol)); }
    }
    Ok(())
}
fn cv<N: Fl>(x: &Vector3<N>) -> [f64; 3] { [x.a1.f64v(), x.a2.f64v(), x.a3.f64v()] }
fn cb<N: Fl>(x: &Bivector3<N>) -> [f64; 3] { [x.b1.f64v(), x.b2.f64v(), x.b3.f64v()] }
fn cr<N: Fl>(x: &Rotor3<N>) -> [f64; 4] { [x.scalar.f64v(), x.bivector.b1.f64v(), x.bivector.b2.f64v(), x.bivector.b3.f64v()] }
fn mv64(c: &[f64]) -> Mv<f64> { match c.len() { 4 => [c[0], 0., 0., c[1], 0., c[2], c[3], 0.], _ => unreachable!() } }

fn norm_checks(kind: &str, c: &[f64], nsq: f64, n: f64, unit: &[f64], eps: f64) -> Result<(), String> {
    let l = len(c);
    near(&format!("{} squared norm", kind), nsq, l * l, 8.0 * eps * l * l)?;
    near(&format!("{} norm", kind), n, l, 8.0 * eps * l)?;
    if l > 0.0 {
        let want: Vec<f64> = c.iter().map(|x| x / l).collect();
        nears(&format!("normalised {}", kind), unit, &want, 16.0 * eps)?;
    }
    Ok(())
}

fn inverse_checks(kind: &str, x: &Mv<f64>, inv: &Mv<f64>, eps: f64) -> Result<(), String> {
    for (p, q, side) in [(x, inv, "right"), (inv, x, "left")].iter() {
        let g = gp(p, q);
        for i in 0..8 {
            near(&format!("{} times its inverse (on the {}), component {}", kind, side, i), g[i], if i == 0 { 1.0 } else { 0.0 }, 16.0 * eps)?;
        }
    }
    Ok(())
}

fn c18_dom<N: Fl>(name: &str, alpha: Vec<f64>, ralpha: Vec<f64>) -> Dom {
    let vs = all(3, &alpha);
    let rs = all(4, &ralpha);
    let (nv, bound) = (vs.len(), format!("components {:?} (vectors, bivectors, trivectors), {:?} (rotors)", alpha, ralpha));
    let chunk = 64;
    let units = (nv + rs.len() + chunk - 1) / chunk;
    dom(name, &bound, units, move |u, cx| {
        for i in u * chunk..((u + 1) * chunk).min(nv + rs.len()) {
            if cx.done() { return; }
            if i < nv {
                let x: Vec<N> = vs[i].iter().map(|q| N::of(*q)).collect();
                let c = f(&x);
                let zero = len(&c) == 0.0;
                let eps = N::EPS;
                cx.case(|| format!("vector {:?}", x), || {
                    let q = v(&x);
                    norm_checks("vector", &c, q.norm_squared().f64v(), q.norm().f64v(), &cv(&q.normalize()), eps)?;
                    if !zero {
                        let i = cv(&q.inverse());
                        inverse_checks("vector", &mv_v(&v(&c[..])), &mv_v(&v(&i[..])), eps)?;
                    }
                    Ok(if zero { "-zero" } else { "vector" })
                });
                cx.case(|| format!("bivector {:?}", x), || {
                    let q = b(&x);
                    norm_checks("bivector", &c, q.norm_squared().f64v(), q.norm().f64v(), &cb(&q.normalize()), eps)?;
                    if !zero {
                        let i = cb(&q.inverse());
                        inverse_checks("bivector", &mv_b(&b(&c[..])), &mv_b(&b(&i[..])), eps)?;
                    }
                    Ok(if zero { "-zero" } else { "bivector" })
                });
                if c[1] == c[0] && c[2] == c[0] {
                    cx.case(|| format!("trivector {:?}", x[0]), || {
                        let q = Trivector3::new(x[0]);
                        norm_checks("trivector", &c[..1], q.norm_squared().f64v(), q.norm().f64v(), &[coef(q.normalize()).f64v()], eps)?;
                        if !zero {
                            inverse_checks("trivector", &mv_t(c[0]), &mv_t(coef(q.inverse()).f64v()), eps)?;
                        }
                        Ok(if zero { "-zero" } else { "trivector" })
                    });
                }
            } else {
                let x: Vec<N> = rs[i - nv].iter().map(|q| N::of(*q)).collect();
                let c = f(&x);
                cx.case(|| format!("rotor {:?}", x), || {
                    let q = r(&x);
                    norm_checks("rotor", &c, q.norm_squared().f64v(), q.norm().f64v(), &cr(&q.normalize()), N::EPS)?;
                    nears("rotor inverse (reversal)", &cr(&q.inverse()), &[c[0], -c[1], -c[2], -c[3]], 0.0)?;
                    if len(&c) > 0.0 {
                        let un = q.normalize();
                        inverse_checks("unit rotor", &mv64(&cr(&un)), &mv64(&cr(&un.inverse())), N::EPS)?;
                        return Ok("rotor");
                    }
                    Ok("-zero")
                });
            }
        }
    })
}

pub fn c18(tier: Tier) -> Plan {
    let a = vec![-1e3, -31.7, -2.0, -0.5, -1e-3, 0.0, 1e-3, 0.1, 1.0, 3.0, 1e3];
    let ra = vec![-1e3, -2.0, -0.1, -1e-3, 0.0, 1e-3, 0.5, 1.0, 1e3];
    let mut doms = vec![c18_dom::<f64>("f64", a.clone(), ra.clone()), c18_dom::<f32>("f32", a, ra)];
    let sc = |s: f64| -> Vec<f64> { [-2.0, -1.0, -0.3, 0.0, 0.5, 1.0, 3.0].iter().map(|q| q * s).collect() };
    for s in [1e-30, 1e-20, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e4, 1e5, 1e6, 1e8, 1e9, 1e12, 1e15, 1e20, 1e30].iter().cloned() {
        doms.push(c18_dom::<f64>(&format!("f64, scale {:e}", s), sc(s), sc(s)));
        if (1e-15..=1e15).contains(&s) {
            doms.push(c18_dom::<f32>(&format!("f32, scale {:e}", s), sc(s), sc(s)));
        }
    }
    let mixed = vec![-1e12, -1e6, -1.0, -1e-6, -1e-12, 0.0, 1e-12, 1e-6, 0.1, 1.0, 1e6, 1e12];
    doms.push(c18_dom::<f64>("f64, mixed scales", mixed.clone(), mixed.clone()));
    doms.push(c18_dom::<f32>("f32, mixed scales", mixed.clone(), mixed));
    {
        let w: Vec<f64> = vec![-1e3, -333.3, -100.0, -31.7, -10.0, -3.0, -2.0, -1.0, -0.7, -0.5, -0.1, -1e-2, -1e-3, 0.0, 1e-3, 3e-3, 0.01, 0.1, 0.25, 1.0, 1.5, 3.0, 9.0, 27.0, 81.0, 512.0, 1e3];
        let rw = vec![-1e3, -50.0, -2.0, -1.0, -0.1, -1e-3, 0.0, 1e-3, 0.05, 0.5, 1.0, 3.0, 70.0, 1e3];
        doms.push(c18_dom::<f64>("f64 wide", w.clone(), rw.clone()));
        doms.push(c18_dom::<f32>("f32 wide", w, rw));
    }
    if tier == Tier::Thorough {
        // every power of ten from 1e-40 to 1e40 with three mantissas, both signs
        let w: Vec<f64> = (-40..=40).step_by(2).flat_map(|e| [-7.3, -1.0, 1.0, 2.9].iter().map(move |m| m * 10f64.powi(e)).collect::<Vec<_>>()).chain(std::iter::once(0.0)).collect();
        let w32: Vec<f64> = (-14..=14).flat_map(|e| [-7.3, -1.0, 1.0, 2.9].iter().map(move |m| m * 10f64.powi(e)).collect::<Vec<_>>()).chain(std::iter::once(0.0)).collect();
        let r: Vec<f64> = (-39..=39).step_by(6).flat_map(|e| [-3.1, 1.0].iter().map(move |m| m * 10f64.powi(e)).collect::<Vec<_>>()).chain(std::iter::once(0.0)).collect();
        let r32: Vec<f64> = (-14..=14).step_by(2).flat_map(|e| [-3.1, 1.0].iter().map(move |m| m * 10f64.powi(e)).collect::<Vec<_>>()).chain(std::iter::once(0.0)).collect();
        doms.push(c18_dom::<f64>("f64, all magnitudes", w, r));
        doms.push(c18_dom::<f32>("f32, all magnitudes", w32, r32));
    }
    Plan { level: "exploration", rule: "every object over the component alphabets; non-trivial when the object is not zero", assumptions: vec!["tolerances of 8 to 16 units in the last place of the component type"], doms }
}

fn mat_of(q: &[f64; 4]) -> [[f64; 3]; 3] {
    // reference action of a rotor on the basis vectors, by the sandwich in Cl(3,0)
    let rm = mv64(q);
    let rev = mv64(&[q[0], -q[1], -q[2], -q[3]]);
    let mut m = [[0.0; 3]; 3];
    for (j, e) in [1usize, 2, 4].iter().enumerate() {
        let mut x = [0.0; 8];
        x[*e] = 1.0;
        let s = gp(&gp(&rm, &x), &rev);
        for (i, k) in [1usize, 2, 4].iter().enumerate() { m[i][j] = s[*k]; }
    }
    m
}
fn apply(m: &[[f64; 3]; 3], x: &[f64]) -> [f64; 3] { [dot3(&m[0], x), dot3(&m[1], x), dot3(&m[2], x)] }
fn det(m: &[[f64; 3]; 3]) -> f64 { dot3(&m[0], &cross(&m[1], &m[2])) }

fn c19_sandwich<N: Fl>(name: &str, ra: Vec<f64>, va: Vec<f64>) -> Dom {
    let rs = all(4, &ra);
    let vs = all(3, &va);
    let bound = format!("rotor components {:?}, vector components {:?}", ra, va);
    dom(name, &bound, rs.len(), move |u, cx| {
        let x: Vec<N> = rs[u].iter().map(|q| N::of(*q)).collect();
        let c = f(&x);
        let m = mat_of(&[c[0], c[1], c[2], c[3]]);
        let l = len(&c);
        for y in &vs {
            if cx.done() { return; }
            let y: Vec<N> = y.iter().map(|q| N::of(*q)).collect();
            let d = f(&y);
            cx.case(|| format!("rotor {:?} applied to {:?}", x, y), || {
                let got = r(&x).rotate(v(&y));
                nears("rotated vector (sandwich)", &cv(&got), &apply(&m, &d), 64.0 * N::EPS * l * l * len(&d))?;
                if l > 0.0 {
                    let un = r(&x).normalize();
                    let g = cv(&un.rotate(v(&y)));
                    near("length of the vector rotated by the unit rotor", len(&g), len(&d), 64.0 * N::EPS * len(&d))?;
                    nears("rotation by the negated rotor", &cv(&(-un).rotate(v(&y))), &g, 64.0 * N::EPS * len(&d))?;
                    nears("rotation undone by the inverse", &cv(&un.inverse().rotate(un.rotate(v(&y)))), &d, 128.0 * N::EPS * len(&d))?;
                }
                Ok(if len(&d) == 0.0 || l == 0.0 { "-zero" } else if len(&[c[1], c[2], c[3]]) == 0.0 { "identity-like" } else { "rotation" })
            });
        }
    })
}

/// Very short and very long vectors.
fn c19_scales<N: Fl>(name: &str, ra: Vec<f64>, va: Vec<f64>, exps: Vec<i32>) -> Dom {
    let rs: Vec<Vec<f64>> = all(4, &ra).into_iter().filter(|c| len(c) > 0.0).collect();
    let vs = all(3, &va);
    let bound = format!("normalised rotors with components {:?}, vector components {:?} times {} powers of two from 2^{} to 2^{}", ra, va, exps.len(), exps[0], exps[exps.len() - 1]);
    dom(name, &bound, rs.len(), move |u, cx| {
        let x: Vec<N> = rs[u].iter().map(|q| N::of(*q)).collect();
        let un = r(&x).normalize();
        let c = cr(&un);
        let m = mat_of(&[c[0], c[1], c[2], c[3]]);
        for y in &vs {
            for e in &exps {
                if cx.done() { return; }
                let y: Vec<N> = y.iter().map(|q| N::of(*q * 2f64.powi(*e))).collect();
                let d = f(&y);
                cx.case(|| format!("unit rotor {:?} applied to {:?}", un, y), || {
                    let g = cv(&un.rotate(v(&y)));
                    nears("rotated vector (sandwich)", &g, &apply(&m, &d), 64.0 * N::EPS * len(&d))?;
                    near("length of the rotated vector", len(&g), len(&d), 64.0 * N::EPS * len(&d))?;
                    nears("rotation undone by the inverse", &cv(&un.inverse().rotate(un.rotate(v(&y)))), &d, 128.0 * N::EPS * len(&d))?;
                    Ok(if len(&d) == 0.0 { "-zero" } else { "rotation" })
                });
            }
        }
    })
}

/// Long products: every power of a rotor, and every alternating product of two, against the rotation matrices.
fn c19_powers<N: Fl>(name: &str, angles: Vec<f64>, most: usize) -> Dom {
    let planes: Vec<[f64; 3]> = all(3, &[-1.0, 0.0, 0.5]).into_iter().filter(|c| len(c) > 0.0).map(|c| { let l = len(&c); [c[0] / l, c[1] / l, c[2] / l] }).collect();
    let bound = format!("products of 1 to {} factors: {} angles x {} planes, alternating with the rotor of the next plane, multiplied from the left and from the right", most, angles.len(), planes.len());
    let n = planes.len();
    dom(name, &bound, n * angles.len(), move |u, cx| {
        let rot = |k: usize| -> Rotor3<N> {
            let (p, h) = (planes[k % n], 0.5 * angles[u / n]);
            let c: Vec<N> = [h.cos(), -h.sin() * p[0], -h.sin() * p[1], -h.sin() * p[2]].iter().map(|z| N::of(*z)).collect();
            r(&c).normalize()
        };
        for &other in &[u % n, u % n + 1] {
            let (a, b) = (rot(u % n), rot(other));
            let (mut right, mut left) = (a, a);
            let mut m = { let c = cr(&a); mat_of(&[c[0], c[1], c[2], c[3]]) };
            let mut ml = m;
            let mul = |x: &[[f64; 3]; 3], y: &[[f64; 3]; 3]| { let mut w = [[0.0; 3]; 3]; for i in 0..3 { for j in 0..3 { for k in 0..3 { w[i][j] += x[i][k] * y[k][j]; } } } w };
            for k in 2..=most {
                if cx.done() { return; }
                let f = if k % 2 == 0 { b } else { a };
                let fm = { let c = cr(&f); mat_of(&[c[0], c[1], c[2], c[3]]) };
                right = right * f;
                left = f * left;
                m = mul(&m, &fm);
                ml = mul(&fm, &ml);
                let (rr, ll, m, ml) = (right, left, m, ml);
                cx.case(|| format!("alternating product of {} factors {:?}, {:?}", k, a, b), || {
                    for x in &[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.3, -2.0, 1.0]] {
                        let y: Vec<N> = x.iter().map(|q| N::of(*q)).collect();
                        let d = self::f(&y);
                        let tol = 64.0 * k as f64 * N::EPS * len(&d);
                        nears("vector rotated by the product, multiplied from the right", &cv(&rr.rotate(v(&y))), &apply(&m, &d), tol)?;
                        nears("vector rotated by the product, multiplied from the left", &cv(&ll.rotate(v(&y))), &apply(&ml, &d), tol)?;
                    }
                    Ok("product")
                });
            }
        }
    })
}

fn c19_compose<N: Fl>(name: &str, ra: Vec<f64>) -> Dom {
    let rs: Vec<Vec<f64>> = all(4, &ra).into_iter().filter(|c| len(c) > 0.0).collect();
    let bound = format!("all pairs of normalised rotors with components {:?}", ra);
    dom(name, &bound, rs.len(), move |u, cx| {
        let c = |q: &[f64]| -> Rotor3<N> { let x: Vec<N> = q.iter().map(|z| N::of(*z)).collect(); r(&x).normalize() };
        let r1 = c(&rs[u]);
        let probe = [Vector3::new(N::of(1.0), N::of(0.0), N::of(0.0)), Vector3::new(N::of(0.0), N::of(1.0), N::of(0.0)), Vector3::new(N::of(0.0), N::of(0.0), N::of(1.0)), Vector3::new(N::of(2.0), N::of(-3.0), N::of(0.5))];
        for y in &rs {
            if cx.done() { return; }
            let r2 = c(y);
            cx.case(|| format!("unit rotors {:?} and {:?} composed", r1, r2), || {
                let p = r1 * r2;
                let mut cols = [[0.0; 3]; 3];
                for (i, x) in probe.iter().enumerate() {
                    let g = cv(&p.rotate(*x));
                    nears("R1R2 applied vs R2 then R1", &g, &cv(&r1.rotate(r2.rotate(*x))), 128.0 * N::EPS * 4.0)?;
                    if i < 3 { cols[i] = g; }
                }
                near("orientation (determinant) of the composition", det(&cols), 1.0, 512.0 * N::EPS)?;
                for i in 0..3 { for j in 0..3 {
                    near("angle between rotated basis vectors", dot3(&cols[i], &cols[j]), if i == j { 1.0 } else { 0.0 }, 512.0 * N::EPS)?;
                } }
                Ok(if cr(&p)[0].abs() > 1.0 - 1e-6 { "composes to the identity" } else { "general" })
            });
        }
    })
}

/// Explicit-state closure: states are unit rotors reached from the identity by right-multiplication with
/// generators; the reference state is an integer rotation matrix.
fn c19_group<N: Fl>(name: &str, gens: Vec<[f64; 4]>, gmats: Vec<[[i32; 3]; 3]>, expect_states: usize) -> Dom {
    dom(name, "products of quarter/third turns of any length (closed under multiplication)", 1, move |_, cx| {
        let gen: Vec<Rotor3<N>> = gens.iter().map(|g| { let x: Vec<N> = g.iter().map(|z| N::of(*z)).collect(); r(&x).normalize() }).collect();
        let key = |q: &Rotor3<N>| -> u128 { let mut s = vec![]; for c in cr(q).iter() { s.extend_from_slice(&((c * 1000.0).round() as i64).to_le_bytes()); } hash128(&s) };
        let id: Rotor3<N> = Rotor3::identity();
        let mut seen = std::collections::BTreeSet::new();
        seen.insert(key(&id));
        let mut queue = std::collections::VecDeque::new();
        queue.push_back((id, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], vec![]));
        let mut n = 0;
        while let Some((q, m, hist)) = queue.pop_front() {
            n += 1;
            cx.states += 1;
            for (gi, g) in gen.iter().enumerate() {
                if cx.done() { return; }
                let mut h: Vec<usize> = hist.clone();
                h.push(gi);
                let hh = h.clone();
                cx.transitions += 1;
                let r = cx.case_full(move || format!("product of generators {:?}", hh), |_| {
                    let p = q * *g;
                    let gm = &gmats[gi];
                    let mut w = [[0i32; 3]; 3];
                    for i in 0..3 { for j in 0..3 { for k in 0..3 { w[i][j] += m[i][k] * gm[k][j]; } } }
                    let want: Vec<f64> = (0..3).map(|i| (0..3).map(|j| w[i][j] as f64 * [1.0, 2.0, 3.0][j]).sum()).collect();
                    let x = Vector3::new(N::of(1.0), N::of(2.0), N::of(3.0));
                    nears("vector rotated by the product", &cv(&p.rotate(x)), &want, 1e3 * N::EPS)?;
                    // the same rotation applied factor by factor on the real objects
                    let mut y = x;
                    for k in h.iter().rev() { y = gen[*k].rotate(y); }
                    nears("vector rotated factor by factor", &cv(&y), &want, 1e3 * N::EPS)?;
                    Ok(("group element", (p, w)))
                }, false);
                if let Some((p, w)) = r {
                    cx.traces += 1;
                    if seen.insert(key(&p)) {
                        let mut h = hist.clone();
                        h.push(gi);
                        queue.push_back((p, w, h));
                    }
                }
            }
            if n > 4 * expect_states { break; }
        }
        cx.case_full(|| "closure of the rotor group".into(), |_| {
            if n == expect_states { Ok(("closed", ())) } else { Err(format!("the rotors generated number {}, the group has {}", n, expect_states)) }
        }, false);
    })
}

pub fn c19(tier: Tier) -> Plan {
    let va = vec![-3.0, -1.0, 0.0, 0.5, 2.0, 100.0];
    let ra = vec![-2.0, -1.0, -0.5, 0.0, 1.0, 3.0];
    let h = 0.5f64.sqrt();
    // quarter turns in the three coordinate planes: R = cos45 - sin45 B turns first into second basis vector
    let gens = vec![[h, -h, 0.0, 0.0], [h, 0.0, -h, 0.0], [h, 0.0, 0.0, -h]];
    let gm = vec![[[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, -1], [0, 1, 0], [1, 0, 0]], [[1, 0, 0], [0, 0, -1], [0, 1, 0]]];
    let mut doms = vec![
        c19_sandwich::<f64>("sandwich f64", ra.clone(), va.clone()),
        c19_sandwich::<f32>("sandwich f32", ra.clone(), va.clone()),
        c19_compose::<f64>("compose f64", tier.pick(vec![-2.0, -1.0, 0.0, 0.5, 3.0], vec![-2.0, -1.0, -0.3, 0.0, 0.5, 1.0, 3.0])),
        c19_sandwich::<f64>("sandwich f64, components of very different size", vec![-1.0, -1e-9, 0.0, 1e-12, 1e-5, 2.0], vec![-1.0, -1e-9, 0.0, 1e-6, 2.0]),
        c19_sandwich::<f32>("sandwich f32, components of very different size", vec![-1.0, -1e-5, 0.0, 1e-6, 2e-4, 2.0], vec![-1.0, -1e-5, 0.0, 3e-4, 2.0]),
        c19_compose::<f64>("compose f64, components of very different size", vec![-1.0, 0.0, 1e-9, 1e-5]),
        c19_compose::<f32>("compose f32, components of very different size", vec![-1.0, 0.0, 1e-5, 2e-4]),
        c19_compose::<f32>("compose f32", vec![-2.0, 0.0, 0.5, 3.0]),
        c19_scales::<f64>("short and long vectors f64", vec![-1.0, 0.0, 0.01, 2.0], vec![-3.0, 0.0, 0.7, 1.0], (-100..=100).map(|e| 4 * e).collect()),
        c19_scales::<f32>("short and long vectors f32", vec![-1.0, 0.0, 0.01, 2.0], vec![-3.0, 0.0, 0.7, 1.0], (-45..=45).map(|e| 2 * e).collect()),
        c19_powers::<f64>("long products f64", vec![0.001, 0.1, 1.0, 2.0, -2.9, 3.1], tier.pick(300, 5000)),
        c19_powers::<f32>("long products f32", vec![0.001, 0.1, 1.0, 2.0, -2.9, 3.1], tier.pick(300, 2000)),
        c19_group::<f64>("rotor group f64", gens.clone(), gm.clone(), 48),
        c19_group::<f32>("rotor group f32", gens, gm, 48),
    ];
    {
        doms.push(c19_sandwich::<f64>("sandwich f64 wide", vec![-50.0, -2.0, -1.0, -0.5, -0.01, 0.0, 0.3, 1.0, 7.0], vec![-1e3, -3.0, -1.0, -0.01, 0.0, 0.5, 2.0, 10.0, 100.0]));
    }
    if tier == Tier::Thorough {
        doms.push(c19_sandwich::<f64>("sandwich f64 wider", vec![-50.0, -7.0, -2.0, -1.0, -0.5, -0.3, -0.01, 0.0, 0.01, 0.3, 0.7, 1.0, 7.0, 33.0], vec![-1e3, -3.0, -1.0, -0.01, 0.0, 0.5, 2.0, 10.0, 100.0]));
        doms.push(c19_sandwich::<f32>("sandwich f32 wider", vec![-50.0, -2.0, -1.0, -0.5, -0.01, 0.0, 0.3, 1.0, 7.0], vec![-1e3, -3.0, -1.0, -0.01, 0.0, 0.5, 2.0, 10.0, 100.0]));
        doms.push(c19_compose::<f64>("compose f64 wider", vec![-9.0, -2.0, -1.0, -0.3, 0.0, 0.1, 0.5, 1.0, 3.0]));
        doms.push(c19_compose::<f32>("compose f32 wider", vec![-9.0, -2.0, -1.0, -0.3, 0.0, 0.5, 1.0, 3.0]));
    }
    Plan { level: "exploration", rule: "every rotor and vector over the alphabets, every pair of unit rotors, and the closure of the rotor group generated by quarter turns (explicit-state search against integer rotation matrices); non-trivial when neither operand is zero", assumptions: vec!["the reference sandwich product of C16"], doms }
}

fn c20_vectors<N: Fl>(name: &str, alpha: Vec<f64>) -> Dom {
    let vs: Vec<Vec<f64>> = all(3, &alpha).into_iter().filter(|c| len(c) > 0.0).collect();
    let bound = format!("all pairs of non-zero vectors with components {:?}, not within 0.03 rad of opposite", alpha);
    dom(name, &bound, vs.len(), move |k, cx| {
        let x: Vec<N> = vs[k].iter().map(|q| N::of(*q)).collect();
        let c = f(&x);
        let uh: Vec<f64> = c.iter().map(|q| q / len(&c)).collect();
        for y in &vs {
            if cx.done() { return; }
            let y: Vec<N> = y.iter().map(|q| N::of(*q)).collect();
            let d = f(&y);
            let wh: Vec<f64> = d.iter().map(|q| q / len(&d)).collect();
            let cs = dot3(&uh, &wh);
            if cs < -0.9995 { continue; }
            cx.case(|| format!("Rotor3::from_vectors({:?}, {:?})", x, y), || {
                let q = Rotor3::from_vectors(v(&x), v(&y));
                let tol = 64.0 * N::EPS / ((1.0 + cs) / 2.0).sqrt().max(0.02);
                near("norm of the rotor", len(&cr(&q)), 1.0, tol)?;
                let n = |z: &[f64]| -> Vector3<N> { v(&[N::of(z[0]), N::of(z[1]), N::of(z[2])]) };
                nears("first direction turned into the second", &cv(&q.rotate(n(&uh))), &wh, tol)?;
                let w = cross(&uh, &wh);
                if len(&w) > 1e-6 {
                    let wn: Vec<f64> = w.iter().map(|z| z / len(&w)).collect();
                    nears("perpendicular direction kept fixed", &cv(&q.rotate(n(&wn))), &wn, tol)?;
                    Ok(if cs < 0.0 { "obtuse" } else { "acute" })
                } else {
                    for e in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]].iter() {
                        nears("equal directions give the identity", &cv(&q.rotate(n(e))), e, tol + 4.0 * len(&w))?;
                    }
                    Ok("-same direction")
                }
            });
        }
    })
}

/// Directions that are nearly opposite or nearly equal.
fn c20_close<N: Fl>(name: &str, alpha: Vec<f64>, deltas: Vec<f64>, lengths: Vec<(f64, f64)>) -> Dom {
    let vs: Vec<Vec<f64>> = all(3, &alpha).into_iter().filter(|c| len(c) > 0.0).collect();
    let bound = format!("all directions with components {:?}, turned by each of {:?} and by pi minus it in 6 planes, at lengths {:?}", alpha, deltas, lengths);
    dom(name, &bound, vs.len(), move |k, cx| {
        let uh: Vec<f64> = vs[k].iter().map(|q| q / len(&vs[k])).collect();
        let e = if uh[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
        let p = cross(&uh, &e);
        let p: Vec<f64> = p.iter().map(|q| q / len(&p)).collect();
        let p2 = cross(&uh, &p);
        for turn in 0..6 {
            let th = turn as f64 * 1.0471975 + 0.1;
            let dir: Vec<f64> = (0..3).map(|i| p[i] * th.cos() + p2[i] * th.sin()).collect();
            for &d in &deltas {
                for far in 0..2 {
                    for &(lu, lw) in &lengths {
                        if cx.done() { return; }
                        let (cd, sd) = (if far == 1 { -d.cos() } else { d.cos() }, d.sin());
                        let x: Vec<N> = uh.iter().map(|q| N::of(q * lu)).collect();
                        let y: Vec<N> = (0..3).map(|i| N::of((uh[i] * cd + dir[i] * sd) * lw)).collect();
                        let (a, c) = (f(&x), f(&y));
                        let ah: Vec<f64> = a.iter().map(|q| q / len(&a)).collect();
                        let wh: Vec<f64> = c.iter().map(|q| q / len(&c)).collect();
                        cx.case(|| format!("Rotor3::from_vectors({:?}, {:?})", x, y), || {
                            let q = Rotor3::from_vectors(v(&x), v(&y));
                            // an opposite pair has no shortest way: the demanded accuracy shrinks with the distance from it
                            let tol = if far == 1 { 64.0 * N::EPS / (d * d / 4.0) } else { 64.0 * N::EPS };
                            near("norm of the rotor", len(&cr(&q)), 1.0, 64.0 * N::EPS)?;
                            let n = |z: &[f64]| -> Vector3<N> { v(&[N::of(z[0]), N::of(z[1]), N::of(z[2])]) };
                            nears("first direction turned into the second", &cv(&q.rotate(n(&ah))), &wh, tol)?;
                            let w = cross(&ah, &wh);
                            let wn: Vec<f64> = w.iter().map(|z| z / len(&w)).collect();
                            nears("perpendicular direction kept fixed", &cv(&q.rotate(n(&wn))), &wn, tol + 8.0 * N::EPS / d)?;
                            Ok(if far == 1 { "nearly opposite" } else { "nearly equal" })
                        });
                    }
                }
            }
        }
    })
}

fn c20_angles<N: Fl>(name: &str, planes: Vec<f64>, angles: Vec<f64>) -> Dom {
    let ps: Vec<Vec<f64>> = all(3, &planes).into_iter().filter(|c| len(c) > 0.0).collect();
    let bound = format!("normalised planes with components {:?}, angles {:?}", planes, angles);
    dom(name, &bound, ps.len(), move |k, cx| {
        let l = len(&ps[k]);
        let p: Vec<N> = ps[k].iter().map(|q| N::of(*q / l)).collect();
        let c = f(&p);
        let ax = [c[2], -c[1], c[0]]; // normal of b1 e12 + b2 e13 + b3 e23
        for &a in &angles {
            if cx.done() { return; }
            cx.case(|| format!("Rotor3::from_angle_plane({:?}, {:?})", a, p), || {
                let an = N::of(a);
                let af = an.f64v();
                let q = Rotor3::from_angle_plane(an, b(&p));
                let tol = (32.0 + 4.0 * af.abs()) * N::EPS;
                near("norm of the rotor", len(&cr(&q)), 1.0, tol)?;
                for e in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.3, -2.0, 1.0]].iter() {
                    let kx = cross(&ax, e);
                    let kd = dot3(&ax, e);
                    let want: Vec<f64> = (0..3).map(|i| e[i] * af.cos() + kx[i] * af.sin() + ax[i] * kd * (1.0 - af.cos())).collect();
                    nears("rotated vector (Rodrigues)", &cv(&q.rotate(v(&[N::of(e[0]), N::of(e[1]), N::of(e[2])]))), &want, 4.0 * tol)?;
                }
                for i in 0..3 {
                    if c[i] == 1.0 {
                        let s = match i { 0 => Rotor3::from_xy_rotation(an), 1 => Rotor3::from_xz_rotation(an), _ => Rotor3::from_yz_rotation(an) };
                        nears("coordinate-plane constructor", &cr(&s), &cr(&q), tol)?;
                    }
                }
                for &a2 in &angles {
                    let (p1, p2) = (Rotor3::from_angle_plane(N::of(a2), b(&p)), Rotor3::from_angle_plane(N::of(a2) + an, b(&p)));
                    nears("composition of two rotations in one plane", &cr(&(q * p1)), &cr(&p2), (64.0 + 8.0 * (a.abs() + a2.abs())) * N::EPS)?;
                }
                Ok(if a == 0.0 { "-zero angle" } else if a < 0.0 { "negative angle" } else { "positive angle" })
            });
        }
    })
}

pub fn c20(tier: Tier) -> Plan {
    use std::f64::consts::PI;
    let a = vec![-3.0, -1.0, -0.2, 0.0, 0.5, 2.0, 40.0];
    let angs = vec![0.0, PI / 6.0, -PI / 6.0, PI / 4.0, 1.0, -1.0, PI / 2.0, -PI / 2.0, 2.5, PI, -PI, 4.0, 1.5 * PI, 2.0 * PI, -2.0 * PI, 7.0, 3.0 * PI, -10.0, 13.0, 0.001];
    let pl = vec![-2.0, -1.0, 0.0, 0.5, 1.0, 3.0];
    let mut doms = vec![
        c20_vectors::<f64>("from two vectors f64", a.clone()), c20_vectors::<f32>("from two vectors f32", a),
        c20_angles::<f64>("from angle and plane f64", pl.clone(), angs.clone()), c20_angles::<f32>("from angle and plane f32", pl, angs.clone()),
        dom("identity", "Rotor3::identity for i64, f32, f64", 1, |_, cx| {
            cx.case(|| "Rotor3::identity()".into(), || {
                if Rotor3::<i64>::identity() != r(&[1, 0, 0, 0]) || Rotor3::<f32>::identity() != r(&[1.0, 0.0, 0.0, 0.0]) || Rotor3::<f64>::identity() != r(&[1.0, 0.0, 0.0, 0.0]) {
                    return Err("the identity rotor is not 1".into());
                }
                Ok("identity")
            });
        }),
    ];
    for s in [1e-12, 1e-9, 1e-6, 1e-4, 1e4, 1e6, 1e9, 1e12].iter().cloned() {
        let a: Vec<f64> = [-1.0, -0.2, 0.0, 0.5, 2.0].iter().map(|q| q * s).collect();
        doms.push(c20_vectors::<f64>(&format!("from two vectors f64, scale {:e}", s), a.clone()));
        if (1e-9..=1e9).contains(&s) {
            doms.push(c20_vectors::<f32>(&format!("from two vectors f32, scale {:e}", s), a));
        }
    }
    doms.push(c20_vectors::<f64>("from two vectors f64, mixed scales", vec![-1e6, -1.0, -1e-6, 0.0, 1e-6, 1e-3, 1.0, 1e3, 1e6]));
    doms.push(c20_vectors::<f32>("from two vectors f32, mixed scales", vec![-1e6, -1.0, -1e-6, 0.0, 1e-6, 1e-3, 1.0, 1e3, 1e6]));
    {
        let small: Vec<f64> = [1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2].iter().flat_map(|a| vec![*a, -*a, PI - *a, PI + *a, 2.0 * PI - *a, 100.0 * PI + *a]).collect();
        doms.push(c20_angles::<f64>("from angle and plane f64, nearly axial planes", vec![-1.0, -1e-9, 0.0, 1e-5, 1e-3], vec![1.0, -2.5, PI, 1e-3]));
        doms.push(c20_angles::<f32>("from angle and plane f32, nearly axial planes", vec![-1.0, -1e-5, 0.0, 3e-4, 1e-2], vec![1.0, -2.5, PI, 1e-3]));
        doms.push(c20_angles::<f64>("from angle and plane f64, special angles", vec![-1.0, 0.0, 0.5, 1.0], small.clone()));
        doms.push(c20_angles::<f32>("from angle and plane f32, special angles", vec![-1.0, 0.0, 0.5, 1.0], small));
    }
    {
        doms.push(c20_vectors::<f64>("from two vectors f64 wide", vec![-100.0, -3.0, -1.0, -0.2, -0.01, 0.0, 0.5, 1.0, 2.0, 7.0, 1e3]));
        let more: Vec<f64> = (-72..=72).map(|i| i as f64 * PI / 12.0).collect();
        doms.push(c20_angles::<f64>("from angle and plane f64 wide", vec![-7.0, -2.0, -1.0, 0.0, 0.1, 0.5, 1.0, 3.0], more));
    }
    doms.push(c20_close::<f64>("close to equal and opposite f64", vec![-2.0, -0.3, 0.0, 1.0], vec![1e-5, 1e-4, 1e-3, 0.005, 0.01, 0.02, 0.04, 0.1], vec![(1.0, 1.0), (0.01, 30.0), (1e5, 1e-3)]));
    doms.push(c20_close::<f32>("close to equal and opposite f32", vec![-2.0, -0.3, 0.0, 1.0], vec![0.02, 0.03, 0.04, 0.1], vec![(1.0, 1.0), (0.01, 30.0), (1e5, 1e-3)]));
    if tier == Tier::Thorough {
        let w = vec![-1e3, -100.0, -31.0, -3.0, -2.0, -1.0, -0.7, -0.2, -0.01, 0.0, 0.02, 0.1, 0.5, 1.0, 1.4, 2.0, 7.0, 50.0, 1e3];
        doms.push(c20_vectors::<f64>("from two vectors f64 wider", w.clone()));
        doms.push(c20_vectors::<f32>("from two vectors f32 wider", w));
        let more: Vec<f64> = (-360..=360).map(|i| i as f64 * PI / 60.0).collect();
        doms.push(c20_angles::<f64>("from angle and plane f64 wider", vec![-7.0, -2.0, -1.0, -0.3, 0.0, 0.1, 0.5, 1.0, 3.0], more.clone()));
        doms.push(c20_angles::<f32>("from angle and plane f32 wider", vec![-2.0, -1.0, -0.3, 0.0, 0.1, 1.0, 3.0], more));
    }
    Plan { level: "exploration", rule: "every pair of vectors, every angle and plane over the alphabets; non-trivial when the rotation is not the identity", assumptions: vec!["Rodrigues' formula in f64"], doms }
}

fn c21_dom<N: Fl>(name: &str, alpha: Vec<f64>) -> Dom {
    let vs: Vec<Vec<f64>> = all(3, &alpha).into_iter().filter(|c| len(c) > 0.0).collect();
    let bound = format!("all pairs of non-zero vectors with components {:?}", alpha);
    dom(name, &bound, vs.len(), move |k, cx| {
        let x: Vec<N> = vs[k].iter().map(|q| N::of(*q)).collect();
        let c = f(&x);
        for y in &vs {
            if cx.done() { return; }
            let y: Vec<N> = y.iter().map(|q| N::of(*q)).collect();
            let d = f(&y);
            let (lc, ld) = (len(&c), len(&d));
            let cls: Class = { let w = len(&cross(&c, &d)) / (lc * ld); let s = dot3(&c, &d); if w < 1e-9 { if s > 0.0 { "same direction" } else { "opposite direction" } } else if s.abs() < 1e-12 * lc * ld { "perpendicular" } else { "general" } };
            let k = dot3(&c, &d) / (ld * ld);
            let proj: Vec<f64> = d.iter().map(|q| q * k).collect();
            let refl: Vec<f64> = (0..3).map(|i| 2.0 * proj[i] - c[i]).collect();
            cx.case(|| format!("{:?} projected onto {:?}", x, y), || {
                let tol = 32.0 * N::EPS * lc;
                nears("projection", &cv(&v(&x).project(v(&y))), &proj, tol)?;
                for s in [-1.0, 2.0, 0.3].iter() {
                    let ys = v(&[y[0] * N::of(*s), y[1] * N::of(*s), y[2] * N::of(*s)]);
                    nears("projection onto a scaled operand", &cv(&v(&x).project(ys)), &proj, tol)?;
                }
                Ok(cls)
            });
            cx.case(|| format!("{:?} reflected about {:?}", x, y), || {
                let tol = 64.0 * N::EPS * lc;
                let g = v(&x).reflect(v(&y));
                nears("reflection", &cv(&g), &refl, tol)?;
                nears("reflecting twice", &cv(&g.reflect(v(&y))), &c, 2.0 * tol)?;
                for s in [-1.0, 2.0, 0.3].iter() {
                    let ys = v(&[y[0] * N::of(*s), y[1] * N::of(*s), y[2] * N::of(*s)]);
                    nears("reflection about a scaled operand", &cv(&v(&x).reflect(ys)), &refl, tol)?;
                }
                Ok(cls)
            });
            cx.case(|| format!("angle between {:?} and {:?}", x, y), || {
                let g = v(&x).angle(v(&y)).f64v();
                let want = len(&cross(&c, &d)).atan2(dot3(&c, &d));
                // the arc cosine is ill-conditioned near 0 and pi only
                let sine = len(&cross(&c, &d)) / (lc * ld);
                let tol = (64.0 * N::EPS / sine.max(N::EPS)).min(4.0 * N::EPS.sqrt());
                if g.is_nan() || g < 0.0 || g > std::f64::consts::PI + 4.0 * N::EPS { return Err(format!("the angle is {}", g)); }
                near("angle", g, want, tol)?;
                near("angle, operands swapped", v(&y).angle(v(&x)).f64v(), want, tol)?;
                Ok(cls)
            });
        }
    })
}

pub fn c21(tier: Tier) -> Plan {
    let a = vec![-30.0, -1.0, -0.1, 0.0, 0.7, 2.0, 3.0];
    let mut doms = vec![c21_dom::<f64>("f64", a.clone()), c21_dom::<f32>("f32", a)];
    for s in [1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e3, 1e5, 1e7, 1e9, 1e12].iter().cloned() {
        let a: Vec<f64> = [-2.0, -1.0, -0.1, 0.0, 0.7, 1.0, 3.0].iter().map(|q| q * s).collect();
        doms.push(c21_dom::<f64>(&format!("f64, scale {:e}", s), a.clone()));
        if (1e-8..=1e8).contains(&s) { doms.push(c21_dom::<f32>(&format!("f32, scale {:e}", s), a)); }
    }
    doms.push(c21_dom::<f64>("f64, mixed scales", vec![-1e9, -1e3, -1.0, -1e-6, 0.0, 1e-9, 1e-3, 1.0, 1e6]));
    doms.push(c21_dom::<f32>("f32, mixed scales", vec![-1e4, -1.0, -1e-6, 0.0, 1e-4, 1.0, 1e6]));
    {
        let w = vec![-300.0, -7.0, -1.0, -0.3, -0.01, 0.0, 0.01, 0.1, 0.9, 2.0, 3.0, 11.0, 500.0];
        doms.push(c21_dom::<f64>("f64 wide", w.clone()));
        doms.push(c21_dom::<f32>("f32 wide", w));
    }
    if tier == Tier::Thorough {
        let w = vec![-300.0, -30.0, -7.0, -2.0, -1.0, -0.3, -0.05, -0.01, 0.0, 0.01, 0.1, 0.6, 0.9, 1.0, 2.0, 3.0, 11.0, 70.0, 500.0];
        doms.push(c21_dom::<f64>("f64 wider", w.clone()));
        doms.push(c21_dom::<f32>("f32 wider", w));
        doms.push(c21_dom::<f64>("f64, all magnitudes", vec![-1e9, -1e7, -1e4, -1e2, -1.0, -1e-3, -1e-5, -1e-8, 0.0, 1e-9, 1e-6, 1e-4, 0.1, 1.0, 50.0, 1e5, 1e8]));
    }
    Plan { level: "exploration", rule: "every pair of non-zero vectors over the alphabet; outcome classes by relative direction, none of them trivial", assumptions: vec!["f64 linear algebra as reference, tolerances in units of the operand length"], doms }
}

// ------------------------------------------------------------------------------------------------- C22 linear

/// One of the four types seen as a list of components.
trait Lin<N: Num>: Copy + Debug + PartialEq + 'static {
    const NAME: &'static str;
    const DIM: usize;
    fn mk(c: &[N]) -> Self;
    fn comps(&self) -> Vec<N>;
}
impl<N: Num> Lin<N> for Vector3<N> {
    const NAME: &'static str = "vector";
    const DIM: usize = 3;
    fn mk(c: &[N]) -> Self { v(c) }
    fn comps(&self) -> Vec<N> { vec![self.a1, self.a2, self.a3] }
}
impl<N: Num> Lin<N> for Bivector3<N> {
    const NAME: &'static str = "bivector";
    const DIM: usize = 3;
    fn mk(c: &[N]) -> Self { b(c) }
    fn comps(&self) -> Vec<N> { vec![self.b1, self.b2, self.b3] }
}
impl<N: Num> Lin<N> for Trivector3<N> {
    const NAME: &'static str = "trivector";
    const DIM: usize = 1;
    fn mk(c: &[N]) -> Self { Trivector3::new(c[0]) }
    fn comps(&self) -> Vec<N> { vec![coef(*self)] }
}
impl<N: Num> Lin<N> for Rotor3<N> {
    const NAME: &'static str = "rotor";
    const DIM: usize = 4;
    fn mk(c: &[N]) -> Self { r(c) }
    fn comps(&self) -> Vec<N> { vec![self.scalar, self.bivector.b1, self.bivector.b2, self.bivector.b3] }
}

fn same<N: Num>(what: &str, got: Vec<N>, want: Vec<N>) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{} gives components {:?}, expected {:?}", what, got, want)) }
}
fn zipw<N: Num>(a: &[N], b: &[N], f: impl Fn(N, N) -> N) -> Vec<N> { a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect() }

macro_rules! linear_dom {
    ($fname:ident, $scale:expr) => {
        /// All pairs: plain operators, compound operators, against component-wise arithmetic.
        fn $fname<N, L>(name: &str, alpha: Vec<N>, scalars: Vec<N>) -> Dom
        where
            N: Num + std::ops::Div<Output = N> + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + std::ops::DivAssign,
            L: Lin<N> + Add<Output = L> + Sub<Output = L> + Neg<Output = L> + std::ops::Div<N, Output = L> + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign<N> + std::ops::DivAssign<N>,
        {
            let xs = all(L::DIM, &alpha);
            let bound = format!("{}: components {:?}, scalars {:?}", L::NAME, alpha, scalars);
            let n = xs.len();
            let per = (n + 63) / 64;
            dom(name, &bound, (n + per - 1) / per, move |u, cx| {
                for x in &xs[u * per..((u + 1) * per).min(n)] {
                    for y in &xs {
                        if cx.done() { return; }
                        cx.case(|| format!("{} {:?} + / - {:?}", L::NAME, x, y), || {
                            let (p, q) = (L::mk(x), L::mk(y));
                            let (s, d) = (zipw(x, y, |a, b| a + b), zipw(x, y, |a, b| a - b));
                            same("addition", (p + q).comps(), s.clone())?;
                            same("subtraction", (p - q).comps(), d.clone())?;
                            let mut z = p;
                            z += q;
                            same("+=", z.comps(), s)?;
                            let mut z = p;
                            z -= q;
                            same("-=", z.comps(), d)?;
                            if (p == q) != (x == y) { return Err("equality disagrees with the components".into()); }
                            Ok(if x.iter().any(|c| !c.is_zero()) && y.iter().any(|c| !c.is_zero()) { "pair" } else { "-zero operand" })
                        });
                    }
                    cx.case(|| format!("-{} {:?}", L::NAME, x), || {
                        same("negation", (-L::mk(x)).comps(), x.iter().map(|a| -*a).collect())?;
                        Ok("negation")
                    });
                    for &k in &scalars {
                        cx.case(|| format!("{} {:?} scaled by {:?}", L::NAME, x, k), || {
                            let p = L::mk(x);
                            let m: Vec<N> = x.iter().map(|a| *a * k).collect();
                            let scale: Option<fn(L, N) -> L> = $scale;
                            if let Some(f) = scale { same("multiplication by a scalar", f(p, k).comps(), m.clone())?; }
                            let mut z = p;
                            z *= k;
                            same("*=", z.comps(), m)?;
                            if !k.is_zero() {
                                let d: Vec<N> = x.iter().map(|a| *a / k).collect();
                                same("division by a scalar", (p / k).comps(), d.clone())?;
                                let mut z = p;
                                z /= k;
                                same("/=", z.comps(), d)?;
                            }
                            Ok("scaling")
                        });
                    }
                }
            })
        }
    };
}
linear_dom!(linear, None);

fn scale_dom<N, L>(name: &str, alpha: Vec<N>, scalars: Vec<N>) -> Dom
where
    N: Num,
    L: Lin<N> + Mul<N, Output = L>,
{
    let xs = all(L::DIM, &alpha);
    let bound = format!("{}: components {:?}, scalars {:?}", L::NAME, alpha, scalars);
    dom(name, &bound, 1, move |_, cx| {
        for x in &xs {
            for &k in &scalars {
                if cx.done() { return; }
                cx.case(|| format!("{} {:?} * {:?}", L::NAME, x, k), || {
                    same("multiplication by a scalar", (L::mk(x) * k).comps(), x.iter().map(|a| *a * k).collect())?;
                    Ok("scaling")
                });
            }
        }
    })
}

fn zero_dom<N: Num, L: Lin<N> + Zero>(name: &str, alpha: Vec<N>) -> Dom {
    let xs = all(L::DIM, &alpha);
    dom(name, &format!("{}: components {:?}", L::NAME, alpha), 1, move |_, cx| {
        for x in &xs {
            cx.case(|| format!("{} {:?} is zero?", L::NAME, x), || {
                same("zero()", L::zero().comps(), vec![N::zero(); L::DIM])?;
                let want = x.iter().all(|c| c.is_zero());
                if L::mk(x).is_zero() != want { return Err(format!("is_zero is {}", !want)); }
                let mut z = L::mk(x);
                z.set_zero();
                same("set_zero", z.comps(), vec![N::zero(); L::DIM])?;
                Ok(if want { "zero" } else { "non-zero" })
            });
        }
    })
}

/// Explicit-state search over compound assignments: state = the value, reference = component list.
fn assign_dom<L>(name: &str, depth: usize) -> Dom
where
    L: Lin<i64> + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign<i64> + std::ops::DivAssign<i64>,
{
    let start: Vec<i64> = [6, -4, 9, 5][..L::DIM].to_vec();
    let bound = format!("{}: every sequence of up to {} compound assignments from {:?}, 14 operations", L::NAME, depth, start);
    dom(name, &bound, 1, move |_, cx| {
        let mut ops: Vec<(String, Box<dyn Fn(&mut L)>, Box<dyn Fn(&mut Vec<i64>)>)> = vec![];
        for i in 0..L::DIM {
            let mut e = vec![0; L::DIM];
            e[i] = 1 + i as i64;
            let (e1, e2, e3, e4) = (e.clone(), e.clone(), e.clone(), e.clone());
            ops.push((format!("+= {:?}", e), Box::new(move |x| *x += L::mk(&e1)), Box::new(move |c| for k in 0..c.len() { c[k] += e2[k] })));
            ops.push((format!("-= {:?}", e), Box::new(move |x| *x -= L::mk(&e3)), Box::new(move |c| for k in 0..c.len() { c[k] -= e4[k] })));
        }
        for k in [-1i64, 2, 3].iter().cloned() {
            ops.push((format!("*= {}", k), Box::new(move |x| *x *= k), Box::new(move |c| for q in c.iter_mut() { *q *= k })));
        }
        ops.push(("/= 2".into(), Box::new(|x| *x /= 2), Box::new(|c| for q in c.iter_mut() { *q /= 2 })));
        ops.push(("+= self".into(), Box::new(|x| { let y = *x; *x += y }), Box::new(|c| for q in c.iter_mut() { *q += *q })));
        let mut seen = std::collections::HashSet::new();
        seen.insert(start.clone());
        let mut frontier = vec![(start.clone(), Vec::<usize>::new())];
        for _ in 0..depth {
            let mut next = vec![];
            for (c, h) in &frontier {
                cx.states += 1;
                for (i, op) in ops.iter().enumerate() {
                    if cx.done() { return; }
                    cx.transitions += 1;
                    let mut hist = h.clone();
                    hist.push(i);
                    let names = || format!("{} {:?}: {}", L::NAME, start, hist.iter().map(|j| ops[*j].0.clone()).collect::<Vec<_>>().join("; "));
                    let res = cx.case_full(names, |_| {
                        let mut want = c.clone();
                        (op.2)(&mut want);
                        let mut x = L::mk(c);
                        (op.1)(&mut x);
                        same("assignment", x.comps(), want.clone())?;
                        // the whole history on one fresh object
                        let mut y = L::mk(&start);
                        for j in &hist { (ops[*j].1)(&mut y); }
                        same("the whole history", y.comps(), want.clone())?;
                        Ok(("assignment", want))
                    }, false);
                    if let Some(w) = res {
                        cx.traces += 1;
                        if seen.insert(w.clone()) { next.push((w, hist)); }
                    }
                }
            }
            frontier = next;
        }
    })
}

fn approx_dom<L>(name: &str) -> Dom
where
    L: Lin<f64> + AbsDiffEq<Epsilon = f64> + RelativeEq + UlpsEq,
{
    // (base, other) pairs per component: equal, off by some ulps, off by small/large amounts, NaN
    let ulps = |x: f64, k: i64| f64::from_bits((x.to_bits() as i64 + k) as u64);
    let pairs: Vec<(f64, f64)> = vec![(0.0, 0.0), (1.0, ulps(1.0, 3)), (1000.0, ulps(1000.0, 40)), (1.0, 1.0 + 1e-9), (-2.0, -2.0 - 1e-4), (500.0, 500.01), (1.0, 2.0), (3.0, -3.0), (0.0, f64::NAN)];
    let n = pairs.len();
    dom(name, &format!("{}: every combination of component pairs {:?}, tolerances 0, 1e-12, 1e-6, 1e-3; relative 1e-9, 1e-4; ulps 0, 4, 64", L::NAME, pairs), n, move |u, cx| {
        let rest = all(L::DIM - 1, &(0..n).collect::<Vec<_>>());
        for t in &rest {
            if cx.done() { return; }
            let idx: Vec<usize> = std::iter::once(u).chain(t.iter().cloned()).collect();
            let (x, y): (Vec<f64>, Vec<f64>) = idx.iter().map(|i| pairs[*i]).unzip();
            cx.case(|| format!("{} {:?} approximately equal to {:?}", L::NAME, x, y), || {
                let (p, q) = (L::mk(&x), L::mk(&y));
                let mut yes = 0;
                let conj = |g: &dyn Fn(&f64, &f64) -> bool| x.iter().zip(&y).all(|(a, b)| g(a, b));
                for &e in [0.0, 1e-12, 1e-6, 1e-3].iter() {
                    let w = conj(&|a, b| f64::abs_diff_eq(a, b, e));
                    yes += w as u32;
                    if p.abs_diff_eq(&q, e) != w || q.abs_diff_eq(&p, e) != w || p.abs_diff_ne(&q, e) == w { return Err(format!("abs_diff_eq with tolerance {:e} is not {}", e, w)); }
                    for &m in [1e-9, 1e-4].iter() {
                        let w = conj(&|a, b| f64::relative_eq(a, b, e, m));
                        yes += w as u32;
                        if p.relative_eq(&q, e, m) != w || p.relative_ne(&q, e, m) == w { return Err(format!("relative_eq with tolerances {:e}, {:e} is not {}", e, m, w)); }
                    }
                    for &m in [0u32, 4, 64].iter() {
                        let w = conj(&|a, b| f64::ulps_eq(a, b, e, m));
                        yes += w as u32;
                        if p.ulps_eq(&q, e, m) != w || p.ulps_ne(&q, e, m) == w { return Err(format!("ulps_eq with tolerances {:e}, {} is not {}", e, m, w)); }
                    }
                }
                if L::default_epsilon() != f64::default_epsilon() || L::default_max_relative() != f64::default_max_relative() || L::default_max_ulps() != f64::default_max_ulps() {
                    return Err("default tolerances differ from the component type's".into());
                }
                Ok(if yes == 0 { "always different" } else if yes == 24 { "always equal" } else { "depends on the tolerance" })
            });
        }
    })
}

pub fn c22(tier: Tier) -> Plan {
    let ia = vec![-7i64, -1, 0, 2, 12];
    let is = vec![-3i64, -1, 0, 1, 2, 5];
    let fa = vec![-1.5f64, -1e-3, 0.0, 0.1, 1e3];
    let fs = vec![-2.0f64, 0.0, 0.1, 1.0, 3.0, 1e3];
    let sa = vec![-1.5f32, 0.0, 0.1, 1e3];
    let ssc = vec![-2.0f32, 0.1, 3.0];
    let ra = tier.pick(vec![-7i64, 0, 2, 12], ia.clone());
    let mut doms = vec![
        linear::<i64, Vector3<i64>>("vector i64", ia.clone(), is.clone()),
        linear::<i64, Bivector3<i64>>("bivector i64", ia.clone(), is.clone()),
        linear::<i64, Trivector3<i64>>("trivector i64", vec![-9, -2, -1, 0, 1, 3, 14], is.clone()),
        linear::<i64, Rotor3<i64>>("rotor i64", ra, is.clone()),
        linear::<f64, Vector3<f64>>("vector f64", fa.clone(), fs.clone()),
        linear::<f64, Bivector3<f64>>("bivector f64", fa.clone(), fs.clone()),
        linear::<f64, Trivector3<f64>>("trivector f64", fa.clone(), fs.clone()),
        linear::<f64, Rotor3<f64>>("rotor f64", vec![-1.5, 0.0, 0.1, 1e3], fs.clone()),
        linear::<f32, Vector3<f32>>("vector f32", sa.clone(), ssc.clone()),
        linear::<f32, Bivector3<f32>>("bivector f32", sa.clone(), ssc.clone()),
        linear::<f32, Rotor3<f32>>("rotor f32", vec![-1.5, 0.0, 2.0], ssc),
        linear::<f64, Vector3<f64>>("vector f64, components of very different size", vec![-1.0, -1e-9, 0.0, 1e-12, 1e-5, 1e9], vec![-1e-9, 1e-12, 2.0, 1e9]),
        linear::<f64, Bivector3<f64>>("bivector f64, components of very different size", vec![-1.0, -1e-9, 0.0, 1e-12, 1e-5, 1e9], vec![-1e-9, 1e-12, 2.0, 1e9]),
        linear::<f64, Trivector3<f64>>("trivector f64, components of very different size", vec![-1.0, -1e-9, 0.0, 1e-12, 1e-5, 1e9], vec![-1e-9, 1e-12, 2.0, 1e9]),
        linear::<f64, Rotor3<f64>>("rotor f64, components of very different size", vec![-1.0, 0.0, 1e-12, 1e-5], vec![-1e-9, 1e-12, 2.0, 1e9]),
        scale_dom::<i64, Vector3<i64>>("vector * scalar", ia.clone(), is.clone()),
        scale_dom::<i64, Bivector3<i64>>("bivector * scalar", ia.clone(), is.clone()),
        scale_dom::<i64, Rotor3<i64>>("rotor * scalar", ia.clone(), is.clone()),
        scale_dom::<f64, Vector3<f64>>("vector * scalar f64", fa.clone(), fs.clone()),
        scale_dom::<f64, Bivector3<f64>>("bivector * scalar f64", fa.clone(), fs.clone()),
        scale_dom::<f64, Rotor3<f64>>("rotor * scalar f64", fa.clone(), fs.clone()),
        zero_dom::<i64, Vector3<i64>>("vector zero", vec![-1, 0, 5]),
        zero_dom::<i64, Bivector3<i64>>("bivector zero", vec![-1, 0, 5]),
        zero_dom::<i64, Trivector3<i64>>("trivector zero", vec![-1, 0, 5]),
        zero_dom::<f64, Vector3<f64>>("vector zero f64", vec![-1e-300, -0.0, 0.0, 1e-12, 5.0]),
        zero_dom::<f64, Bivector3<f64>>("bivector zero f64", vec![-1e-300, -0.0, 0.0, 1e-12, 5.0]),
        zero_dom::<f64, Trivector3<f64>>("trivector zero f64", vec![-1e-300, -0.0, 0.0, 1e-12, 5.0]),
        assign_dom::<Vector3<i64>>("vector assignments", tier.pick(5, 7)),
        assign_dom::<Bivector3<i64>>("bivector assignments", tier.pick(5, 7)),
        assign_dom::<Trivector3<i64>>("trivector assignments", tier.pick(7, 9)),
        assign_dom::<Rotor3<i64>>("rotor assignments", tier.pick(5, 6)),
        approx_dom::<Vector3<f64>>("vector comparison"),
        approx_dom::<Bivector3<f64>>("bivector comparison"),
        approx_dom::<Trivector3<f64>>("trivector comparison"),
        approx_dom::<Rotor3<f64>>("rotor comparison"),
    ];
    doms.push(dom("units and constructors", "unit elements and new() for i64 and f32", 1, |_, cx| {
        cx.case(|| "unit elements".into(), || {
            same("unit_x", Vector3::<i64>::unit_x().comps(), vec![1, 0, 0])?;
            same("unit_y", Vector3::<i64>::unit_y().comps(), vec![0, 1, 0])?;
            same("unit_z", Vector3::<i64>::unit_z().comps(), vec![0, 0, 1])?;
            same("unit_xy", Bivector3::<i64>::unit_xy().comps(), vec![1, 0, 0])?;
            same("unit_xz", Bivector3::<i64>::unit_xz().comps(), vec![0, 1, 0])?;
            same("unit_yz", Bivector3::<i64>::unit_yz().comps(), vec![0, 0, 1])?;
            same("unit_xyz", Trivector3::<i64>::unit_xyz().comps(), vec![1])?;
            same("unit_z f32", Vector3::<f32>::unit_z().comps(), vec![0.0, 0.0, 1.0])?;
            same("unit_yz f32", Bivector3::<f32>::unit_yz().comps(), vec![0.0, 0.0, 1.0])?;
            same("Vector3::new", Vector3::new(3i64, -4, 5).comps(), vec![3, -4, 5])?;
            same("Bivector3::new", Bivector3::new(3i64, -4, 5).comps(), vec![3, -4, 5])?;
            same("Trivector3::new", Trivector3::new(-4i64).comps(), vec![-4])?;
            same("Rotor3::new", Rotor3::new(9i64, Bivector3::new(3i64, -4, 5)).comps(), vec![9, 3, -4, 5])?;
            Ok("units")
        });
    }));
    Plan { level: "exploration", rule: "every operand pair and scalar over the alphabets, every sequence of compound assignments to the depth bound (explicit-state search, integer components), every combination of component pairs for the comparisons; non-trivial unless an operand is zero", assumptions: vec!["component arithmetic of the primitive types, the approx crate's comparisons for primitive floats"], doms }
}

/// n over k, if it, the falling factorial of length k and k! all fit 64 bits (the documented domain).
fn binomial(n: u64, k: u64) -> Option<u64> {
    if k > n { return Some(0); }
    let (mut num, mut den) = (1u64, 1u64);
    for i in 0..k {
        num = num.checked_mul(n - i)?;
        den = den.checked_mul(i + 1)?;
    }
    Some(num / den)
}

pub fn c23(tier: Tier) -> Plan {
    let nmax = 20usize;
    let far = tier.pick(600usize, 200_000);
    let mut doms = vec![dom("dimension x grade", "dimensions 0..=20, grades 0..=dimension+3 (and far above), against Pascal's triangle", nmax + 1, move |n, cx| {
        let mut row = vec![1u64];
        for _ in 0..n {
            let mut next = vec![1u64];
            for i in 1..row.len() { next.push(row[i - 1] + row[i]); }
            next.push(1);
            row = next;
        }
        for k in (0..=n + 40).chain(vec![n + 64, n + 100, 1000, 1 << 20]) {
            if cx.done() { return; }
            cx.case(|| format!("number_of_basis_blades({}, {})", n, k), || {
                let want = *row.get(k).unwrap_or(&0);
                let got = blade::number_of_basis_blades(n, k) as u64;
                if got != want { return Err(format!("got {}, expected {}", got, want)); }
                Ok(if want > 1 { "proper grade" } else if want == 1 { "one blade" } else { "above the dimension" })
            });
        }
        cx.case(|| format!("total_number_of_basis_blades({})", n), || {
            let want = 1usize << n;
            let got = blade::total_number_of_basis_blades(n);
            let sum: usize = (0..=n).map(|k| blade::number_of_basis_blades(n, k)).sum();
            if got != want || sum != want { return Err(format!("got {}, sum over grades {}, expected {}", got, sum, want)); }
            Ok("total")
        });
    })];
    doms.push(dom("total in large dimensions", "dimensions 0..=63", 1, |_, cx| {
        for m in 0..64usize {
            cx.case(|| format!("total_number_of_basis_blades({})", m), || {
                if blade::total_number_of_basis_blades(m) != 1usize << m { return Err("not a power of two".into()); }
                Ok("total")
            });
        }
    }));
    let chunk = tier.pick(50usize, 500);
    let quick = tier.pick(true, false);
    doms.push(dom("large dimensions", &format!("dimensions 0..={} and around the powers of two up to 2^63, every grade from 0 to 20 whose falling factorial and factorial fit 64 bits, and grades above the dimension (up to 2^20)", far), far / chunk + 1, move |u, cx| {
        let mut ns: Vec<u64> = (u * chunk..((u + 1) * chunk).min(far + 1)).map(|n| n as u64).collect();
        if u == 0 {
            for e in 12..64u32 { if quick && (13..31).contains(&e) { continue; } for d in -2i64..=2 { ns.push(((1u64 << e) as i128 + d as i128) as u64); } }
        }
        for n in ns {
            if cx.done() { return; }
            for k in 0..=20u64 {
                if let Some(want) = binomial(n, k) {
                    cx.case(|| format!("number_of_basis_blades({}, {})", n, k), || {
                        let got = blade::number_of_basis_blades(n as usize, k as usize) as u64;
                        if got != want { return Err(format!("got {}, expected {}", got, want)); }
                        Ok(if want > 1 { "proper grade" } else if want == 1 { "one blade" } else { "above the dimension" })
                    });
                }
            }
            for k in [n + 1, n + 2, n.saturating_mul(2).saturating_add(1)].iter().cloned().filter(|&k| k <= 1 << 20) {
                cx.case(|| format!("number_of_basis_blades({}, {})", n, k), || {
                    let got = blade::number_of_basis_blades(n as usize, k as usize);
                    if got != 0 { return Err(format!("got {}, expected 0", got)); }
                    Ok("above the dimension")
                });
            }
        }
    }));
    Plan {
        level: "exploration",
        rule: "every dimension and grade up to the bound against Pascal's triangle, larger ones against exact arithmetic; all outcomes are non-trivial",
        assumptions: vec!["grades whose falling factorial and factorial fit 64 bits"],
        doms,
    }
}

#[allow(dead_code)]
fn _unused(_: &Cx) {}
