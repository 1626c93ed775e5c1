//! Collider shapes, and what their triangles must look like, from the parameters they were made of.

use avian3d::{parry::shape::SharedShape, prelude::*};
use bevy::prelude::*;

use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Shape {
    Cuboid(Vec3),
    Ball(f32),
    /// Radius, length of the middle part.
    Capsule(f32, f32),
    /// Radius, height.
    Cylinder(f32, f32),
    Cone(f32, f32),
    Hull(Vec<Vec3>),
    Triangle([Vec3; 3]),
    TriMesh(Vec<Vec3>, Vec<[u32; 3]>),
    /// Heights by x (outer) and z.
    Field(Vec<Vec<f32>>, Vec3),
    RoundCuboid(Vec3, f32),
    /// The shapes of the inner ones; the last number is the border radius.
    RoundTriangle([Vec3; 3], f32),
    RoundCylinder(f32, f32, f32),
    RoundCone(f32, f32, f32),
    RoundHull(Vec<Vec3>, f32),
    Compound(Vec<(Vec3, Quat, Shape)>),
    HalfSpace,
    Segment(Vec3, Vec3),
    Polyline(Vec<Vec3>),
}

fn v(r: &mut Rng, d: f32) -> Vec3 {
    Vec3::new(r.f(-d, d), r.f(-d, d), r.f(-d, d))
}

/// Well apart on a ball: hulls of other points are not always right in Parry.
fn hull_points(r: &mut Rng) -> Vec<Vec3> {
    let mut p: Vec<Vec3> = Vec::new();
    for _ in 0..r.range(8, 40) {
        let x = v(r, 1.0).normalize_or(Vec3::Y) * 1.5;
        if p.iter().all(|q| q.distance(x) > 0.7) {
            p.push(x);
        }
    }
    for axis in [Vec3::X, Vec3::Y, Vec3::Z, Vec3::NEG_ONE.normalize()] {
        let x = axis * 1.5;
        if p.iter().all(|q| q.distance(x) > 0.3) {
            p.push(x);
        }
    }
    p
}

impl Shape {
    fn solid(r: &mut Rng) -> Shape {
        let a = r.f(0.2, 2.0);
        let b = r.f(0.2, 2.0);
        match r.below(6) {
            0 | 1 => Shape::Cuboid(Vec3::new(a, b, r.f(0.2, 2.0))),
            2 => Shape::Ball(a),
            3 => Shape::Capsule(a, b),
            4 => Shape::Cylinder(a, b),
            _ => Shape::Cone(a, b),
        }
    }

    fn rounded(r: &mut Rng) -> Shape {
        let (a, b, border) = (r.f(0.2, 2.0), r.f(0.2, 2.0), r.f(0.05, 0.3));
        match r.below(5) {
            0 => Shape::RoundCuboid(Vec3::new(a, b, r.f(0.2, 2.0)), border),
            1 => Shape::RoundTriangle([v(r, 1.0), v(r, 1.0), v(r, 1.0)], border),
            2 => Shape::RoundCylinder(a, b, border),
            3 => Shape::RoundCone(a, b, border),
            _ => Shape::RoundHull(hull_points(r), border),
        }
    }

    pub fn random(r: &mut Rng) -> Shape {
        match r.below(16) {
            0..=5 => Shape::solid(r),
            6 => Shape::Hull(hull_points(r)),
            7 => Shape::Triangle([v(r, 1.0), v(r, 1.0), v(r, 1.0)]),
            8 => {
                let n = r.range(3, 9) as usize;
                let p = (0..n).map(|_| v(r, 2.0)).collect();
                let t = (0..r.range(1, 8))
                    .map(|_| {
                        let a = r.idx(n);
                        let b = (a + 1 + r.idx(n - 2)) % n;
                        let c = (0..n).find(|c| *c != a && *c != b).unwrap();
                        [a as u32, b as u32, c as u32]
                    })
                    .collect();
                Shape::TriMesh(p, t)
            }
            9 => {
                let (n, m) = (r.range(2, 6), r.range(2, 6));
                Shape::Field(
                    (0..n).map(|_| (0..m).map(|_| r.f(-1.0, 1.0)).collect()).collect(),
                    Vec3::new(r.f(1.0, 5.0), r.f(0.5, 2.0), r.f(1.0, 5.0)),
                )
            }
            10 => Shape::rounded(r),
            11 | 12 | 13 => {
                let n = r.range(1, 4);
                Shape::Compound(
                    (0..n)
                        .map(|_| {
                            let q = Quat::from_euler(
                                EulerRot::YXZ,
                                r.f(-3.0, 3.0),
                                r.f(-1.5, 1.5),
                                r.f(-3.0, 3.0),
                            );
                            let s = match r.below(10) {
                                0 => Shape::Segment(v(r, 1.0), v(r, 1.0)),
                                1 => Shape::rounded(r),
                                2 => match r.below(3) {
                                    0 => Shape::Hull(hull_points(r)),
                                    1 => Shape::Triangle([v(r, 1.0), v(r, 1.0), v(r, 1.0)]),
                                    _ => Shape::HalfSpace,
                                },
                                _ => Shape::solid(r),
                            };
                            (v(r, 3.0), q, s)
                        })
                        .collect(),
                )
            }
            14 => Shape::HalfSpace,
            _ => {
                if r.bool() {
                    Shape::Segment(v(r, 1.0), v(r, 1.0))
                } else {
                    Shape::Polyline((0..r.range(2, 5)).map(|_| v(r, 1.0)).collect())
                }
            }
        }
    }

    pub fn collider(&self) -> Option<Collider> {
        Some(match self {
            Shape::Cuboid(s) => Collider::cuboid(s.x, s.y, s.z),
            Shape::Ball(r) => Collider::sphere(*r),
            Shape::Capsule(r, l) => Collider::capsule(*r, *l),
            Shape::Cylinder(r, h) => Collider::cylinder(*r, *h),
            Shape::Cone(r, h) => Collider::cone(*r, *h),
            Shape::Hull(p) => return Collider::convex_hull(p.clone()),
            Shape::Triangle([a, b, c]) => Collider::triangle(*a, *b, *c),
            Shape::TriMesh(p, t) => Collider::trimesh(p.clone(), t.clone()),
            Shape::Field(h, s) => Collider::heightfield(h.clone(), *s),
            Shape::RoundCuboid(s, r) => Collider::round_cuboid(s.x, s.y, s.z, *r),
            Shape::RoundTriangle([a, b, c], r) => {
                let [a, b, c] = [a, b, c].map(|p| (*p).into());
                SharedShape::round_triangle(a, b, c, *r).into()
            }
            Shape::RoundCylinder(r, h, b) => SharedShape::round_cylinder(h / 2.0, *r, *b).into(),
            Shape::RoundCone(r, h, b) => SharedShape::round_cone(h / 2.0, *r, *b).into(),
            Shape::RoundHull(p, b) => {
                let p: Vec<_> = p.iter().map(|p| (*p).into()).collect();
                return SharedShape::round_convex_hull(&p, *b).map(Into::into);
            }
            Shape::Compound(parts) => Collider::compound(
                parts
                    .iter()
                    .map(|(p, q, s)| (*p, *q, s.collider().expect("simple part")))
                    .collect(),
            ),
            Shape::HalfSpace => Collider::half_space(Vec3::Y),
            Shape::Segment(a, b) => Collider::segment(*a, *b),
            Shape::Polyline(p) => Collider::polyline(p.clone(), None),
        })
    }

    /// Whether it has triangles at all.
    pub fn supported(&self) -> bool {
        !matches!(self, Shape::HalfSpace | Shape::Segment(..) | Shape::Polyline(_))
    }

    pub fn name(&self) -> String {
        let d = format!("{self:?}");
        d.split([' ', '(']).next().unwrap_or("").to_string()
    }

    /// What is wrong with these triangles as a description of the shape.
    pub fn wrong(&self, p: &[Vec3], t: &[[usize; 3]]) -> Option<String> {
        if let Some(i) = t.iter().flatten().find(|i| **i >= p.len()) {
            return Some(format!("index {i} of {} vertices", p.len()));
        }
        if p.iter().any(|p| !p.is_finite()) {
            return Some("vertices are not finite".into());
        }
        let size = p.iter().fold(1.0f32, |a, p| a.max(p.length()));
        let eps = 1e-4 * size;
        let used: Vec<Vec3> = t.iter().flatten().map(|i| p[*i]).collect();
        let bounds = |lo: Vec3, hi: Vec3, tol: f32| -> Option<String> {
            let l = used.iter().fold(Vec3::MAX, |a, p| a.min(*p));
            let h = used.iter().fold(Vec3::MIN, |a, p| a.max(*p));
            ((l - lo).abs().max_element() > tol || (h - hi).abs().max_element() > tol)
                .then(|| format!("it spans {l} to {h} instead of {lo} to {hi}"))
        };
        let volume = || {
            t.iter()
                .map(|t| p[t[0]].dot(p[t[1]].cross(p[t[2]])) / 6.0)
                .sum::<f32>()
        };
        let filled = |want: f32, least: f32| -> Option<String> {
            let got = volume();
            (got < least * want - eps || got > want * 1.001 + eps)
                .then(|| format!("it encloses {got} of {want}"))
        };
        let on = |what: &str, f: &dyn Fn(Vec3) -> f32| -> Option<String> {
            used.iter()
                .find(|p| f(**p).abs() > 10.0 * eps)
                .map(|p| format!("{p} is not on the {what}"))
        };
        let pi = std::f32::consts::PI;
        match self {
            Shape::Cuboid(s) | Shape::RoundCuboid(s, _) => {
                let h = *s / 2.0;
                on("corners", &|p| (p.abs() - h).abs().max_element())
                    .or_else(|| bounds(-h, h, eps))
                    .or_else(|| filled(s.x * s.y * s.z, 0.999))
            }
            Shape::Ball(r) => on("sphere", &|p| p.length() - r)
                .or_else(|| bounds(Vec3::splat(-r), Vec3::splat(*r), 0.2 * r))
                .or_else(|| filled(4.0 / 3.0 * pi * r.powi(3), 0.6)),
            Shape::Capsule(r, l) => {
                let to_axis = |p: Vec3| p - Vec3::Y * p.y.clamp(-l / 2.0, l / 2.0);
                let h = Vec3::new(*r, r + l / 2.0, *r);
                on("capsule", &|p| to_axis(p).length() - r)
                    .or_else(|| bounds(-h, h, 0.2 * r))
                    .or_else(|| filled(4.0 / 3.0 * pi * r.powi(3) + pi * r * r * l, 0.6))
            }
            Shape::Cylinder(r, h) | Shape::RoundCylinder(r, h, _) => {
                let b = Vec3::new(*r, h / 2.0, *r);
                let surface = |p: Vec3| {
                    let d = p.xz().length();
                    (d - r).max(p.y.abs() - h / 2.0).min(0.0)
                        + (d - r).max(0.0)
                        + (p.y.abs() - h / 2.0).max(0.0)
                };
                on("cylinder", &surface)
                    .or_else(|| bounds(-b, b, 0.2 * r))
                    .or_else(|| filled(pi * r * r * h, 0.8))
            }
            Shape::Cone(r, h) | Shape::RoundCone(r, h, _) => {
                let b = Vec3::new(*r, h / 2.0, *r);
                // The base's centre and everything on its rim, and the tip.
                let surface = |p: Vec3| {
                    let at = r * (0.5 - p.y / h);
                    let d = p.xz().length();
                    let base = (p.y + h / 2.0).abs() + (d - r).max(0.0);
                    (d - at).abs().min(base)
                };
                on("cone", &surface)
                    .or_else(|| bounds(-b, b, 0.2 * r))
                    .or_else(|| filled(pi * r * r * h / 3.0, 0.8))
            }
            Shape::Hull(points) | Shape::RoundHull(points, _) => {
                if let Some(p) = used
                    .iter()
                    .find(|p| !points.iter().any(|q| q.distance(**p) <= eps))
                {
                    return Some(format!("{p} is none of the points"));
                }
                for t in t {
                    let [a, b, c] = t.map(|i| p[i]);
                    let n = (b - a).cross(c - a);
                    if n.length() < 1e-5 {
                        continue;
                    }
                    let n = n.normalize();
                    if let Some(q) = points.iter().find(|q| n.dot(**q - a) > 0.3) {
                        return Some(format!("{q} is {} outside", n.dot(*q - a)));
                    }
                }
                // Parry merges faces that are almost in one plane, hence the tolerance, and this.
                if let Some(q) = points.iter().find(|q| !used.iter().any(|p| p.distance(**q) <= eps)) {
                    return Some(format!("nothing at {q}"));
                }
                let edges: std::collections::BTreeSet<_> = t
                    .iter()
                    .flat_map(|t| (0..3).map(move |k| (t[k], t[(k + 1) % 3])))
                    .collect();
                if edges.len() != 3 * t.len() || edges.iter().any(|(a, b)| !edges.contains(&(*b, *a))) {
                    return Some("it is not closed".into());
                }
                if volume() <= 0.0 {
                    return Some("it is inside out".into());
                }
                let lo = points.iter().fold(Vec3::MAX, |a, p| a.min(*p));
                let hi = points.iter().fold(Vec3::MIN, |a, p| a.max(*p));
                bounds(lo, hi, 10.0 * eps)
            }
            Shape::Triangle(c) | Shape::RoundTriangle(c, _) => same_triangles(&tris(p, t), &[*c], eps),
            Shape::TriMesh(q, i) => same_triangles(
                &tris(p, t),
                &i.iter().map(|i| i.map(|i| q[i as usize])).collect::<Vec<_>>(),
                eps,
            ),
            Shape::Field(h, s) => {
                let (n, m) = (h.len(), h[0].len());
                if t.len() != 2 * (n - 1) * (m - 1) {
                    return Some(format!("{} triangles for {n} x {m} heights", t.len()));
                }
                let want: Vec<Vec3> = (0..n)
                    .flat_map(|i| (0..m).map(move |j| (i, j)))
                    .map(|(i, j)| {
                        // This is how Avian reads the heights.
                        let (row, col) = ((i * m + j) % n, (i * m + j) / n);
                        Vec3::new(
                            (col as f32 / (m - 1) as f32 - 0.5) * s.x,
                            h[i][j] * s.y,
                            (row as f32 / (n - 1) as f32 - 0.5) * s.z,
                        )
                    })
                    .collect();
                if let Some(p) = used
                    .iter()
                    .find(|p| !want.iter().any(|q| q.distance(**p) <= 10.0 * eps))
                {
                    return Some(format!("{p} is none of the heights"));
                }
                want.iter()
                    .find(|q| !used.iter().any(|p| q.distance(*p) <= 10.0 * eps))
                    .map(|q| format!("nothing at {q}"))
            }
            Shape::Compound(parts) => {
                let parts: Vec<_> = parts.iter().filter(|x| x.2.supported()).collect();
                let mut pieces = components(p.len(), t);
                for (at, q, s) in &parts {
                    let back = |p: &Vec3| q.inverse() * (*p - *at);
                    let local: Vec<Vec3> = p.iter().map(back).collect();
                    let mut why = format!("{} pieces for {} parts", pieces.len(), parts.len());
                    let Some(k) = pieces.iter().position(|c| match s.wrong(&local, c) {
                        None => true,
                        Some(w) => {
                            why = w;
                            false
                        }
                    }) else {
                        return Some(format!("no piece is the {} at {at}: {why}", s.name()));
                    };
                    pieces.remove(k);
                }
                (!pieces.is_empty()).then(|| format!("{} pieces too many", pieces.len()))
            }
            Shape::HalfSpace | Shape::Segment(..) | Shape::Polyline(_) => {
                Some("it has no triangles".into())
            }
        }
    }
}

fn tris(p: &[Vec3], t: &[[usize; 3]]) -> Vec<[Vec3; 3]> {
    t.iter().map(|t| t.map(|i| p[i])).collect()
}

fn same_triangles(a: &[[Vec3; 3]], b: &[[Vec3; 3]], eps: f32) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} triangles instead of {}", a.len(), b.len()));
    }
    let mut left = a.to_vec();
    for t in b {
        // The same way round, from any corner.
        let same = |s: &[Vec3; 3]| {
            (0..3).any(|k| (0..3).all(|j| s[(j + k) % 3].distance(t[j]) <= 2.0 * eps))
        };
        let Some(i) = left.iter().position(same) else {
            return Some(format!("the triangle {t:?} is not there"));
        };
        left.remove(i);
    }
    None
}

/// The triangles, by what hangs together.
fn components(n: usize, t: &[[usize; 3]]) -> Vec<Vec<[usize; 3]>> {
    let mut of: Vec<usize> = (0..n).collect();
    fn root(of: &mut [usize], mut i: usize) -> usize {
        while of[i] != i {
            of[i] = of[of[i]];
            i = of[i];
        }
        i
    }
    for [a, b, c] in t {
        let r = root(&mut of, *a);
        for k in [*b, *c] {
            let k = root(&mut of, k);
            of[k] = r;
        }
    }
    let mut out: std::collections::BTreeMap<usize, Vec<[usize; 3]>> = Default::default();
    for x in t {
        let r = root(&mut of, x[0]);
        out.entry(r).or_default().push(*x);
    }
    out.into_values().collect()
}
