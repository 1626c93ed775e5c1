//! Canonical forms of scenes, independent of the code under test: what the game shows, what the
//! editor holds, and how the two are compared.

use bevy::{
    image::Image,
    math::Affine3A,
    prelude::*,
    render::{
        mesh::{PrimitiveTopology, VertexAttributeValues},
        render_resource::TextureViewDescriptor,
    },
};

use crate::rng::{Hasher64, hash_bytes, hash_debug};

pub const TOL: f32 = 1e-3;

/// An affector: its triangles in world space.
#[derive(Clone, Debug, Default)]
pub struct AffCanon {
    pub tris: Vec<[Vec3; 3]>,
}

#[derive(Clone, Debug)]
pub struct VisCanon {
    pub affine: Affine3A,
    /// Whether translation, rotation and scale can express the placement.
    pub trs: bool,
    pub mesh: u64,
    pub material: u64,
    pub mesh_parts: Vec<(String, u64)>,
    pub material_parts: Vec<(String, u64)>,
}

#[derive(Clone, Debug, Default)]
pub struct SceneCanon {
    pub affectors: Vec<AffCanon>,
    pub visuals: Vec<VisCanon>,
    /// The number of different meshes, materials and images of the visuals (game side only).
    pub sharing: [usize; 3],
}

/// Position and triangle data of a mesh that can be a navmesh affector.
pub fn affecting_geometry(mesh: &Mesh) -> Option<(Vec<Vec3>, Vec<[usize; 3]>)> {
    if mesh.primitive_topology() != PrimitiveTopology::TriangleList {
        return None;
    }
    let VertexAttributeValues::Float32x3(pos) = mesh.attribute(Mesh::ATTRIBUTE_POSITION)? else {
        return None;
    };
    let idx: Vec<usize> = mesh.indices()?.iter().collect();
    if idx.len() % 3 != 0 || idx.iter().any(|i| *i >= pos.len()) {
        return None;
    }
    Some((
        pos.iter().map(|p| Vec3::from(*p)).collect(),
        idx.chunks(3).map(|c| [c[0], c[1], c[2]]).collect(),
    ))
}

pub fn world_tris(geo: &(Vec<Vec3>, Vec<[usize; 3]>), a: &Affine3A) -> Vec<[Vec3; 3]> {
    geo.1
        .iter()
        .map(|t| t.map(|i| geo.0.get(i).map_or(Vec3::NAN, |v| a.transform_point3(*v))))
        .collect()
}

pub fn mesh_parts(mesh: &Mesh) -> Vec<(String, u64)> {
    let mut v = vec![(
        "topology".to_string(),
        hash_debug(&mesh.primitive_topology()),
    )];
    let standard = [
        Mesh::ATTRIBUTE_POSITION,
        Mesh::ATTRIBUTE_NORMAL,
        Mesh::ATTRIBUTE_UV_0,
        Mesh::ATTRIBUTE_UV_1,
        Mesh::ATTRIBUTE_TANGENT,
        Mesh::ATTRIBUTE_COLOR,
        Mesh::ATTRIBUTE_JOINT_WEIGHT,
        Mesh::ATTRIBUTE_JOINT_INDEX,
    ];
    for a in standard {
        if let Some(val) = mesh.attribute(a.id) {
            let mut h = Hasher64::default();
            h.str(&format!("{:?}/{}", std::mem::discriminant(val), val.len()));
            h.bytes(val.get_bytes());
            v.push((a.name.to_string(), h.finish()));
        }
    }
    v.push((
        "indices".to_string(),
        match mesh.indices() {
            None => 0,
            Some(i) => {
                let mut h = Hasher64::default();
                h.u64(i.len() as u64 + 1);
                for i in i.iter() {
                    h.u64(i as u64);
                }
                h.finish()
            }
        },
    ));
    v
}

pub fn image_canon(image: &Image) -> u64 {
    let d = &image.texture_descriptor;
    let view = image
        .texture_view_descriptor
        .clone()
        .map(|v| TextureViewDescriptor { label: None::<&'static str>, ..v });
    hash_debug(&(
        (d.size, d.mip_level_count, d.sample_count, d.dimension, d.format, d.usage),
        image.data.as_ref().map(|d| (d.len(), hash_bytes(d))),
        &image.sampler,
        view,
    ))
}

type Slot = (&'static str, fn(&mut StandardMaterial) -> &mut Option<Handle<Image>>);

/// All texture slots of a material.
pub const SLOTS: [Slot; 15] = [
    ("base_color_texture", |m| &mut m.base_color_texture),
    ("emissive_texture", |m| &mut m.emissive_texture),
    ("metallic_roughness_texture", |m| &mut m.metallic_roughness_texture),
    ("diffuse_transmission_texture", |m| &mut m.diffuse_transmission_texture),
    ("specular_transmission_texture", |m| &mut m.specular_transmission_texture),
    ("thickness_texture", |m| &mut m.thickness_texture),
    ("normal_map_texture", |m| &mut m.normal_map_texture),
    ("occlusion_texture", |m| &mut m.occlusion_texture),
    ("specular_texture", |m| &mut m.specular_texture),
    ("specular_tint_texture", |m| &mut m.specular_tint_texture),
    ("clearcoat_texture", |m| &mut m.clearcoat_texture),
    ("clearcoat_roughness_texture", |m| &mut m.clearcoat_roughness_texture),
    ("clearcoat_normal_texture", |m| &mut m.clearcoat_normal_texture),
    ("anisotropy_texture", |m| &mut m.anisotropy_texture),
    ("depth_map", |m| &mut m.depth_map),
];

pub fn images_of(m: &StandardMaterial) -> Vec<AssetId<Image>> {
    let mut m = m.clone();
    SLOTS
        .iter()
        .filter_map(|(_, slot)| slot(&mut m).as_ref().map(|h| h.id()))
        .collect()
}

/// `None` if one of its textures is not available.
pub fn material_parts(
    material: &StandardMaterial,
    images: &Assets<Image>,
) -> Option<Vec<(String, u64)>> {
    let mut m = material.clone();
    let mut parts = Vec::new();
    for (name, slot) in SLOTS {
        if let Some(h) = slot(&mut m).take() {
            parts.push((name.to_string(), image_canon(images.get(&h)?)));
        }
    }
    // Split the debug form by field, so that a difference can be named.
    let text = format!("{m:#?}");
    let mut name = String::new();
    let mut h = Hasher64::default();
    for line in text.lines() {
        let top = line.starts_with("    ") && !line.starts_with("     ");
        if top && !line.trim_start().starts_with(['}', ')', ']']) {
            if !name.is_empty() {
                parts.push((name.clone(), h.finish()));
            }
            name = line.trim().split(':').next().unwrap_or("").to_string();
            h = Hasher64::default();
        }
        h.str(line);
    }
    parts.push((name, h.finish()));
    Some(parts)
}

pub fn parts_hash(p: &[(String, u64)]) -> u64 {
    let mut h = Hasher64::default();
    for (n, v) in p {
        h.str(n);
        h.u64(*v);
    }
    h.finish()
}

/// The parts of the material that stands for a missing one.
pub fn fallback_parts() -> Vec<(String, u64)> {
    material_parts(&StandardMaterial::from(Color::WHITE), &Assets::<Image>::default()).unwrap()
}

/// Whether an affine map is a (non-singular) combination of translation, rotation and scale.
pub fn is_trs(a: &Affine3A) -> bool {
    if !a.is_finite() || a.matrix3.determinant().abs() < 1e-4 {
        return false;
    }
    let (s, r, t) = a.to_scale_rotation_translation();
    let b = Affine3A::from_scale_rotation_translation(s, r, t);
    affine_close(a, &b)
}

pub fn affine_close(a: &Affine3A, b: &Affine3A) -> bool {
    let (x, y) = (a.to_cols_array(), b.to_cols_array());
    x.iter().zip(y).all(|(p, q)| close(*p, q))
}

pub fn close(p: f32, q: f32) -> bool {
    p == q || (p.is_nan() && q.is_nan()) || (p - q).abs() <= TOL * (1.0 + p.abs().max(q.abs()) * 0.1)
}

fn v_close(a: Vec3, b: Vec3) -> bool {
    close(a.x, b.x) && close(a.y, b.y) && close(a.z, b.z)
}

fn tri_close(a: &[Vec3; 3], b: &[Vec3; 3]) -> bool {
    (0..3).all(|i| v_close(a[i], b[i]))
}

/// The same triangle, started at any of its corners.
fn tri_same(a: &[Vec3; 3], b: &[Vec3; 3]) -> bool {
    (0..3).any(|k| tri_close(a, &[b[k], b[(k + 1) % 3], b[(k + 2) % 3]]))
}

pub fn aff_same(a: &AffCanon, b: &AffCanon) -> bool {
    if a.tris.len() != b.tris.len() {
        return false;
    }
    if a.tris.iter().zip(&b.tris).all(|(x, y)| tri_close(x, y)) {
        return true;
    }
    let mut used = vec![false; b.tris.len()];
    a.tris.iter().all(|x| {
        b.tris.iter().enumerate().any(|(i, y)| {
            if !used[i] && tri_same(x, y) {
                used[i] = true;
                true
            } else {
                false
            }
        })
    })
}

fn describe_aff(a: &AffCanon) -> String {
    let (lo, hi) = a.tris.iter().flatten().fold(
        (Vec3::INFINITY, Vec3::NEG_INFINITY),
        |(l, h), v| (l.min(*v), h.max(*v)),
    );
    format!("{} triangles in {lo}..{hi}", a.tris.len())
}

pub fn compare_affectors(expected: &[AffCanon], actual: &[AffCanon]) -> Result<(), String> {
    let expected: Vec<_> = expected.iter().filter(|a| !a.tris.is_empty()).collect();
    let actual: Vec<_> = actual.iter().filter(|a| !a.tris.is_empty()).collect();
    let mut used = vec![false; actual.len()];
    for (n, e) in expected.iter().enumerate() {
        // The position in the list is no part of the contract, but the likeliest match.
        let order = (n..actual.len()).chain(0..n.min(actual.len()));
        let hit = order
            .into_iter()
            .find(|i| !used[*i] && aff_same(e, actual[*i]));
        match hit {
            Some(i) => used[i] = true,
            None => {
                return Err(format!(
                    "affector missing or altered: {} ({} expected, {} present; unmatched: {})",
                    describe_aff(e),
                    expected.len(),
                    actual.len(),
                    actual
                        .iter()
                        .enumerate()
                        .filter(|(i, _)| !used[*i])
                        .map(|(_, a)| describe_aff(a))
                        .take(3)
                        .collect::<Vec<_>>()
                        .join("; ")
                ));
            }
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return Err(format!("affector too many: {}", describe_aff(actual[i])));
    }
    Ok(())
}

fn diff_parts(e: &[(String, u64)], a: &[(String, u64)]) -> String {
    let mut out = Vec::new();
    for (n, v) in e {
        match a.iter().find(|(m, _)| m == n) {
            None => out.push(format!("{n} missing")),
            Some((_, w)) if w != v => out.push(format!("{n} differs")),
            _ => {}
        }
    }
    for (n, _) in a {
        if !e.iter().any(|(m, _)| m == n) {
            out.push(format!("{n} unexpected"));
        }
    }
    out.truncate(6);
    out.join(", ")
}

pub fn compare_visuals(expected: &[VisCanon], actual: &[VisCanon]) -> Result<(), String> {
    let mut used = vec![false; actual.len()];
    // First those with a definite placement, then the others.
    let (trs, other): (Vec<_>, Vec<_>) = expected.iter().enumerate().partition(|(_, v)| v.trs);
    for (n, e) in trs.into_iter().chain(other) {
        let order = (n..actual.len()).chain(0..n.min(actual.len()));
        let hit = order.into_iter().find(|i| {
            let a = &actual[*i];
            !used[*i]
                && a.mesh == e.mesh
                && a.material == e.material
                && (!e.trs || affine_close(&e.affine, &a.affine))
        });
        let Some(i) = hit else {
            let near = actual
                .iter()
                .enumerate()
                .filter(|(i, _)| !used[*i])
                .map(|(_, a)| {
                    let mut d = Vec::new();
                    if a.mesh != e.mesh {
                        d.push(format!("mesh: {}", diff_parts(&e.mesh_parts, &a.mesh_parts)));
                    }
                    if a.material != e.material {
                        d.push(format!(
                            "material: {}",
                            diff_parts(&e.material_parts, &a.material_parts)
                        ));
                    }
                    if e.trs && !affine_close(&e.affine, &a.affine) {
                        d.push(format!("placement: {:?} / {:?}", e.affine, a.affine));
                    }
                    (d.len(), d.join("; "))
                })
                .min_by_key(|x| x.0)
                .map_or("none left".to_string(), |x| x.1);
            return Err(format!(
                "visual missing or altered ({} expected, {} present); nearest differs in {near}",
                expected.len(),
                actual.len()
            ));
        };
        used[i] = true;
    }
    if used.iter().any(|u| !u) {
        return Err(format!(
            "{} visuals expected, {} present",
            expected.len(),
            actual.len()
        ));
    }
    Ok(())
}

impl SceneCanon {
    pub fn same(&self, actual: &SceneCanon) -> Result<(), String> {
        compare_affectors(&self.affectors, &actual.affectors)?;
        compare_visuals(&self.visuals, &actual.visuals)
    }
    /// Exact fingerprint (for "nothing changed" and for the event log), whatever the order.
    pub fn fingerprint(&self) -> u64 {
        let mut sum = self.affectors.len() as u64 * 0x1_0000_0001 + self.visuals.len() as u64;
        for a in &self.affectors {
            let mut h = Hasher64::default();
            h.u64(a.tris.len() as u64);
            for v in a.tris.iter().flatten() {
                for c in v.to_array() {
                    h.u64(c.to_bits() as u64);
                }
            }
            sum = sum.wrapping_add(h.finish());
        }
        for v in &self.visuals {
            let mut h = Hasher64::default();
            h.str("visual");
            for c in v.affine.to_cols_array() {
                h.u64(c.to_bits() as u64);
            }
            h.u64(v.mesh);
            h.u64(v.material);
            sum = sum.wrapping_add(h.finish());
        }
        sum
    }
}
