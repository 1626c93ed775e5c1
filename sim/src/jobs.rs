//! A navmesh build as a sequence of stages, for running builds in pieces.

use bevy::prelude::*;
use bevy_rerecast::rerecast::{
    AreaType, BuildContoursFlags, CompactHeightfield, ContourSet, ConvexVolume, DetailNavmesh,
    Heightfield, HeightfieldBuilder, PolygonNavmesh, TriMesh,
};
use serde::{Deserialize, Serialize};

use crate::{
    gen_assets,
    pipeline::Nav,
    rng::{Hasher64, Rng},
    runner,
};

/// What is built.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct BuildSpec {
    pub scene: u32,
    /// Boxes and other things on the floor.
    pub things: u32,
    pub cfg: u32,
    /// Convex areas.
    pub volumes: u32,
    /// With vertices no sane scene has, unless 0.
    #[serde(default)]
    pub odd: u32,
    /// One setting or one corner is another, unless 0. Two builds that differ in nothing but this
    /// look alike to whatever compares them carelessly.
    #[serde(default)]
    pub vary: u32,
}

/// With at least this many things the ground is a landscape.
const LANDSCAPE: u32 = 100;
/// With at least this many it is a plain, wider than a byte of distances and more than a short of
/// spans.
pub const PLAIN: u32 = 1_000;
/// And with at least this many it is a grid of small plateaus, that many along each side.
pub const PLATEAUS: u32 = 10_000;

impl BuildSpec {
    pub fn random(r: &mut Rng) -> Self {
        BuildSpec {
            scene: r.seed(),
            things: match r.below(1000) {
                0..12 => LANDSCAPE + r.range(5, 60) as u32,
                12..18 => PLAIN + r.below(5) as u32,
                _ => r.below(7) as u32,
            },
            cfg: r.seed(),
            volumes: r.below(3) as u32,
            odd: if r.pct(3) { r.seed() } else { 0 },
            vary: 0,
        }
    }

    /// Nearly this one.
    pub fn variant(&self, r: &mut Rng) -> Self {
        BuildSpec { vary: r.seed().max(1), ..self.clone() }
    }

    pub fn simpler(&self) -> Vec<BuildSpec> {
        let mut out = Vec::new();
        if self.things >= PLATEAUS {
            out.push(BuildSpec { things: PLATEAUS + (self.things - PLATEAUS) / 2, ..self.clone() });
        } else if self.things >= PLAIN {
            out.push(BuildSpec { things: LANDSCAPE, ..self.clone() });
            out.push(BuildSpec { things: PLAIN, ..self.clone() });
        } else if self.things >= LANDSCAPE {
            out.push(BuildSpec { things: LANDSCAPE, ..self.clone() });
            out.push(BuildSpec { things: LANDSCAPE + (self.things - LANDSCAPE) / 2, ..self.clone() });
        }
        if self.things > 0 {
            out.push(BuildSpec { things: 0, ..self.clone() });
            out.push(BuildSpec { things: self.things - 1, ..self.clone() });
        }
        if self.volumes > 0 {
            out.push(BuildSpec { volumes: self.volumes - 1, ..self.clone() });
        }
        if self.odd != 0 {
            out.push(BuildSpec { odd: 0, ..self.clone() });
        }
        if self.vary != 0 {
            out.push(BuildSpec { vary: 0, ..self.clone() });
        }
        if self.cfg != 0 {
            out.push(BuildSpec { cfg: 0, ..self.clone() });
        }
        out
    }
}

#[derive(Clone, Debug)]
pub struct Settings {
    pub cell_size: f32,
    pub cell_height: f32,
    pub slope: f32,
    pub height: u16,
    pub climb: u16,
    pub radius: u16,
    pub border: u16,
    pub min_region: u16,
    pub merge_region: u16,
    pub max_error: f32,
    pub max_edge: u16,
    pub flags: BuildContoursFlags,
    pub nvp: u16,
    pub sample_dist: f32,
    pub sample_error: f32,
}

impl BuildSpec {
    pub fn settings(&self) -> Settings {
        let mut s = self.usual_settings();
        if self.vary == 0 {
            return s;
        }
        let r = &mut Rng::new(self.vary as u64);
        if r.pct(25) {
            // Then it is a corner.
            return s;
        }
        // A hair, or more than that.
        let k = *r.pick(&[0.9999f32, 1.0001, 1.001, 0.9, 1.2]);
        match r.below(14) {
            0 => s.cell_size *= k,
            1 => s.cell_height *= k,
            2 | 3 => s.slope = (s.slope * k).min(1.57),
            4 => s.height = s.height.saturating_add(1),
            5 => s.climb = s.climb.saturating_add(1),
            6 => s.radius = s.radius.saturating_add(1),
            7 => s.border = s.border.saturating_add(1),
            8 => s.min_region = s.min_region.saturating_add(5),
            9 => s.merge_region = s.merge_region.saturating_add(9),
            10 => s.max_error *= k,
            11 => s.max_edge = s.max_edge.saturating_add(3),
            12 => s.nvp = (s.nvp % 12).max(3) + 1,
            _ => {
                s.sample_dist *= k;
                s.sample_error *= k;
            }
        }
        s
    }

    fn usual_settings(&self) -> Settings {
        if self.cfg == 0 {
            return Settings {
                cell_size: 0.4,
                cell_height: 0.2,
                slope: 0.8,
                height: 10,
                climb: 3,
                radius: 1,
                border: 0,
                min_region: 8,
                merge_region: 20,
                max_error: 1.3,
                max_edge: 12,
                flags: BuildContoursFlags::DEFAULT,
                nvp: 6,
                sample_dist: 2.4,
                sample_error: 0.2,
            };
        }
        if self.things >= PLATEAUS {
            // All of them are kept.
            return Settings {
                cell_size: 0.3,
                radius: 0,
                min_region: 0,
                merge_region: 0,
                ..BuildSpec { things: 0, cfg: 0, ..self.clone() }.usual_settings()
            };
        }
        let r = &mut Rng::new(self.cfg as u64);
        // Now and then one setting at the end of what is allowed.
        let far = |r: &mut Rng| r.pct(6);
        let small = self.things < LANDSCAPE;
        Settings {
            cell_size: if far(r) {
                *r.pick(&[if small { 0.1 } else { 0.25 }, 1.0, 2.5])
            } else {
                *r.pick(&[0.25, 0.3, 0.5])
            },
            cell_height: if far(r) { *r.pick(&[0.02, 1.0, 2.0]) } else { *r.pick(&[0.1, 0.2, 0.25]) },
            slope: if far(r) { *r.pick(&[0.0, 0.05, 1.5, 1.57]) } else { *r.pick(&[0.5, 0.8, 1.2]) },
            height: if far(r) { *r.pick(&[30, 200, 5000, 65535]) } else { r.range(3, 12) as u16 },
            climb: if far(r) { *r.pick(&[20, 300, 65535]) } else { r.range(0, 5) as u16 },
            radius: if far(r) { *r.pick(&[6, 20, 100]) } else { r.range(0, 3) as u16 },
            border: if far(r) { *r.pick(&[1, 20, 1000]) } else { *r.pick(&[0, 0, 2, 5]) },
            min_region: if far(r) { *r.pick(&[200, 65535]) } else { r.range(0, 30) as u16 },
            merge_region: if far(r) { *r.pick(&[400, 65535]) } else { r.range(0, 60) as u16 },
            max_error: if far(r) { *r.pick(&[0.0, 0.1, 10.0, 1000.0]) } else { *r.pick(&[0.5, 1.1, 1.3, 2.0]) },
            max_edge: if far(r) { *r.pick(&[1, 2, 255, 256, 400, 1000, 65535]) } else { *r.pick(&[0, 6, 12, 40]) },
            flags: *r.pick(&[
                BuildContoursFlags::DEFAULT,
                BuildContoursFlags::TESSELLATE_AREA_EDGES,
                BuildContoursFlags::all(),
            ]),
            nvp: if far(r) { *r.pick(&[12, 64, 200]) } else { r.range(3, 8) as u16 },
            sample_dist: if far(r) { *r.pick(&[0.9, 10.0, 100.0]) } else { *r.pick(&[0.0, 1.0, 2.0, 4.0]) },
            sample_error: if far(r) { *r.pick(&[0.0, 0.01, 50.0]) } else { *r.pick(&[0.1, 0.3, 1.0]) },
        }
    }

    pub fn trimesh(&self) -> TriMesh {
        let mut t = self.sane_trimesh();
        if self.vary != 0 {
            let r = &mut Rng::new(self.vary as u64);
            if r.pct(25) && !t.vertices.is_empty() {
                let k = r.below(t.vertices.len() as u64) as usize;
                t.vertices[k].y += *r.pick(&[0.001, 0.3, 0.7, 2.0]);
            }
        }
        if self.odd != 0 {
            let r = &mut Rng::new(self.odd as u64);
            if r.pct(25) {
                let (v, i) = gen_assets::tower(r);
                t.extend(TriMesh {
                    vertices: v.into_iter().map(bevy::math::Vec3A::from).collect(),
                    area_types: vec![AreaType::NOT_WALKABLE; i.len() / 3],
                    indices: i.chunks_exact(3).map(|c| UVec3::new(c[0], c[1], c[2])).collect(),
                });
                return t;
            }
            if r.pct(25) {
                // Corners, but hardly any triangles, or none.
                let n = r.below(2) as usize;
                t.indices.truncate(n);
                t.area_types.truncate(n);
                return t;
            }
            let mut v: Vec<[f32; 3]> = t.vertices.iter().map(|v| v.to_array()).collect();
            gen_assets::make_odd(r, &mut v, gen_assets::Odd::Whole);
            for (a, b) in t.vertices.iter_mut().zip(v) {
                *a = bevy::math::Vec3A::from_array(b);
            }
        }
        t
    }

    fn sane_trimesh(&self) -> TriMesh {
        let r = &mut Rng::new(self.scene as u64);
        let mut t = TriMesh::default();
        if self.things >= PLATEAUS {
            let n = self.things - PLATEAUS;
            let size = *r.pick(&[0.6, 0.9]);
            let steps = r.range(1, 6) as u32;
            for (x, z) in (0..n).flat_map(|x| (0..n).map(move |z| (x, z))) {
                let y = ((x * 7 + z * 3) % steps) as f32 * 0.4;
                let [x, z] = [x, z].map(|c| c as f32 * (2.0 * size + 0.8));
                let corners = [(-size, -size), (-size, size), (size, size), (size, -size)];
                t.extend(TriMesh {
                    vertices: corners.map(|(a, b)| bevy::math::Vec3A::new(x + a, y, z + b)).into(),
                    indices: vec![UVec3::new(0, 1, 2), UVec3::new(0, 2, 3)],
                    area_types: vec![AreaType::NOT_WALKABLE; 2],
                });
            }
            return t;
        }
        let mut put = |(v, i): (Vec<[f32; 3]>, Vec<u32>), at: Transform| {
            t.extend(TriMesh {
                vertices: v
                    .into_iter()
                    .map(|p| bevy::math::Vec3A::from(at.transform_point(Vec3::from(p))))
                    .collect(),
                indices: i.chunks_exact(3).map(|c| UVec3::new(c[0], c[1], c[2])).collect(),
                area_types: vec![AreaType::NOT_WALKABLE; i.len() / 3],
            });
        };
        if self.things >= PLAIN {
            let half = r.f(34.0, 46.0);
            let corners = [(-half, -half), (-half, half), (half, half), (half, -half)];
            put((corners.map(|(x, z)| [x, 0.0, z]).into(), vec![0, 1, 2, 0, 2, 3]), Transform::default());
            for _ in PLAIN..self.things {
                // Near the edge, so that there is plenty of room in the middle.
                let a = r.f(0.0, std::f32::consts::TAU);
                let at = Vec3::new(a.cos(), 0.0, a.sin()) * (half * r.f(0.9, 1.2));
                let g = gen_assets::box_geometry(r);
                put(g, Transform::from_translation(at));
            }
            return t;
        }
        if self.things >= LANDSCAPE {
            put(gen_assets::landscape_geometry(r), Transform::default());
            for _ in LANDSCAPE..self.things {
                let g = gen_assets::box_geometry(r);
                put(g, gen_assets::landscape_place(r));
            }
            return t;
        }
        put(gen_assets::floor_geometry(r), Transform::default());
        for _ in 0..self.things {
            let s = r.f(0.5, 1.5);
            let at = Transform::from_xyz(r.f(-4.0, 4.0), r.f(-0.5, 2.5), r.f(-4.0, 4.0))
                .with_rotation(Quat::from_euler(
                    EulerRot::YXZ,
                    r.f(-3.0, 3.0),
                    *r.pick(&[0.0, 0.0, 0.3]),
                    0.0,
                ))
                .with_scale(Vec3::new(s, r.f(0.3, 2.0), s));
            let g = match r.below(5) {
                0 => gen_assets::floor_geometry(r),
                1 => gen_assets::soup_geometry(r),
                _ => gen_assets::box_geometry(r),
            };
            put(g, at);
        }
        t
    }

    fn convex(&self) -> Vec<ConvexVolume> {
        let r = &mut Rng::new(self.scene as u64 ^ 0xC0);
        (0..self.volumes)
            .map(|_| {
                let c = Vec2::new(r.f(-4.0, 4.0), r.f(-4.0, 4.0));
                let n = r.range(3, 6);
                let d = r.f(0.5, 4.0);
                ConvexVolume {
                    vertices: (0..n)
                        .map(|k| {
                            c + Vec2::from_angle(k as f32 / n as f32 * std::f32::consts::TAU) * d
                        })
                        .collect(),
                    min_y: r.f(-3.0, 0.0),
                    max_y: r.f(0.5, 4.0),
                    area: AreaType(r.range(0, 12) as u8),
                }
            })
            .collect()
    }
}

pub const STAGES: usize = 14;
pub const STAGE_NAMES: [&str; STAGES] = [
    "walkable triangles",
    "rasterize",
    "low hanging",
    "ledges",
    "low height",
    "compact",
    "erode",
    "volumes",
    "distance field",
    "regions",
    "contours",
    "polygon mesh",
    "detail mesh",
    "navmesh",
];

/// The products of a build so far. What is not needed any more is gone.
#[derive(Clone, Default)]
pub struct Job {
    pub stage: usize,
    pub tri: Option<TriMesh>,
    pub hf: Option<Heightfield>,
    pub chf: Option<CompactHeightfield>,
    pub contours: Option<ContourSet>,
    pub poly: Option<PolygonNavmesh>,
    pub detail: Option<DetailNavmesh>,
    pub error: Option<String>,
    /// Hash of what each stage gave.
    pub hashes: Vec<u64>,
}

pub fn encode<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serde::encode_to_vec(v, bincode::config::standard()).expect("encode")
}

impl Job {
    pub fn new(spec: &BuildSpec) -> Self {
        Job {
            tri: Some(spec.trimesh()),
            ..default()
        }
    }

    pub fn done(&self) -> bool {
        self.error.is_some() || self.stage >= STAGES
    }

    /// Runs the next stage.
    pub fn step(&mut self, spec: &BuildSpec) {
        let s = spec.settings();
        let begun = std::time::Instant::now();
        if let Err(e) = self.stage(spec, &s) {
            self.error = Some(format!("{}: {e}", STAGE_NAMES[self.stage]));
        }
        if std::env::var_os("RRSIM_STAGES").is_some() {
            eprintln!("{}: {:?} {:?}", STAGE_NAMES[self.stage], begun.elapsed(), self.error);
        }
        self.stage += 1;
    }

    fn stage(&mut self, spec: &BuildSpec, s: &Settings) -> Result<(), String> {
        match self.stage {
            0 => self.tri.as_mut().unwrap().mark_walkable_triangles(s.slope),
            1 => {
                let tri = self.tri.take().unwrap();
                let mut hf = HeightfieldBuilder {
                    aabb: tri.compute_aabb().ok_or("empty")?,
                    cell_size: s.cell_size,
                    cell_height: s.cell_height,
                }
                .build()
                .map_err(|e| e.to_string())?;
                hf.rasterize_triangles(&tri, s.climb).map_err(|e| e.to_string())?;
                self.hf = Some(hf);
            }
            2 => self.hf.as_mut().unwrap().filter_low_hanging_walkable_obstacles(s.climb),
            3 => self.hf.as_mut().unwrap().filter_ledge_spans(s.height, s.climb),
            4 => self.hf.as_mut().unwrap().filter_walkable_low_height_spans(s.height),
            5 => {
                let hf = self.hf.take().unwrap();
                self.chf =
                    Some(hf.into_compact(s.height, s.climb).map_err(|e| e.to_string())?);
            }
            6 => self.chf.as_mut().unwrap().erode_walkable_area(s.radius),
            7 => {
                for v in spec.convex() {
                    self.chf.as_mut().unwrap().mark_convex_poly_area(v);
                }
            }
            8 => self.chf.as_mut().unwrap().build_distance_field(),
            9 => self
                .chf
                .as_mut()
                .unwrap()
                .build_regions(s.border, s.min_region, s.merge_region)
                .map_err(|e| e.to_string())?,
            10 => {
                self.contours = Some(self.chf.as_ref().unwrap().build_contours(
                    s.max_error,
                    s.max_edge,
                    s.flags,
                ));
            }
            11 => {
                let c = self.contours.take().unwrap();
                self.poly = Some(c.into_polygon_mesh(s.nvp).map_err(|e| e.to_string())?);
            }
            12 => {
                self.detail = Some(
                    DetailNavmesh::new(
                        self.poly.as_ref().unwrap(),
                        self.chf.as_ref().unwrap(),
                        s.sample_dist,
                        s.sample_error,
                    )
                    .map_err(|e| e.to_string())?,
                );
                self.chf = None;
            }
            _ => {}
        }
        Ok(())
    }

    /// Notes the hash of everything there is now.
    pub fn note(&mut self) {
        let mut h = Hasher64::default();
        if let Some(e) = &self.error {
            h.str(e);
        }
        // The heightfield's internal span keys are not part of its meaning.
        if let Some(hf) = &self.hf {
            h.str(&heightfield_text(hf));
        }
        // Field by field: what storing leaves out would be left out of a comparison of what is
        // stored, too.
        if let Some(x) = &self.tri {
            h.bytes(&encode(&(&x.vertices, &x.indices)));
            h.bytes(&x.area_types.iter().map(|a| a.0).collect::<Vec<_>>());
        }
        if let Some(x) = &self.chf {
            h.bytes(&encode(&(
                [x.width, x.height, x.walkable_height, x.walkable_climb, x.border_size, x.max_distance],
                x.max_region.bits(),
                [Vec3::from(x.aabb.min), Vec3::from(x.aabb.max)],
                [x.cell_size, x.cell_height],
                x.cells.iter().map(|c| (c.index(), c.count())).collect::<Vec<_>>(),
                x.spans.iter().map(|s| (s.y, s.region.bits(), s.data, s.height())).collect::<Vec<_>>(),
                &x.dist,
                x.areas.iter().map(|a| a.0).collect::<Vec<_>>(),
            )));
        }
        if let Some(x) = &self.contours {
            h.str(&format!("{x:?}"));
        }
        if self.poly.is_some() || self.detail.is_some() {
            let (p, d) = (self.poly.clone().unwrap_or_default(), self.detail.clone().unwrap_or_default());
            h.bytes(&encode(&Nav::of(&p, &d)));
        }
        self.hashes.push(h.finish());
    }
}

/// The spans of all columns.
fn heightfield_text(hf: &Heightfield) -> String {
    use std::fmt::Write;
    let mut s = format!("{}x{} {:?} {} {} ", hf.width, hf.height, hf.aabb, hf.cell_size, hf.cell_height);
    for z in 0..hf.height {
        for x in 0..hf.width {
            let mut k = hf.span_key_at(x, z);
            while let Some(key) = k {
                let span = hf.span(key);
                let _ = write!(s, "{}-{}:{} ", span.min, span.max, span.area.0);
                k = span.next;
            }
            s.push(';');
        }
    }
    s
}

/// The hashes of a build that runs on its own.
pub fn solo(spec: &BuildSpec) -> Vec<u64> {
    let mut j = Job::new(spec);
    while !j.done() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j.step(spec)));
        if r.is_err() {
            j.hashes.push(runner::PANICKED);
            break;
        }
        j.note();
    }
    j.hashes
}
