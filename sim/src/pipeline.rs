//! The documented build pipeline, as a reference for the builds of the editor.

use std::{
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Arc,
        atomic::{AtomicU64, Ordering},
    },
};

use bevy::prelude::*;
use bevy_rerecast::rerecast::{self, DetailNavmesh, NavmeshConfig, PolygonNavmesh, sim};

use crate::{canon::close, rng::Hasher64, util};

#[derive(Clone, Debug)]
pub struct Input {
    pub global: GlobalTransform,
    pub vertices: Vec<Vec3>,
    pub triangles: Vec<[usize; 3]>,
}

#[derive(Clone, Debug)]
pub enum BuildResult {
    Built(Box<Nav>),
    Failed(String),
    Panicked(String),
}

/// A navmesh of the library or of the reference.
#[derive(Clone, Debug, PartialEq, serde::Serialize)]
pub struct Nav {
    pub vertices: Vec<[u16; 3]>,
    pub polygons: Vec<u16>,
    pub neighbors: Vec<u16>,
    pub flags: Vec<u16>,
    pub regions: Vec<u16>,
    pub areas: Vec<u8>,
    pub max_vertices_per_polygon: u16,
    pub aabb: [Vec3; 2],
    pub cell: [f32; 2],
    pub border_size: u16,
    pub max_edge_error: f32,
    /// Base vertex, vertices, base triangle, triangles.
    pub meshes: Vec<[u32; 4]>,
    pub detail_vertices: Vec<Vec3>,
    pub triangles: Vec<[u8; 3]>,
    pub triangle_flags: Vec<u8>,
}

macro_rules! nav {
    ($p:expr, $d:expr) => {{
        let (p, d) = ($p, $d);
        Nav {
            vertices: p.vertices.iter().map(|v| v.to_array()).collect(),
            polygons: p.polygons.clone(),
            neighbors: p.polygon_neighbors.clone(),
            flags: p.flags.clone(),
            regions: p.regions.iter().map(|r| r.bits()).collect(),
            areas: p.areas.iter().map(|a| **a).collect(),
            max_vertices_per_polygon: p.max_vertices_per_polygon,
            aabb: [p.aabb.min.into(), p.aabb.max.into()],
            cell: [p.cell_size, p.cell_height],
            border_size: p.border_size,
            max_edge_error: p.max_edge_error,
            meshes: d
                .meshes
                .iter()
                .map(|m| {
                    [
                        m.base_vertex_index as u32,
                        m.vertex_count as u32,
                        m.base_triangle_index as u32,
                        m.triangle_count as u32,
                    ]
                })
                .collect(),
            detail_vertices: d.vertices.iter().map(|v| (*v).into()).collect(),
            triangles: d.triangles.clone(),
            triangle_flags: d.triangle_flags.iter().map(|f| *f as u8).collect(),
        }
    }};
}

impl Nav {
    pub fn of(p: &PolygonNavmesh, d: &DetailNavmesh) -> Nav {
        nav!(p, d)
    }

    pub fn polygon_count(&self) -> usize {
        self.polygons
            .len()
            .checked_div(self.max_vertices_per_polygon as usize)
            .unwrap_or(0)
    }
}

pub fn nav_hash(p: &PolygonNavmesh, d: &DetailNavmesh) -> u64 {
    let mut h = Hasher64::default();
    h.bytes(&encode(p));
    h.bytes(&encode(d));
    h.finish()
}

pub fn encode<T: serde::Serialize>(v: &T) -> Vec<u8> {
    bincode::serde::encode_to_vec(v, bincode::config::standard()).expect("encode")
}

/// Vertices and triangles in world space.
#[derive(Clone, Default)]
pub struct Geometry {
    pub vertices: Vec<bevy::math::Vec3A>,
    pub indices: Vec<UVec3>,
}

pub fn geometry(inputs: &[Input], f: impl Fn(&Input, Vec3) -> Vec3) -> Geometry {
    let mut t = Geometry::default();
    for i in inputs {
        let base = t.vertices.len() as u32;
        t.vertices.extend(i.vertices.iter().map(|v| bevy::math::Vec3A::from(f(i, *v))));
        t.indices.extend(
            i.triangles
                .iter()
                .map(|x| UVec3::new(x[0] as u32 + base, x[1] as u32 + base, x[2] as u32 + base)),
        );
    }
    t
}

/// All stages, one after another.
macro_rules! stages {
    ($lib:ident, $geometry:expr, $config:expr) => {{
        let (geometry, config) = ($geometry, $config);
        let run = || -> Result<Nav, String> {
            let mut trimesh = $lib::TriMesh::default();
            trimesh.vertices = geometry.vertices.clone();
            trimesh.indices = geometry.indices.clone();
            trimesh.area_types = vec![$lib::AreaType::NOT_WALKABLE; geometry.indices.len()];
            let aabb = trimesh.compute_aabb().ok_or("empty")?;
            trimesh.mark_walkable_triangles(config.walkable_slope_angle);
            let mut hf = $lib::HeightfieldBuilder {
                aabb,
                cell_size: config.cell_size,
                cell_height: config.cell_height,
            }
            .build()
            .map_err(|e| e.to_string())?;
            hf.rasterize_triangles(&trimesh, config.walkable_climb)
                .map_err(|e| e.to_string())?;
            hf.filter_low_hanging_walkable_obstacles(config.walkable_climb);
            hf.filter_ledge_spans(config.walkable_height, config.walkable_climb);
            hf.filter_walkable_low_height_spans(config.walkable_height);
            let mut chf = hf
                .into_compact(config.walkable_height, config.walkable_climb)
                .map_err(|e| e.to_string())?;
            chf.erode_walkable_area(config.walkable_radius);
            chf.build_distance_field();
            chf.build_regions(
                config.border_size,
                config.min_region_area,
                config.merge_region_area,
            )
            .map_err(|e| e.to_string())?;
            let contours = chf.build_contours(
                config.max_simplification_error,
                config.max_edge_len,
                config.contour_flags,
            );
            let poly = contours
                .into_polygon_mesh(config.max_vertices_per_polygon)
                .map_err(|e| e.to_string())?;
            let detail = $lib::DetailNavmesh::new(
                &poly,
                &chf,
                config.detail_sample_dist,
                config.detail_sample_max_error,
            )
            .map_err(|e| e.to_string())?;
            Ok(nav!(&poly, &detail))
        };
        match catch_unwind(AssertUnwindSafe(run)) {
            Ok(Ok(r)) => BuildResult::Built(Box::new(r)),
            Ok(Err(e)) => BuildResult::Failed(e),
            Err(p) => BuildResult::Panicked(util::panic_text(p)),
        }
    }};
}

/// With the stages of the library.
pub fn build(geometry: &Geometry, config: &NavmeshConfig) -> BuildResult {
    stages!(rerecast, geometry, config)
}

/// With the stages as they were when the checks were written; shares neither code nor state with
/// the library.
pub fn build_reference(geometry: &Geometry, config: &rerecast_reference::NavmeshConfig) -> BuildResult {
    stages!(rerecast_reference, geometry, config)
}

fn reference_config(config: &NavmeshConfig) -> rerecast_reference::NavmeshConfig {
    let c = *config;
    // Settings nobody has changed mean what they always have.
    let usual = rerecast::NavmeshConfigBuilder::default();
    let reference = rerecast_reference::NavmeshConfigBuilder::default();
    if usual.build() == c && format!("{usual:?}") == format!("{reference:?}") {
        return reference.build();
    }
    rerecast_reference::NavmeshConfig {
        width: c.width,
        height: c.height,
        tile_size: c.tile_size,
        border_size: c.border_size,
        cell_size: c.cell_size,
        cell_height: c.cell_height,
        aabb: rerecast_reference::Aabb3d {
            min: c.aabb.min,
            max: c.aabb.max,
        },
        walkable_slope_angle: c.walkable_slope_angle,
        walkable_height: c.walkable_height,
        walkable_climb: c.walkable_climb,
        walkable_radius: c.walkable_radius,
        max_edge_len: c.max_edge_len,
        max_simplification_error: c.max_simplification_error,
        min_region_area: c.min_region_area,
        merge_region_area: c.merge_region_area,
        max_vertices_per_polygon: c.max_vertices_per_polygon,
        detail_sample_dist: c.detail_sample_dist,
        detail_sample_max_error: c.detail_sample_max_error,
        contour_flags: rerecast_reference::BuildContoursFlags::from_bits_retain(
            c.contour_flags.bits(),
        ),
    }
}

/// The expected result for each of the usual ways to calculate world positions, and the number of
/// switch points of one build.
pub fn references(inputs: &[Input], config: &NavmeshConfig) -> (Vec<BuildResult>, u64) {
    let ways: [fn(&Input, Vec3) -> Vec3; 3] = [
        |i, v| i.global.compute_transform().transform_point(v),
        |i, v| i.global.transform_point(v),
        |i, v| i.global.compute_matrix().transform_point3(v),
    ];
    let expected = reference_config(config);
    let mut out = Vec::new();
    let mut seen: Vec<Geometry> = Vec::new();
    let mut points = 0;
    for w in ways {
        let t = geometry(inputs, w);
        if t.vertices.iter().any(|v| !v.is_finite()) || seen.iter().any(|s| s.vertices == t.vertices)
        {
            continue;
        }
        if seen.is_empty() {
            let n = Arc::new(AtomicU64::new(0));
            let m = n.clone();
            sim::set_point_hook(Some(Box::new(move || {
                m.fetch_add(1, Ordering::SeqCst);
            })));
            let _ = build(&t, config);
            sim::set_point_hook(None);
            points = n.load(Ordering::SeqCst);
        }
        out.push(build_reference(&t, &expected));
        seen.push(t);
    }
    (out, points)
}

/// Whether tiny differences of the input change the result (then nothing can be said about how
/// positions were rounded).
pub fn sensitive(inputs: &[Input], config: &NavmeshConfig) -> bool {
    let config = reference_config(config);
    let base = build_reference(&geometry(inputs, |i, v| i.global.transform_point(v)), &config);
    [1.000_001f32, 0.999_999, 1.000_003, 0.999_997].iter().any(|k| {
        let d = Vec3::new(1e-6, -1e-6, 1e-6) * (*k - 1.0) * 1e6;
        let other = build_reference(
            &geometry(inputs, |i, v| i.global.transform_point(v) * *k + d),
            &config,
        );
        !same(&base, &other)
    })
}

pub fn same(a: &BuildResult, b: &BuildResult) -> bool {
    match (a, b) {
        (BuildResult::Built(a), BuildResult::Built(b)) => nav_close(a, b),
        (BuildResult::Built(_), _) | (_, BuildResult::Built(_)) => false,
        _ => true,
    }
}

fn v3(a: Vec3, b: Vec3) -> bool {
    close(a.x, b.x) && close(a.y, b.y) && close(a.z, b.z)
}

/// Equal up to the rounding of positions.
pub fn nav_close(a: &Nav, b: &Nav) -> bool {
    let strip = |n: &Nav| {
        let mut n = n.clone();
        n.aabb = Default::default();
        n.detail_vertices.clear();
        n
    };
    v3(a.aabb[0], b.aabb[0])
        && v3(a.aabb[1], b.aabb[1])
        && a.detail_vertices.len() == b.detail_vertices.len()
        && a.detail_vertices.iter().zip(&b.detail_vertices).all(|(a, b)| v3(*a, *b))
        && strip(a) == strip(b)
}
