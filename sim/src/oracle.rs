//! What must be observed of an editor, act by act and frame by frame.

use std::collections::HashMap;

use bevy::{platform::collections::HashMap as BevyMap, prelude::*};
use bevy_rerecast::{
    editor_integration::brp::NavmeshInputResponse,
    rerecast::{DetailNavmesh, PolygonNavmesh},
};

use crate::{
    canon::{self, AffCanon, SceneCanon, VisCanon, close},
    cx::Cx,
    editor::{Act, ActReport, FrameReport, LayerObs, NavObs, Obs, Seg, TOGGLES},
    net::Fault,
    netsim::Served,
    pipeline::{self, BuildResult},
};

/// What is known of one editor.
pub struct Model {
    pub start: Obs,
    pub last: Obs,
    /// Built since the last successful load.
    pub nav_fresh: bool,
    pub loads: u32,
    pub failed_loads: u32,
    pub builds: u32,
    /// Successful loads and builds after faults stopped.
    pub late_loads: u32,
    pub late_builds: u32,
    /// How the loaded scene shares its assets.
    sharing: [usize; 3],
}

/// What is known across editors and histories of one run.
#[derive(Default)]
pub struct Shared {
    census: HashMap<String, ([usize; 4], usize, usize)>,
}

impl Model {
    pub fn new(start: Obs) -> Self {
        Model {
            last: start.clone(),
            start,
            nav_fresh: false,
            loads: 0,
            failed_loads: 0,
            builds: 0,
            late_loads: 0,
            late_builds: 0,
            sharing: [0; 3],
        }
    }
}

#[allow(clippy::too_many_arguments)]
pub fn frame(
    m: &mut Model,
    shared: &mut Shared,
    cx: &mut Cx,
    r: &FrameReport,
    served: &[Vec<Served>],
    connects: u32,
    frame_conns: usize,
    frames_idle: u32,
    late: bool,
) -> bool {
    let mut cur = m.last.clone();
    let mut loads = 0;
    for (a, s) in r.acts.iter().zip(served) {
        if a.act == Act::Load && a.reachable {
            loads += 1;
        }
        if let Some(p) = &a.panic {
            let class = match a.act {
                Act::Load => "load-panic",
                Act::Build => "build-panic",
                _ => "editor-panic",
            };
            cx.violate(class, format!("{:?}: {p}", a.act));
            return false;
        }
        act(m, cx, &cur, a, s, late);
        cx.checks += 1;
        cur = a.post.clone();
    }
    if let Some(p) = &r.panic {
        cx.violate("editor-panic", format!("in a frame: {p}"));
        return false;
    }
    if connects != loads || frame_conns > 0 {
        cx.violate(
            "act-requests",
            format!("{connects} connections to the game for {loads} loads ({frame_conns} outside of them)"),
        );
    }
    let e = &r.end;
    if e.scene_fp != cur.scene_fp {
        cx.violate(
            "scene-drift",
            format!(
                "the loaded scene changed within a frame: {}",
                cur.scene.same(&e.scene).err().unwrap_or_default()
            ),
        );
    }
    if !e.globals_settled {
        cx.violate("scene-placement", "propagated transforms disagree with local ones");
    }
    if e.nav_hash() != cur.nav_hash() {
        cx.violate("act-side-effect", "the navmesh changed without a build");
    }
    if e.layers != cur.layers {
        cx.violate("act-side-effect", "a layer switch changed without being pressed");
    }
    if e.dialogs != cur.dialogs {
        cx.violate("act-side-effect", "a dialog came or went by itself");
    }
    if e.permanent != m.start.permanent {
        cx.violate("load-permanent", "an entity that is not part of a scene was changed or removed");
    }
    layers(m, cx, e);
    m.last = e.clone();
    if frames_idle >= 3 {
        census(m, shared, cx, e);
    }
    cx.checks += 1;
    cx.state(&format!(
        "{}a{}v {} {:?} d{} p{}{} l{} f{} b{}",
        e.scene.affectors.len(),
        e.scene.visuals.len(),
        e.nav.is_some(),
        e.layers,
        e.dialogs,
        e.poly.surface.is_some(),
        e.detail.surface.is_some(),
        m.loads.min(4),
        m.failed_loads.min(4),
        m.builds.min(4),
    ));
    true
}

fn unchanged(pre: &Obs, post: &Obs) -> Result<(), String> {
    if post.scene_fp != pre.scene_fp {
        return Err(format!(
            "the scene changed ({} -> {} affectors, {} -> {} visuals)",
            pre.scene.affectors.len(),
            post.scene.affectors.len(),
            pre.scene.visuals.len(),
            post.scene.visuals.len()
        ));
    }
    if post.nav_hash() != pre.nav_hash() {
        return Err("the navmesh changed".into());
    }
    if post.layers != pre.layers {
        return Err("layer switches changed".into());
    }
    if post.permanent != pre.permanent {
        return Err("permanent entities changed".into());
    }
    if post.shown != pre.shown || post.outlines != pre.outlines {
        return Err("the display of the scene changed".into());
    }
    let l = |o: &LayerObs| (o.visible, o.lines.len(), o.surface.as_ref().map(|s| s.len()));
    if l(&post.poly) != l(&pre.poly) || l(&post.detail) != l(&pre.detail) {
        return Err("the display of the navmesh changed".into());
    }
    Ok(())
}

fn act(m: &mut Model, cx: &mut Cx, pre: &Obs, a: &ActReport, served: &[Served], late: bool) {
    let post = &a.post;
    if !a.reachable {
        if let Err(e) = unchanged(pre, post) {
            cx.violate("act-side-effect", format!("{:?} had no effect, but {e}", a.act));
        }
        return;
    }
    // What this act may change.
    if a.act != Act::Load && post.scene_fp != pre.scene_fp {
        cx.violate("act-side-effect", format!("{:?} changed the scene", a.act));
    }
    match a.act {
        Act::Build => {}
        Act::Load if post.nav.is_none() => {}
        _ => {
            if post.nav_hash() != pre.nav_hash() {
                cx.violate("act-side-effect", format!("{:?} changed the navmesh", a.act));
            }
        }
    }
    let mut want = pre.layers;
    if let Some(i) = TOGGLES.iter().position(|t| *t == a.act) {
        want[i] = !want[i];
    }
    if post.layers != want {
        cx.violate(
            "act-wrong-effect",
            format!("{:?}: switches {:?} -> {:?}", a.act, pre.layers, post.layers),
        );
    }
    let dialogs = match a.act {
        Act::Load | Act::CloseDialog => 0,
        // A second click before the first one shows may open nothing, or another one.
        Act::OpenDialog if pre.dialogs > 0 => post.dialogs.clamp(1, pre.dialogs + 1),
        Act::OpenDialog => 1,
        _ => pre.dialogs,
    };
    if post.dialogs != dialogs {
        cx.violate(
            "act-wrong-effect",
            format!("{:?}: {} dialogs open, {dialogs} expected", a.act, post.dialogs),
        );
    }
    if dialogs == 0 && post.ui > m.start.ui {
        cx.violate(
            "act-wrong-effect",
            format!("{:?}: parts of the dialog remain ({} ui entities, {} at the start)", a.act, post.ui, m.start.ui),
        );
    }
    if a.act != Act::Load && !a.conns.is_empty() {
        cx.violate("act-requests", format!("{:?} contacted the game", a.act));
    }
    for s in served {
        if s.requests > 1 {
            cx.violate("act-requests", format!("{:?} sent {} requests", a.act, s.requests));
        }
    }
    let points = if a.act == Act::Build { a.reference_points } else { 0 };
    if a.act != Act::Build && a.points > 0 {
        cx.violate("act-side-effect", format!("{:?} ran a build", a.act));
    }
    if a.act == Act::Build && points > 0 && a.points >= 2 * points {
        cx.violate("act-wrong-effect", "more than one build ran");
    }
    if a.act == Act::Build
        && points > 0
        && a.points == 0
        && a.reports.is_empty()
        && a.reference.iter().any(|r| matches!(r, BuildResult::Built(_)))
        && post.nav_hash() == pre.nav_hash()
        && !m.nav_fresh
    {
        cx.violate("act-no-effect", "Build was pressed and nothing was built");
    }
    match a.act {
        Act::Load => load(m, cx, pre, a, served, late),
        Act::Build => build(m, cx, pre, a, late),
        _ => {}
    }
}

/// A scene without what does not matter for a navmesh.
fn affectors(s: &SceneCanon) -> SceneCanon {
    SceneCanon { affectors: s.affectors.clone(), ..Default::default() }
}

fn load(m: &mut Model, cx: &mut Cx, pre: &Obs, a: &ActReport, served: &[Served], late: bool) {
    let post = &a.post;
    let clean = served
        .iter()
        .find(|s| s.clean && s.snapshot.is_some() && !s.game_error);
    if post.permanent != pre.permanent {
        cx.violate("load-permanent", "a load changed an entity that is not part of a scene");
    }
    if let Some(s) = clean {
        let snap = s.snapshot.as_ref().unwrap();
        match snap.same(&post.scene) {
            Ok(()) => {
                m.loads += 1;
                m.nav_fresh = false;
                m.sharing = snap.sharing;
                cx.count("load ok");
                if late {
                    m.late_loads += 1;
                }
                if post.shown.iter().all(|_| true) && post.scene.affectors.len() > 1 {
                    cx.count("load of several affectors");
                }
            }
            Err(e) => {
                if post.scene_fp == pre.scene_fp {
                    cx.violate(
                        "load-refused",
                        format!("the game's answer was not taken ({:?}): {}", s.fault, a.reports.join(" / ")),
                    );
                } else if let Err(e) = affectors(snap).same(&affectors(&post.scene)) {
                    cx.violate("load-affectors", e);
                } else {
                    cx.violate("load-mismatch", e);
                }
            }
        }
        return;
    }
    // Something went wrong on the way.
    let sent = served.iter().find_map(|s| s.snapshot.as_ref());
    let what = served
        .first()
        .map_or("no connection".to_string(), |s| format!("{:?}", s.fault));
    if let Some(snap) = sent {
        if snap.same(&post.scene).is_ok() {
            // All of it got through nevertheless (or it is the scene that was there).
            cx.count("load ok despite faults");
            if post.scene_fp != pre.scene_fp || a.reports.is_empty() {
                m.loads += 1;
            }
            m.nav_fresh = false;
            m.sharing = snap.sharing;
            return;
        }
    }
    if let Some(Served { fault: Fault::Inconsistent { kind: 2.., .. }, snapshot: Some(snap), .. }) = served.first() {
        // Textures or attributes that make no sense may be left out.
        if unchanged(pre, post).is_err()
            && affectors(snap).same(&affectors(&post.scene)).is_ok()
            && snap.visuals.len() == post.scene.visuals.len()
        {
            m.loads += 1;
            m.nav_fresh = false;
            m.sharing = [usize::MAX, snap.sharing[0], snap.sharing[1]];
            return;
        }
    }
    match unchanged(pre, post) {
        Ok(()) => {
            m.failed_loads += 1;
            cx.count("load failed");
            if a.reports.is_empty() {
                cx.violate("load-unreported", format!("a load failed silently ({what})"));
            }
        }
        Err(e) => cx.violate(
            "load-corrupt",
            format!("after a failed load ({what}; reports: {}): {e}", a.reports.join(" / ")),
        ),
    }
}

fn build(m: &mut Model, cx: &mut Cx, pre: &Obs, a: &ActReport, late: bool) {
    let post = &a.post;
    if a.reference.is_empty() {
        return;
    }
    let built: Vec<_> = a
        .reference
        .iter()
        .filter_map(|r| match r {
            BuildResult::Built(b) => Some(b),
            _ => None,
        })
        .collect();
    let changed = post.nav_hash() != pre.nav_hash();
    if built.is_empty() {
        if changed {
            cx.violate("build-partial", "a failed build changed the navmesh");
        } else if a.reports.is_empty() {
            cx.violate("build-unreported", "a build failed silently");
        }
        cx.count("build failed");
        return;
    }
    let sensitive = |cx: &mut Cx| {
        let s = pipeline::sensitive(&a.inputs, &a.config);
        if s {
            cx.count("build too sensitive to rounding to be compared");
        }
        s
    };
    let good = post.nav.as_ref().is_some_and(|n| {
        let n = pipeline::Nav::of(&n.poly, &n.detail);
        built.iter().any(|b| pipeline::nav_close(b, &n))
    });
    if good {
        m.nav_fresh = true;
        m.builds += 1;
        if late {
            m.late_builds += 1;
        }
        cx.count("build ok");
        if post.nav.as_ref().is_some_and(|n| n.poly.polygon_count() > 0) {
            cx.count("build with polygons");
        }
        return;
    }
    if sensitive(cx) {
        m.nav_fresh = changed;
        return;
    }
    if !changed {
        cx.violate(
            "build-missing",
            format!("a possible build did not take place: {}", a.reports.join(" / ")),
        );
    } else {
        let n = post.nav.as_ref();
        // Parts of two builds?
        let half = pre.nav.as_ref().zip(n).is_some_and(|(x, y)| {
            let p = pipeline::encode(&x.poly) == pipeline::encode(&y.poly);
            let d = pipeline::encode(&x.detail) == pipeline::encode(&y.detail);
            p != d
        });
        cx.violate(
            if half { "build-partial" } else { "build-mismatch" },
            format!(
                "{:?} polygons, {:?} detail triangles; {} and {} expected",
                n.map(|n| n.poly.polygon_count()),
                n.map(|n| n.detail.triangles.len()),
                built[0].polygon_count(),
                built[0].triangles.len()
            ),
        );
        m.nav_fresh = true;
    }
}

// ---------------------------------------------------------------- layers

fn poly_lines(p: &PolygonNavmesh) -> (Vec<Seg>, Vec<Vec3>, f32) {
    let nvp = p.max_vertices_per_polygon as usize;
    let at = |i: u16| {
        p.aabb.min + p.vertices[i as usize].as_vec3() * Vec3::new(p.cell_size, p.cell_height, p.cell_size)
    };
    let mut out = Vec::new();
    let mut corners = Vec::new();
    let mut area = 0.0;
    for i in 0..p.polygon_count() {
        let v: Vec<Vec3> = p.polygons[i * nvp..(i + 1) * nvp]
            .iter()
            .filter(|i| **i != PolygonNavmesh::NO_INDEX)
            .map(|i| Vec3::from(at(*i)))
            .collect();
        for k in 0..v.len() {
            out.push((v[k], v[(k + 1) % v.len()]));
        }
        for k in 1..v.len().saturating_sub(1) {
            area += flat_area(&[v[0], v[k], v[k + 1]]);
        }
        corners.extend(v);
    }
    (out, corners, area)
}

fn flat_area(t: &[Vec3; 3]) -> f32 {
    let (a, b) = (t[1] - t[0], t[2] - t[0]);
    (a.x * b.z - a.z * b.x).abs() * 0.5
}

fn detail_tris(d: &DetailNavmesh) -> Vec<[Vec3; 3]> {
    let mut out = Vec::new();
    for s in &d.meshes {
        let v = &d.vertices[s.base_vertex_index as usize..][..s.vertex_count as usize];
        for t in &d.triangles[s.base_triangle_index as usize..][..s.triangle_count as usize] {
            out.push([0, 1, 2].map(|k| Vec3::from(v[t[k] as usize])));
        }
    }
    out
}

fn edges(t: &[[Vec3; 3]]) -> Vec<Seg> {
    t.iter()
        .flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])])
        .collect()
}

fn near(a: Vec3, b: Vec3) -> bool {
    close(a.x, b.x) && close(a.y, b.y) && close(a.z, b.z)
}

/// Points of `xs` with an equal one near in `ys`, through a grid.
struct Grid<T> {
    cells: HashMap<[i64; 3], Vec<(Vec3, T)>>,
}

impl<T: Copy> Grid<T> {
    fn new(items: impl Iterator<Item = (Vec3, T)>) -> Self {
        let mut cells: HashMap<[i64; 3], Vec<(Vec3, T)>> = HashMap::new();
        for (p, t) in items {
            cells.entry(Self::cell(p)).or_default().push((p, t));
        }
        Grid { cells }
    }
    fn cell(p: Vec3) -> [i64; 3] {
        p.to_array().map(|c| (c * 4.0).floor().clamp(-1e15, 1e15) as i64)
    }
    fn any(&self, p: Vec3, f: impl Fn(&T) -> bool) -> bool {
        let c = Self::cell(p);
        for dx in -1..=1 {
            for dy in -1..=1 {
                for dz in -1..=1 {
                    if let Some(v) = self.cells.get(&[c[0] + dx, c[1] + dy, c[2] + dz]) {
                        if v.iter().any(|(q, t)| near(p, *q) && f(t)) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
}

fn subset(a: &[Seg], b: &[Seg]) -> bool {
    let g = Grid::new(b.iter().map(|s| ((s.0 + s.1) * 0.5, *s)));
    a.iter().all(|s| {
        near(s.0, s.1)
            || !(s.0.is_finite() && s.1.is_finite())
            || g.any((s.0 + s.1) * 0.5, |t| {
                (near(s.0, t.0) && near(s.1, t.1)) || (near(s.0, t.1) && near(s.1, t.0))
            })
    })
}

/// The same lines, whatever their order, direction and repetition.
fn same_lines(a: &[Seg], b: &[Seg]) -> bool {
    subset(a, b) && subset(b, a)
}

fn same_tris(a: &[[Vec3; 3]], b: &[[Vec3; 3]]) -> bool {
    let solid = |t: &&[Vec3; 3]| !(near(t[0], t[1]) || near(t[1], t[2]) || near(t[2], t[0]));
    let sub = |a: &[[Vec3; 3]], b: &[[Vec3; 3]]| {
        let g = Grid::new(b.iter().map(|t| ((t[0] + t[1] + t[2]) / 3.0, *t)));
        a.iter().filter(solid).all(|t| {
            g.any((t[0] + t[1] + t[2]) / 3.0, |u| {
                t.iter().all(|p| u.iter().any(|q| near(*p, *q)))
            })
        })
    };
    sub(a, b) && sub(b, a)
}

fn layers(m: &Model, cx: &mut Cx, e: &Obs) {
    if e.shown.iter().any(|s| *s != e.layers[0]) {
        cx.violate(
            "layer-visual",
            format!("the visual switch is {}, but shown: {:?}", on(e.layers[0]), e.shown),
        );
    }
    for (i, (lines, aff)) in e.outlines.iter().zip(&e.scene.affectors).enumerate() {
        if !e.layers[1] {
            if !lines.is_empty() {
                cx.violate("layer-affector", format!("affector {i} is outlined with the switch off"));
                break;
            }
        } else if !same_lines(lines, &edges(&aff.tris)) {
            cx.violate(
                "layer-affector",
                format!(
                    "affector {i} has {} triangles, but {} lines are drawn",
                    aff.tris.len(),
                    lines.len()
                ),
            );
            break;
        }
    }
    if !e.poly.present || !e.detail.present {
        cx.violate("layer-missing", "a navmesh layer is gone");
        return;
    }
    let nav = e.nav.as_ref();
    let (pl, dl): (Option<Vec<Seg>>, Option<Vec<Seg>>) = match nav {
        Some(n) if e.layers[2] || e.layers[3] => (
            Some(poly_lines(&n.poly).0),
            Some(edges(&detail_tris(&n.detail))),
        ),
        _ => (None, None),
    };
    for (name, on_, l, want) in [
        ("layer-poly", e.layers[2], &e.poly, pl),
        ("layer-detail", e.layers[3], &e.detail, dl),
    ] {
        if !on_ || nav.is_none() {
            let surface = l.visible && l.surface.as_ref().is_some_and(|s| !s.is_empty());
            if surface || (l.visible && !l.lines.is_empty()) || (!on_ && !l.lines.is_empty()) {
                cx.violate(
                    name,
                    format!(
                        "shown although {} (visible {}, {} lines)",
                        if on_ { "there is no navmesh" } else { "the switch is off" },
                        l.visible,
                        l.lines.len()
                    ),
                );
            }
            continue;
        }
        let n = nav.unwrap();
        let want = want.unwrap();
        let exact = same_lines(&l.lines, &want);
        let lines_ok = exact || (!m.nav_fresh && l.lines.is_empty());
        let surface_ok = match &l.surface {
            None => !m.nav_fresh,
            Some(_) if !l.visible => !m.nav_fresh,
            Some(s) => surface_matches(name, s, n),
        };
        if !lines_ok || !surface_ok || (m.nav_fresh && !l.visible) {
            cx.violate(
                name,
                format!(
                    "the switch is on, but the navmesh is not what is shown (visible {}, {} lines, {} expected, lines {}, surface {})",
                    l.visible,
                    l.lines.len(),
                    want.len(),
                    if lines_ok { "right" } else { "wrong" },
                    if surface_ok { "right" } else { "wrong" }
                ),
            );
        }
    }
}

fn surface_matches(layer: &str, s: &[[Vec3; 3]], n: &NavObs) -> bool {
    if layer == "layer-detail" {
        return same_tris(s, &detail_tris(&n.detail));
    }
    // Polygons may be cut into triangles in any way.
    let (_, corners, area) = poly_lines(&n.poly);
    let g = Grid::new(corners.iter().map(|c| (*c, ())));
    let shown: f32 = s.iter().map(flat_area).sum();
    s.iter().flatten().all(|p| g.any(*p, |_| true)) && (shown - area).abs() <= 1e-2 * (1.0 + area)
}

fn on(b: bool) -> &'static str {
    if b { "on" } else { "off" }
}

// ---------------------------------------------------------------- leaks

fn census(m: &Model, shared: &mut Shared, cx: &mut Cx, e: &Obs) {
    let key = format!(
        "{:x} {:?} {} {} {}",
        e.scene_fp,
        m.sharing,
        e.poly.surface.is_some(),
        e.detail.surface.is_some(),
        e.dialogs,
    );
    let now = (e.assets, e.others, e.ui);
    cx.checks += 1;
    if let Some(old) = shared.census.get(&key) {
        if *old != now {
            cx.violate(
                "leak",
                format!(
                    "the same scene, but meshes/materials/images/gizmos {:?}, {} other and {} ui entities; before: {:?}, {}, {}",
                    now.0, now.1, now.2, old.0, old.1, old.2
                ),
            );
        }
    } else {
        shared.census.insert(key, now);
    }
    // Whatever the history: no more than the scene can use.
    let s = &e.scene;
    let (a, v) = (s.affectors.len(), s.visuals.len());
    let max = [
        m.start.assets[0] + a + v + 2,
        m.start.assets[1] + v + 2,
        m.start.assets[2] + 15 * v,
        m.start.assets[3] + a,
    ];
    for (i, name) in ["meshes", "materials", "images", "gizmos"].iter().enumerate() {
        if e.assets[i] > max[i] {
            cx.violate(
                "leak",
                format!(
                    "{} {name} for {a} affectors and {v} visuals ({} at the start)",
                    e.assets[i], m.start.assets[i]
                ),
            );
        }
    }
    if e.dialogs == 0 && (e.others > m.start.others || e.ui > m.start.ui) {
        cx.violate(
            "leak",
            format!(
                "{} other and {} ui entities; {} and {} at the start",
                e.others, e.ui, m.start.others, m.start.ui
            ),
        );
    }
}

// ---------------------------------------------------------------- answers

/// The scene that an answer describes.
pub fn response_canon(r: &NavmeshInputResponse) -> Result<SceneCanon, String> {
    let mut out = SceneCanon::default();
    for a in &r.affector_meshes {
        let geo: (Vec<Vec3>, Vec<[usize; 3]>) = (
            a.mesh.vertices.iter().map(|v| Vec3::from(*v)).collect(),
            a.mesh
                .indices
                .iter()
                .map(|i| i.to_array().map(|i| i as usize))
                .collect(),
        );
        if geo.1.iter().flatten().any(|i| *i >= geo.0.len()) {
            return Err("an affector refers to a missing vertex".into());
        }
        out.affectors.push(AffCanon {
            tris: canon::world_tris(&geo, &a.transform.affine()),
        });
    }
    for v in &r.visual_meshes {
        let mesh = r
            .meshes
            .get(v.mesh as usize)
            .ok_or("a visual refers to a missing mesh")?
            .clone()
            .into_mesh();
        let mesh_parts = canon::mesh_parts(&mesh);
        let material_parts = match v.material {
            None => canon::fallback_parts(),
            Some(i) => {
                let m = r
                    .materials
                    .get(i as usize)
                    .ok_or("a visual refers to a missing material")?;
                let mut images = Assets::<Image>::default();
                let mut handles: BevyMap<u32, Handle<Image>> = BevyMap::default();
                let m = m
                    .clone()
                    .into_standard_material(&mut handles, &mut images, &r.images);
                canon::material_parts(&m, &images).ok_or("a material refers to a missing image")?
            }
        };
        out.visuals.push(VisCanon {
            affine: v.transform.affine(),
            trs: true,
            mesh: canon::parts_hash(&mesh_parts),
            material: canon::parts_hash(&material_parts),
            mesh_parts,
            material_parts,
        });
    }
    Ok(out)
}

/// Whether an answer is the scene that the game had.
pub fn response_matches(
    r: &NavmeshInputResponse,
    s: &SceneCanon,
) -> Result<(), (&'static str, String)> {
    let got = response_canon(r).map_err(|e| ("game-wrong-answer", e))?;
    canon::compare_affectors(&s.affectors, &got.affectors)
        .map_err(|e| ("game-wrong-affectors", e))?;
    let mut want = s.visuals.clone();
    for v in &mut want {
        v.trs = v.affine.is_finite();
    }
    canon::compare_visuals(&want, &got.visuals).map_err(|e| ("game-wrong-visuals", e))
}
