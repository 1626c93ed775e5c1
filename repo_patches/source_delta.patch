From 0364bcf2af9903ef569aa45cbd8ce3d130ae90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 01/24] Add simulation hooks behind --cfg rerecast_sim

---
 .../src/get_navmesh_input.rs                  |   2 +
 crates/bevy_rerecast_editor/src/main.rs       |   4 +
 crates/bevy_rerecast_editor/src/sim.rs        | 140 ++++++++++++++++++
 .../bevy_rerecast_editor/src/visualization.rs |  14 ++
 crates/rerecast/src/compact_heightfield.rs    |   2 +
 crates/rerecast/src/contours.rs               |   2 +
 crates/rerecast/src/detail_mesh.rs            |   3 +
 crates/rerecast/src/erosion.rs                |   3 +
 crates/rerecast/src/lib.rs                    |  14 ++
 crates/rerecast/src/mark_convex_poly_area.rs  |   1 +
 crates/rerecast/src/poly_mesh.rs              |   2 +
 crates/rerecast/src/pre_filter.rs             |   3 +
 crates/rerecast/src/rasterize.rs              |   1 +
 crates/rerecast/src/sim.rs                    |  29 ++++
 .../rerecast/src/watershed_build_regions.rs   |   8 +
 .../rerecast/src/watershed_distance_field.rs  |   4 +
 16 files changed, 232 insertions(+)
 create mode 100644 crates/bevy_rerecast_editor/src/sim.rs
 create mode 100644 crates/rerecast/src/sim.rs

diff --git a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
index 705830c..f465a11 100644
--- a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
+++ b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
@@ -11,6 +11,8 @@ use bevy_rerecast::editor_integration::{
     transmission::deserialize,
 };
 
+#[cfg(rerecast_sim)]
+use crate::sim::ureq;
 use crate::{build::NavmeshAffector, visualization::VisualMesh};
 
 pub(super) fn plugin(app: &mut App) {
diff --git a/crates/bevy_rerecast_editor/src/main.rs b/crates/bevy_rerecast_editor/src/main.rs
index cc07d26..3e26109 100644
--- a/crates/bevy_rerecast_editor/src/main.rs
+++ b/crates/bevy_rerecast_editor/src/main.rs
@@ -1,4 +1,6 @@
 //! The editor for the Navmesh plugin.
+// `rerecast_sim` is only ever set by the simulation harness.
+#![allow(unexpected_cfgs)]
 
 use bevy::{
     ecs::error::{GLOBAL_ERROR_HANDLER, warn},
@@ -9,6 +11,8 @@ use bevy_rerecast::prelude::*;
 mod build;
 mod camera;
 mod get_navmesh_input;
+#[cfg(rerecast_sim)]
+pub mod sim;
 mod theme;
 mod ui;
 mod visualization;
diff --git a/crates/bevy_rerecast_editor/src/sim.rs b/crates/bevy_rerecast_editor/src/sim.rs
new file mode 100644
index 0000000..9078dc9
--- /dev/null
+++ b/crates/bevy_rerecast_editor/src/sim.rs
@@ -0,0 +1,140 @@
+//! Access for the deterministic simulator. Only compiled with `--cfg rerecast_sim`.
+//!
+//! The simulator compiles this crate as a library, drives the editor headless through its own UI,
+//! and replaces the transport under the editor's HTTP client.
+
+use bevy::prelude::*;
+use bevy_rerecast::rerecast::{DetailNavmesh, NavmeshConfig, PolygonNavmesh};
+
+use crate::{
+    build::{BuildNavmesh, BuildNavmeshConfig, NavmeshAffector},
+    get_navmesh_input::GetNavmeshInput,
+    visualization::{AvailableGizmos, GizmosToDraw, Navmesh, VisualMesh},
+};
+
+/// Stand-in for the `ureq` crate that hands out the agent set for the current thread.
+pub mod ureq {
+    use std::cell::RefCell;
+
+    pub use ::ureq::*;
+
+    thread_local! {
+        static AGENT: RefCell<Option<Agent>> = const { RefCell::new(None) };
+    }
+
+    /// Sets the agent that requests of the current thread use.
+    pub fn set_agent(agent: Option<Agent>) {
+        AGENT.with(|a| *a.borrow_mut() = agent);
+    }
+
+    /// The agent of the current thread.
+    pub fn agent() -> Agent {
+        AGENT
+            .with(|a| a.borrow().clone())
+            .expect("no simulated agent set for this thread")
+    }
+
+    /// Like [`::ureq::post`].
+    pub fn post<T>(uri: T) -> RequestBuilder<typestate::WithBody>
+    where
+        http::Uri: TryFrom<T>,
+        <http::Uri as TryFrom<T>>::Error: Into<http::Error>,
+    {
+        agent().post(uri)
+    }
+
+    /// Like [`::ureq::get`].
+    pub fn get<T>(uri: T) -> RequestBuilder<typestate::WithoutBody>
+    where
+        http::Uri: TryFrom<T>,
+        <http::Uri as TryFrom<T>>::Error: Into<http::Error>,
+    {
+        agent().get(uri)
+    }
+}
+
+/// The editor's switchable layers.
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+#[allow(missing_docs)]
+pub enum Layer {
+    Visual,
+    Affector,
+    PolyMesh,
+    DetailMesh,
+}
+
+impl Layer {
+    fn gizmo(self) -> AvailableGizmos {
+        match self {
+            Layer::Visual => AvailableGizmos::Visual,
+            Layer::Affector => AvailableGizmos::Affector,
+            Layer::PolyMesh => AvailableGizmos::PolyMesh,
+            Layer::DetailMesh => AvailableGizmos::DetailMesh,
+        }
+    }
+}
+
+/// Adds all of the editor's own plugins.
+pub fn plugin(app: &mut App) {
+    app.add_plugins((
+        crate::camera::plugin,
+        crate::get_navmesh_input::plugin,
+        crate::ui::plugin,
+        crate::theme::plugin,
+        crate::build::plugin,
+        crate::visualization::plugin,
+    ));
+}
+
+/// Requests a scene load the way the load dialog does.
+pub fn request_load(world: &mut World) {
+    world.trigger(GetNavmeshInput);
+}
+
+/// Requests a build the way the build button does.
+pub fn request_build(world: &mut World) {
+    world.trigger(BuildNavmesh);
+}
+
+/// Flips a layer switch the way its checkbox does.
+pub fn toggle_layer(world: &mut World, layer: Layer) {
+    world.resource_mut::<GizmosToDraw>().toggle(layer.gizmo());
+}
+
+/// Whether a layer is switched on.
+pub fn layer_enabled(world: &World, layer: Layer) -> bool {
+    world.resource::<GizmosToDraw>().contains(&layer.gizmo())
+}
+
+/// The entities of the polygon mesh layer and the detail mesh layer.
+pub fn layer_entities(world: &mut World) -> (Option<Entity>, Option<Entity>) {
+    crate::visualization::sim_layer_entities(world)
+}
+
+/// The entities of the loaded affectors, in the order in which a build sees them.
+pub fn affectors(world: &mut World) -> Vec<Entity> {
+    world
+        .query_filtered::<Entity, With<NavmeshAffector>>()
+        .iter(world)
+        .collect()
+}
+
+/// The entities of the loaded visuals.
+pub fn visuals(world: &mut World) -> Vec<Entity> {
+    world
+        .query_filtered::<Entity, With<VisualMesh>>()
+        .iter(world)
+        .collect()
+}
+
+/// The current navmesh.
+pub fn navmesh(world: &World) -> Option<(&PolygonNavmesh, &DetailNavmesh)> {
+    world
+        .get_resource::<Navmesh>()
+        .map(|n| (&n.poly_mesh, &n.detail_mesh))
+}
+
+/// The current build settings.
+pub fn build_config(world: &World) -> NavmeshConfig {
+    world.resource::<BuildNavmeshConfig>().build()
+}
diff --git a/crates/bevy_rerecast_editor/src/visualization.rs b/crates/bevy_rerecast_editor/src/visualization.rs
index a55ea98..fdfeac3 100644
--- a/crates/bevy_rerecast_editor/src/visualization.rs
+++ b/crates/bevy_rerecast_editor/src/visualization.rs
@@ -366,3 +366,17 @@ fn hide_visual(mut visibility: Query<&mut Visibility, With<VisualMesh>>) {
 
 #[derive(Component)]
 pub(crate) struct VisualMesh;
+
+/// The entities that hold the polygon mesh layer and the detail mesh layer.
+#[cfg(rerecast_sim)]
+pub(crate) fn sim_layer_entities(world: &mut World) -> (Option<Entity>, Option<Entity>) {
+    let poly = world
+        .query_filtered::<Entity, With<PolyMeshGizmo>>()
+        .iter(world)
+        .next();
+    let detail = world
+        .query_filtered::<Entity, With<DetailMeshGizmo>>()
+        .iter(world)
+        .next();
+    (poly, detail)
+}
diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 8e590a7..07c0d19 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -152,6 +152,7 @@ impl Heightfield {
         let mut cell_index = 0_usize;
         // Fill in cells and spans
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let Some(span_key) = self.span_key_at(x, z) else {
                     // If there are no spans at this cell, just leave the data to index=0, count=0.
@@ -189,6 +190,7 @@ impl Heightfield {
         const MAX_LAYERS: u8 = CompactSpan::NOT_CONNECTED - 1;
         let mut max_layer_index = 0_u32;
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let column_index = x as usize + z as usize * self.width as usize;
                 let cell = &mut compact_heightfield.cells[column_index];
diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index fd24f47..ab27d7d 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -47,6 +47,7 @@ impl CompactHeightfield {
 
         // Mark boundaries
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let cell = &self.cell_at(x, z);
                 for i in cell.index_range() {
@@ -81,6 +82,7 @@ impl CompactHeightfield {
         let mut simplified = Vec::with_capacity(64);
 
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let c = self.cell_at(x, z);
                 for i in c.index_range() {
diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b780369..41aa0d6 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -175,6 +175,7 @@ impl DetailNavmesh {
 
         // Find max size for a polygon area.
         for (i, b) in bounds.iter_mut().enumerate() {
+            sim_point!();
             let p = &mesh.polygons[i * nvp..];
             let Bounds {
                 xmin,
@@ -217,6 +218,7 @@ impl DetailNavmesh {
         dmesh.triangles = Vec::with_capacity(tcap);
 
         for (i, bounds_i) in bounds.iter().enumerate().take(mesh.polygon_count()) {
+            sim_point!();
             let p = &mesh.polygons[i * nvp..];
 
             // Store polygon vertices for processing.
@@ -495,6 +497,7 @@ fn build_poly_detail(
         // error. The procedure stops when all samples are added
         // or when the max error is within treshold.
         for _iter in 0..samples.len() {
+            sim_point!();
             if *nverts >= DetailNavmesh::MAX_VERTICES_PER_SUBMESH {
                 break;
             }
diff --git a/crates/rerecast/src/erosion.rs b/crates/rerecast/src/erosion.rs
index c14d2b6..0ea4c18 100644
--- a/crates/rerecast/src/erosion.rs
+++ b/crates/rerecast/src/erosion.rs
@@ -10,6 +10,7 @@ impl CompactHeightfield {
 
         // Mark boundary cells.
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let cell = self.cell_at(x, z);
                 let max_span_index = cell.index() as usize + cell.count() as usize;
@@ -53,6 +54,7 @@ impl CompactHeightfield {
 
         // Pass 1
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let cell = self.cell_at(x, z);
                 let max_span_index = cell.index() as usize + cell.count() as usize;
@@ -109,6 +111,7 @@ impl CompactHeightfield {
 
         // Pass 2
         for z in (0..self.height).rev() {
+            sim_point!();
             for x in (0..self.width).rev() {
                 let cell = self.cell_at(x, z);
                 let max_span_index = cell.index() as usize + cell.count() as usize;
diff --git a/crates/rerecast/src/lib.rs b/crates/rerecast/src/lib.rs
index 48bcbd4..f06044e 100644
--- a/crates/rerecast/src/lib.rs
+++ b/crates/rerecast/src/lib.rs
@@ -1,4 +1,18 @@
 #![doc = include_str!("../../../readme.md")]
+// `rerecast_sim` is only ever set by the simulation harness.
+#![allow(unexpected_cfgs)]
+
+/// A point at which the deterministic simulator may switch to another thread or abandon the build.
+/// Compiles to nothing unless `--cfg rerecast_sim` is set.
+macro_rules! sim_point {
+    () => {
+        #[cfg(rerecast_sim)]
+        crate::sim::point();
+    };
+}
+
+#[cfg(rerecast_sim)]
+pub mod sim;
 
 mod compact_cell;
 mod compact_heightfield;
diff --git a/crates/rerecast/src/mark_convex_poly_area.rs b/crates/rerecast/src/mark_convex_poly_area.rs
index b53d925..9801b8e 100644
--- a/crates/rerecast/src/mark_convex_poly_area.rs
+++ b/crates/rerecast/src/mark_convex_poly_area.rs
@@ -38,6 +38,7 @@ impl CompactHeightfield {
         // Jan: This comment is taken from the original
         // TODO: Optimize.
         for z in min.z..=max.z {
+            sim_point!();
             for x in min.x..=max.x {
                 let cell_index = (x + z * self.width as i32) as usize;
                 let cell = &self.cells[cell_index];
diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e0fc62..9e589b4 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -247,6 +247,7 @@ impl ContourSet {
         let temp_poly_index = max_verts_per_cont * nvp;
 
         for cont in &self.contours {
+            sim_point!();
             // Skip null contours.
             if cont.vertices.len() < 3 {
                 continue;
@@ -367,6 +368,7 @@ impl ContourSet {
         // Remove edge vertices.
         let mut i = 0;
         while i < mesh.nvertices as usize {
+            sim_point!();
             if vflags[i] {
                 if !mesh.can_remove_vertex(i as u16) {
                     i += 1;
diff --git a/crates/rerecast/src/pre_filter.rs b/crates/rerecast/src/pre_filter.rs
index 1c07d7f..b384579 100644
--- a/crates/rerecast/src/pre_filter.rs
+++ b/crates/rerecast/src/pre_filter.rs
@@ -8,6 +8,7 @@ impl Heightfield {
     /// Adds the walkable flag to spans which are adjacent to a walkable span and the height difference is small enough for the agent to walk over.
     pub fn filter_low_hanging_walkable_obstacles(&mut self, walkable_climb: u16) {
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let mut previous_span: Option<Span> = None;
                 let mut previous_was_walkable = false;
@@ -44,6 +45,7 @@ impl Heightfield {
     pub fn filter_ledge_spans(&mut self, walkable_height: u16, walkable_climb: u16) {
         // Mark spans that are adjacent to a ledge as unwalkable..
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let mut span_key = self.span_key_at(x, z);
                 while let Some(current_span_key) = span_key {
@@ -167,6 +169,7 @@ impl Heightfield {
         // Remove walkable flag from spans which do not have enough
         // space above them for the agent to stand there.
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let mut span_key = self.span_key_at(x, z);
                 while let Some(current_span_key) = span_key {
diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee844e8..d1550c5 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -19,6 +19,7 @@ impl Heightfield {
         walkable_climb: u16,
     ) -> Result<(), RasterizationError> {
         for (i, triangle) in trimesh.indices.iter().enumerate() {
+            sim_point!();
             let triangle = [
                 trimesh.vertices[triangle[0] as usize],
                 trimesh.vertices[triangle[1] as usize],
diff --git a/crates/rerecast/src/sim.rs b/crates/rerecast/src/sim.rs
new file mode 100644
index 0000000..46f154a
--- /dev/null
+++ b/crates/rerecast/src/sim.rs
@@ -0,0 +1,29 @@
+//! Switch points for deterministic simulation. Only compiled with `--cfg rerecast_sim`.
+
+use std::cell::RefCell;
+
+/// What to run at every switch point of the current thread.
+pub type PointHook = Box<dyn FnMut()>;
+
+thread_local! {
+    static HOOK: RefCell<Option<PointHook>> = const { RefCell::new(None) };
+}
+
+/// Sets or removes the hook that runs at every switch point passed by the current thread.
+pub fn set_point_hook(hook: Option<PointHook>) {
+    HOOK.with(|h| *h.borrow_mut() = hook);
+}
+
+pub(crate) fn point() {
+    // Taken out while it runs, so that a hook that unwinds leaves nothing borrowed.
+    let Some(mut hook) = HOOK.with(|h| h.borrow_mut().take()) else {
+        return;
+    };
+    hook();
+    HOOK.with(|h| {
+        let mut h = h.borrow_mut();
+        if h.is_none() {
+            *h = Some(hook);
+        }
+    });
+}
diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 3bedbe0..47a8ab2 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -94,6 +94,7 @@ impl CompactHeightfield {
 
         let mut s_id = -1_i32;
         while level > 0 {
+            sim_point!();
             level = level.saturating_sub(2);
             s_id = (s_id + 1) & (NB_STACKS as i32 - 1);
 
@@ -190,6 +191,7 @@ impl CompactHeightfield {
 
         // Find edge of a region and find connections around the contour.
         for z in 0..h {
+            sim_point!();
             for x in 0..w {
                 let cell = self.cell_at(x, z);
                 let max_index = cell.index() as usize + cell.count() as usize;
@@ -239,6 +241,7 @@ impl CompactHeightfield {
         let mut stack = Vec::with_capacity(32);
         let mut trace = Vec::with_capacity(32);
         for i in 0..nreg as usize {
+            sim_point!();
             let reg: &mut Region = &mut regions[i];
             if reg.id == RegionId::NONE || reg.id.intersects(RegionId::BORDER_REGION) {
                 continue;
@@ -300,6 +303,7 @@ impl CompactHeightfield {
 
         // Merge too small regions to neighbour regions.
         loop {
+            sim_point!();
             let mut merge_count = 0;
             for i in 0..nreg as usize {
                 let reg = regions[i].clone();
@@ -388,6 +392,7 @@ impl CompactHeightfield {
 
         let mut reg_id_gen = 0;
         for i in 0..nreg as usize {
+            sim_point!();
             if !regions[i].remap {
                 continue;
             }
@@ -659,6 +664,7 @@ impl CompactHeightfield {
 
         // put all cells in the level range into the appropriate stacks
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let cell = self.cell_at(x, z);
                 let max_index = cell.index() as usize + cell.count() as usize;
@@ -696,6 +702,7 @@ impl CompactHeightfield {
             // Find cells revealed by the raised level.
             stack.clear();
             for z in 0..self.height {
+                sim_point!();
                 for x in 0..self.width {
                     let cell = self.cell_at(x, z);
                     let max_index = cell.index() as usize + cell.count() as usize;
@@ -731,6 +738,7 @@ impl CompactHeightfield {
         let mut iter = 0;
         // Jan: I don't think stack is ever made smaller? Is this just an `if` in disguise?
         while !stack.is_empty() {
+            sim_point!();
             let mut failed = 0;
             dirty_entries.clear();
 
diff --git a/crates/rerecast/src/watershed_distance_field.rs b/crates/rerecast/src/watershed_distance_field.rs
index 1bbf117..a83f78b 100644
--- a/crates/rerecast/src/watershed_distance_field.rs
+++ b/crates/rerecast/src/watershed_distance_field.rs
@@ -29,6 +29,7 @@ impl CompactHeightfield {
 
         // Mark boundary cells.
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let cell = self.cell_at(x, z);
                 let max_index = cell.index() as usize + cell.count() as usize;
@@ -60,6 +61,7 @@ impl CompactHeightfield {
 
         // Pass 1
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let cell = self.cell_at(x, z);
                 let max_index = cell.index() as usize + cell.count() as usize;
@@ -104,6 +106,7 @@ impl CompactHeightfield {
 
         // Pass 2
         for z in (0..self.height).rev() {
+            sim_point!();
             for x in (0..self.width).rev() {
                 let cell = self.cell_at(x, z);
                 let max_index = cell.index() as usize + cell.count() as usize;
@@ -154,6 +157,7 @@ impl CompactHeightfield {
         let mut result = vec![0; distance_field.len()];
 
         for z in 0..self.height {
+            sim_point!();
             for x in 0..self.width {
                 let cell = self.cell_at(x, z);
                 let max_index = cell.index() as usize + cell.count() as usize;
-- 
2.43.0


From e7f96901e822bdf793451c282956f0056ccfa43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 02/24] fix: apply affector transforms to the vertices when
 loading a scene

A Transform cannot represent shear, becomes NaN for a zero scale, and only
takes effect with the next propagation, so that a build in the same frame
used untransformed affectors.
---
 crates/bevy_rerecast_editor/src/get_navmesh_input.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
index f465a11..d1275d5 100644
--- a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
+++ b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
@@ -65,8 +65,16 @@ fn fetch_navmesh_input(
     }
 
     for affector in response.affector_meshes {
+        // Apply the transform to the vertices: a `Transform` could not represent all of it, and
+        // would only take effect with the next transform propagation.
+        let vertices: Vec<Vec3> = affector
+            .mesh
+            .vertices
+            .into_iter()
+            .map(|vertex| affector.transform.transform_point(vertex.into()))
+            .collect();
         let mesh = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all())
-            .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, affector.mesh.vertices)
+            .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, vertices)
             .with_inserted_indices(Indices::U32(
                 affector
                     .mesh
@@ -77,7 +85,7 @@ fn fetch_navmesh_input(
             ));
 
         commands.spawn((
-            affector.transform.compute_transform(),
+            Transform::IDENTITY,
             Mesh3d(meshes.add(mesh)),
             NavmeshAffector,
             Visibility::Hidden,
-- 
2.43.0


From 821f2552c793e15027c22a4bccc37a8c13e74089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 03/24] fix: do not panic building the distance field of a
 heightfield without spans

---
 crates/rerecast/src/watershed_distance_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_distance_field.rs b/crates/rerecast/src/watershed_distance_field.rs
index a83f78b..83d9415 100644
--- a/crates/rerecast/src/watershed_distance_field.rs
+++ b/crates/rerecast/src/watershed_distance_field.rs
@@ -18,7 +18,7 @@ impl CompactHeightfield {
     pub fn build_distance_field(&mut self) {
         let distance_field = self.calculate_distance_field();
         // Safety: Unwrap is fine as long as `spans` is not empty, as `distance_field` has the same length
-        self.max_distance = *distance_field.iter().max().unwrap();
+        self.max_distance = distance_field.iter().copied().max().unwrap_or(0);
         let distance_field = self.box_blur(1, &distance_field);
         self.dist = distance_field;
     }
-- 
2.43.0


From ec3c8124c6746b4e39322cfea0e040fe4d0ab951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 04/24] fix: grow the contour set when regions have more
 contours than expected

---
 crates/rerecast/src/contours.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index ab27d7d..fd9a7a3 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -118,7 +118,8 @@ impl CompactHeightfield {
                             // This happens when a region has holes.
                             let old_max = max_contours;
                             max_contours *= 2;
-                            cset.contours.truncate(max_contours as usize);
+                            cset.contours
+                                .resize(max_contours as usize, Contour::default());
 
                             tracing::warn!(
                                 "Region has holes. Expanding contour set from max {old_max} to max {max_contours}"
-- 
2.43.0


From 9cbee95fe188be43cb4f9eb584f525935a263fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 05/24] fix: do not underflow when the border covers the whole
 heightfield

---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index fd9a7a3..b4d4aa2 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -24,8 +24,8 @@ impl CompactHeightfield {
             aabb: self.aabb,
             cell_size: self.cell_size,
             cell_height: self.cell_height,
-            width: self.width - self.border_size * 2,
-            height: self.height - self.border_size * 2,
+            width: self.width.saturating_sub(self.border_size.saturating_mul(2)),
+            height: self.height.saturating_sub(self.border_size.saturating_mul(2)),
             border_size: self.border_size,
             max_error,
         };
-- 
2.43.0


From 425c19361027a5baede5a49807dbf72009a4c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 06/24] fix: do not panic rasterizing into a heightfield
 without columns

---
 crates/rerecast/src/rasterize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index d1550c5..e8e0901 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -43,6 +43,10 @@ impl Heightfield {
         if !self.aabb.intersects(&aabb) {
             return Ok(());
         }
+        // A heightfield narrower than half a cell has no columns to rasterize into.
+        if self.width == 0 || self.height == 0 {
+            return Ok(());
+        }
 
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
-- 
2.43.0


From 7a061e5027ce7f360161396ca9614c9ad9daffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 07/24] fix: apply the layer switches to newly loaded scenes

---
 .../bevy_rerecast_editor/src/visualization.rs  | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/visualization.rs b/crates/bevy_rerecast_editor/src/visualization.rs
index fdfeac3..b481434 100644
--- a/crates/bevy_rerecast_editor/src/visualization.rs
+++ b/crates/bevy_rerecast_editor/src/visualization.rs
@@ -29,12 +29,22 @@ pub(super) fn plugin(app: &mut App) {
                     resource_changed::<Navmesh>.or(toggled_gizmo_on(AvailableGizmos::DetailMesh)),
                 ),
             )),
-            draw_navmesh_affector.run_if(toggled_gizmo_on(AvailableGizmos::Affector)),
+            draw_navmesh_affector.run_if(
+                toggled_gizmo_on(AvailableGizmos::Affector).or(gizmo_enabled(
+                    AvailableGizmos::Affector,
+                )
+                .and(any_added::<NavmeshAffector>)),
+            ),
             draw_visual.run_if(toggled_gizmo_on(AvailableGizmos::Visual)),
             hide_poly_mesh.run_if(toggled_gizmo_off(AvailableGizmos::PolyMesh)),
             hide_detail_mesh.run_if(toggled_gizmo_off(AvailableGizmos::DetailMesh)),
             hide_affector.run_if(toggled_gizmo_off(AvailableGizmos::Affector)),
-            hide_visual.run_if(toggled_gizmo_off(AvailableGizmos::Visual)),
+            hide_visual.run_if(
+                toggled_gizmo_off(AvailableGizmos::Visual).or(not(gizmo_enabled(
+                    AvailableGizmos::Visual,
+                ))
+                .and(any_added::<VisualMesh>)),
+            ),
         ),
     );
 }
@@ -82,6 +92,10 @@ fn gizmo_enabled(gizmo: AvailableGizmos) -> impl Condition<()> {
     IntoSystem::into_system(move |gizmos: Res<GizmosToDraw>| gizmos.contains(&gizmo))
 }
 
+fn any_added<C: Component>(added: Query<(), Added<C>>) -> bool {
+    !added.is_empty()
+}
+
 impl Default for GizmosToDraw {
     fn default() -> Self {
         Self(
-- 
2.43.0


From 6a63c19f4e2defc428946a963f92b5a26b4e1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 08/24] fix: place each child of a compound collider by its own
 isometry

---
 crates/avian_rerecast/src/collider_to_trimesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/avian_rerecast/src/collider_to_trimesh.rs b/crates/avian_rerecast/src/collider_to_trimesh.rs
index d8c84e2..6c6e662 100644
--- a/crates/avian_rerecast/src/collider_to_trimesh.rs
+++ b/crates/avian_rerecast/src/collider_to_trimesh.rs
@@ -93,7 +93,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
     compound.shapes().iter().fold(
         TriMesh::default(),
         |mut compound_trimesh, (isometry, shape)| {
-            let Some(trimesh) =
+            let Some(mut trimesh) =
                 // No need to track recursive compounds because parry panics on nested compounds anyways lol
                 shape_to_trimesh(&shape.as_typed_shape(), subdivisions)
             else {
@@ -105,7 +105,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
                 rotation: Quat::from(isometry.rotation),
             };
 
-            apply_isometry(&mut compound_trimesh, isometry);
+            apply_isometry(&mut trimesh, isometry);
             compound_trimesh.extend(trimesh);
             compound_trimesh
         },
-- 
2.43.0


From b9523546b822808e8a71ef0922b4474af0f47f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 09/24] Simulation hook: leave the HTTP client to the harness

---
 .../src/get_navmesh_input.rs                  |  2 -
 crates/bevy_rerecast_editor/src/sim.rs        | 44 +------------------
 2 files changed, 1 insertion(+), 45 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
index d1275d5..baeb9c2 100644
--- a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
+++ b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
@@ -11,8 +11,6 @@ use bevy_rerecast::editor_integration::{
     transmission::deserialize,
 };
 
-#[cfg(rerecast_sim)]
-use crate::sim::ureq;
 use crate::{build::NavmeshAffector, visualization::VisualMesh};
 
 pub(super) fn plugin(app: &mut App) {
diff --git a/crates/bevy_rerecast_editor/src/sim.rs b/crates/bevy_rerecast_editor/src/sim.rs
index 9078dc9..c0ad970 100644
--- a/crates/bevy_rerecast_editor/src/sim.rs
+++ b/crates/bevy_rerecast_editor/src/sim.rs
@@ -1,7 +1,6 @@
 //! Access for the deterministic simulator. Only compiled with `--cfg rerecast_sim`.
 //!
-//! The simulator compiles this crate as a library, drives the editor headless through its own UI,
-//! and replaces the transport under the editor's HTTP client.
+//! The simulator compiles this crate as a library and drives the editor headless.
 
 use bevy::prelude::*;
 use bevy_rerecast::rerecast::{DetailNavmesh, NavmeshConfig, PolygonNavmesh};
@@ -12,47 +11,6 @@ use crate::{
     visualization::{AvailableGizmos, GizmosToDraw, Navmesh, VisualMesh},
 };
 
-/// Stand-in for the `ureq` crate that hands out the agent set for the current thread.
-pub mod ureq {
-    use std::cell::RefCell;
-
-    pub use ::ureq::*;
-
-    thread_local! {
-        static AGENT: RefCell<Option<Agent>> = const { RefCell::new(None) };
-    }
-
-    /// Sets the agent that requests of the current thread use.
-    pub fn set_agent(agent: Option<Agent>) {
-        AGENT.with(|a| *a.borrow_mut() = agent);
-    }
-
-    /// The agent of the current thread.
-    pub fn agent() -> Agent {
-        AGENT
-            .with(|a| a.borrow().clone())
-            .expect("no simulated agent set for this thread")
-    }
-
-    /// Like [`::ureq::post`].
-    pub fn post<T>(uri: T) -> RequestBuilder<typestate::WithBody>
-    where
-        http::Uri: TryFrom<T>,
-        <http::Uri as TryFrom<T>>::Error: Into<http::Error>,
-    {
-        agent().post(uri)
-    }
-
-    /// Like [`::ureq::get`].
-    pub fn get<T>(uri: T) -> RequestBuilder<typestate::WithoutBody>
-    where
-        http::Uri: TryFrom<T>,
-        <http::Uri as TryFrom<T>>::Error: Into<http::Error>,
-    {
-        agent().get(uri)
-    }
-}
-
 /// The editor's switchable layers.
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 #[allow(missing_docs)]
-- 
2.43.0


From 869e4244568c1259bebbafdf78eccbd86de932d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 10/24] fix: removal of border vertices from the polygon mesh

The loop that joins the edges of the hole never advanced past an edge that
did not match, so it did not end, and dropped the wrong edge otherwise.
Edges were taken from vertices beyond the polygon, unused entries counted
as open edges, the new polygons could lie outside the shortened storage,
and removing the first vertex underflowed.
---
 crates/rerecast/src/poly_mesh.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e589b4..7274f96 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -364,7 +364,6 @@ impl ContourSet {
             }
         }
 
-        mesh.polygons.truncate(mesh.npolys * nvp * 2);
         // Remove edge vertices.
         let mut i = 0;
         while i < mesh.nvertices as usize {
@@ -379,7 +378,7 @@ impl ContourSet {
                 // Note: nverts is already decremented inside removeVertex()!
                 // Fixup vertex flags
                 vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);
-                i -= 1;
+                continue;
             }
 
             i += 1;
@@ -561,7 +560,8 @@ impl InternalPolygonNavmesh {
                     continue;
                 }
                 // Collect edges which does not touch the removed vertex.
-                for (j, k) in (0..nv).zip(nv - 1..) {
+                for j in 0..nv {
+                    let k = prev(j, nv);
                     if p[j] != rem && p[k] != rem {
                         let e = &mut edges[nedges];
                         e.polygon1 = p[k];
@@ -635,20 +635,20 @@ impl InternalPolygonNavmesh {
                     push_front(r, &mut hreg, &mut nhreg);
                     push_front(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 } else if hole[nhole - 1] == ea {
                     // The segment matches the end of the hole boundary.
                     push_back(eb, &mut hole, &mut nhole);
                     push_back(r, &mut hreg, &mut nhreg);
                     push_back(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 }
                 if add {
                     // The edge segment was added, remove it.
                     edges[i] = edges[nedges - 1].clone();
                     nedges -= 1;
                     match_ = true;
+                } else {
+                    i += 1;
                 }
             }
             if !match_ {
@@ -824,7 +824,8 @@ impl InternalPolygonNavmesh {
             let nv = count_poly_verts(p, nvp);
 
             // Collect edges which touches the removed vertex.
-            for (j, k) in (0..nv).zip((nv - 1)..) {
+            for j in 0..nv {
+                let k = prev(j, nv);
                 if !(p[j] == rem || p[k] == rem) {
                     continue;
                 }
@@ -856,7 +857,7 @@ impl InternalPolygonNavmesh {
         // There should be no more than 2 open edges.
         // This catches the case that two non-adjacent polygons
         // share the removed vertex. In that case, do not remove the vertex.
-        let num_open_edges = edges.iter().filter(|e| e[2] < 2).count();
+        let num_open_edges = edges.iter().take(nedges).filter(|e| e[2] < 2).count();
         num_open_edges <= 2
     }
 }
-- 
2.43.0


From e214d1dca6a090267d9a2beb7d38f5afd33d004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 11/24] fix: look for the height of a polygon at its own
 vertices

The seed was looked for at the vertices of the previously built detail
mesh, in other units, which panics or seeds somewhere else.
---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 41aa0d6..e21ec26 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -243,7 +243,7 @@ impl DetailNavmesh {
                 chf,
                 p,
                 npoly,
-                &verts,
+                &mesh.vertices,
                 border_size,
                 &mut arr,
                 mesh.regions[i],
@@ -1240,7 +1240,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         queue: &mut Vec<(i32, i32, usize)>,
         region: RegionId,
@@ -1349,7 +1349,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         array: &mut Vec<(i32, i32, usize)>,
     ) {
-- 
2.43.0


From 660405ac3d4e833a580a2bbdce93062414ac18d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 12/24] fix: detail meshes without samples

With a sample distance of 0 the outline of each polygon stayed empty,
and its triangulation panicked.
---
 crates/rerecast/src/detail_mesh.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index e21ec26..4ee5853 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -440,6 +440,12 @@ fn build_poly_detail(
             }
             j = i;
         }
+    } else {
+        // Without samples, the outline consists of the polygon's own vertices.
+        for (i, vertex) in hull.iter_mut().enumerate().take(nin) {
+            *vertex = i;
+        }
+        nhull = nin;
     }
 
     // If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From f21cb37aae50f7c13e02955a85849caccf56cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 13/24] Simulation hook: look at the waiting generation
 requests

---
 crates/bevy_rerecast_core/src/generator.rs | 7 +++++++
 crates/bevy_rerecast_core/src/lib.rs       | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/crates/bevy_rerecast_core/src/generator.rs b/crates/bevy_rerecast_core/src/generator.rs
index c5bff7e..f134ad9 100644
--- a/crates/bevy_rerecast_core/src/generator.rs
+++ b/crates/bevy_rerecast_core/src/generator.rs
@@ -38,3 +38,10 @@ impl<'w, Marker: 'static> NavmeshGenerator<'w, Marker> {
 
 #[derive(Resource, Default, Deref, DerefMut)]
 struct NavmeshQueue(VecDeque<(Handle<Navmesh>, NavmeshConfig)>);
+
+/// The requests that wait in the queue. Only for the deterministic simulator.
+#[cfg(rerecast_sim)]
+pub fn sim_queued(world: &World) -> Vec<(AssetId<Navmesh>, NavmeshConfig)> {
+    let queue = world.resource::<NavmeshQueue>();
+    queue.iter().map(|(h, c)| (h.id(), *c)).collect()
+}
diff --git a/crates/bevy_rerecast_core/src/lib.rs b/crates/bevy_rerecast_core/src/lib.rs
index a230063..a0a7875 100644
--- a/crates/bevy_rerecast_core/src/lib.rs
+++ b/crates/bevy_rerecast_core/src/lib.rs
@@ -1,4 +1,6 @@
 #![doc = include_str!("../../../readme.md")]
+// `rerecast_sim` is only ever set by the simulation harness.
+#![allow(unexpected_cfgs)]
 
 use bevy_app::prelude::*;
 use bevy_asset::prelude::*;
-- 
2.43.0


From 9c0d0925f68e24507b033c33a1db6b239d470189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 14/24] fix: keep the cursor grabbed when the button is
 released and pressed again within a frame

---
 .../src/camera/camera_controller.rs                   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/camera/camera_controller.rs b/crates/bevy_rerecast_editor/src/camera/camera_controller.rs
index d37981b..7bab152 100644
--- a/crates/bevy_rerecast_editor/src/camera/camera_controller.rs
+++ b/crates/bevy_rerecast_editor/src/camera/camera_controller.rs
@@ -189,12 +189,11 @@ fn run_camera_controller(
         *toggle_cursor_grab = !*toggle_cursor_grab;
         cursor_grab_change = true;
     }
-    if mouse_button_input.just_pressed(controller.mouse_key_cursor_grab) {
-        *mouse_cursor_grab = true;
-        cursor_grab_change = true;
-    }
-    if mouse_button_input.just_released(controller.mouse_key_cursor_grab) {
-        *mouse_cursor_grab = false;
+    if mouse_button_input.just_pressed(controller.mouse_key_cursor_grab)
+        || mouse_button_input.just_released(controller.mouse_key_cursor_grab)
+    {
+        // Both can happen in the same frame, in either order.
+        *mouse_cursor_grab = mouse_button_input.pressed(controller.mouse_key_cursor_grab);
         cursor_grab_change = true;
     }
     let cursor_grab = *mouse_cursor_grab || *toggle_cursor_grab;
-- 
2.43.0


From 0c37572eacc17393276ab1edeeb44570fe5323cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 15/24] fix: reserve space for detail meshes without
 underflowing

The space still needed was calculated from the capacity, which grows faster than the running
estimate: a scene of a few hundred polygons on hilly ground panicked.
---
 crates/rerecast/src/detail_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 4ee5853..817cd10 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -290,7 +290,7 @@ impl DetailNavmesh {
                 while dmesh.vertices.len() + nverts > vcap {
                     vcap += 256;
                 }
-                dmesh.vertices.reserve(vcap - dmesh.vertices.capacity());
+                dmesh.vertices.reserve(vcap - dmesh.vertices.len());
             }
             for vert in &verts[..nverts] {
                 dmesh.vertices.push(Vec3::from(*vert));
@@ -301,7 +301,7 @@ impl DetailNavmesh {
                 while dmesh.triangles.len() + tris.len() > tcap {
                     tcap += 256;
                 }
-                dmesh.triangles.reserve(tcap - dmesh.triangles.capacity());
+                dmesh.triangles.reserve(tcap - dmesh.triangles.len());
             }
             for tri in &tris {
                 dmesh.triangles.push([tri[0], tri[1], tri[2]]);
-- 
2.43.0


From 2c8855bfbd6b880dd44d619cc6835513422d2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 16/24] fix: square the maximum edge length without overflowing

Edge lengths above 255 voxels overflowed: the documentation suggests to start with a really high value.
---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index b4d4aa2..8bdb471 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -447,8 +447,8 @@ fn simplify_contour(
                 && area.intersects(RegionVertexId::AREA_BORDER);
             let should_tesselate = is_wall_edge || is_edge_between_areas;
             if should_tesselate {
-                let d = b.xz().as_ivec2() - a.xz().as_ivec2();
-                if d.length_squared() > (max_edge_len * max_edge_len) as i32 {
+                let d = b.xz().as_i64vec2() - a.xz().as_i64vec2();
+                if d.length_squared() > i64::from(max_edge_len).pow(2) {
                     // Round based on the segments in lexilogical order so that the
                     // max tesselation is consistent regardless in which direction
                     // segments are traversed.
-- 
2.43.0


From 9a53878d5d7a3035aae4ee42e53a656f54058198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 17/24] fix: report a heightfield too wide for its column
 addressing instead of panicking

Rasterization addresses columns with i16. Scenes with more than 32767 columns
on an axis, or with non-finite vertices, overflowed that and panicked.
---
 crates/rerecast/src/heightfield.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 392a409..3950e28 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -260,6 +260,11 @@ impl HeightfieldBuilder {
     pub fn build(self) -> Result<Heightfield, HeightfieldBuilderError> {
         let width = (self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5;
         let height = (self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5;
+        // Columns are addressed with `i16` when rasterizing. The comparison also fails for NaN.
+        let max_extent = i16::MAX as f32;
+        if !(width <= max_extent && height <= max_extent) {
+            return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
+        }
         let column_count = width as u128 * height as u128;
         if column_count > usize::MAX as u128 {
             return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
@@ -281,7 +286,7 @@ impl HeightfieldBuilder {
 #[derive(Error, Debug)]
 pub enum HeightfieldBuilderError {
     /// Happens when the column count is too large.
-    #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but max is {max}", column_count = width * height, max = usize::MAX)]
+    #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but max is {max}, with at most {max_extent} per axis", column_count = width * height, max = usize::MAX, max_extent = i16::MAX)]
     ColumnCountTooLarge {
         /// The width of the heightfield along the x-axis in cell units
         width: f32,
-- 
2.43.0


From eeb5c0e6b7b321374450ca567a1906ae22e247a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 18/24] fix: keep room for the span at the top of the height
 grid

A triangle higher than 65535 cells above the lowest point of the scene made
the clamp of the upper end panic, because its minimum exceeded its maximum.
---
 crates/rerecast/src/rasterize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index e8e0901..4814e9d 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -160,8 +160,9 @@ impl Heightfield {
                 span_max = span_max.min(by);
 
                 // Snap the span to the heightfield height grid.
+                // There must be room for the span above its lower end.
                 let span_min_cell_index = ((span_min * inverse_cell_height).floor() as i32)
-                    .clamp(0, Span::MAX_HEIGHT as i32)
+                    .clamp(0, Span::MAX_HEIGHT as i32 - 1)
                     as u16;
                 let span_max_cell_index = ((span_max * inverse_cell_height).ceil() as i32)
                     .clamp(span_min_cell_index as i32 + 1, Span::MAX_HEIGHT as i32)
-- 
2.43.0


From 732bd2c5808daa8be35a9dfaa1adc63b1d656bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 19/24] fix: clip triangles with room for rounding errors, and
 report polygons beyond it

Far away from the origin, clipping a triangle can leave more than the seven
vertices of an exact clip, which indexed out of bounds of the buffers.
---
 crates/rerecast/src/rasterize.rs | 45 ++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 4814e9d..f859d43 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -67,7 +67,8 @@ impl Heightfield {
         let z1 = z1.clamp(0, h - 1);
 
         // Clip the triangle into all grid cells it touches.
-        const MAX_VERTICES_AFTER_CLIPPING: usize = 7;
+        // An exact clip leaves at most 7 vertices, but far away from the origin rounding can leave more.
+        const MAX_VERTICES_AFTER_CLIPPING: usize = MAX_POLYGON_VERTICES;
         // x-min, x-max, z-min, z-max
         const CLIP_DIRS: usize = 4;
         const BUF_LEN: usize = MAX_VERTICES_AFTER_CLIPPING * CLIP_DIRS;
@@ -197,6 +198,9 @@ pub enum RasterizationError {
     SpanInsertionError(#[from] SpanInsertionError),
 }
 
+/// The maximum number of vertices of a polygon that [`divide_poly`] handles.
+const MAX_POLYGON_VERTICES: usize = 12;
+
 /// Divides a convex polygon of max 12 vertices into two convex polygons
 /// across a separating axis.
 #[inline]
@@ -210,7 +214,7 @@ fn divide_poly(
     axis_offset: f32,
     axis_dir: DivisionAxis,
 ) -> Result<(), PolygonDivisionError> {
-    if in_vert_count > 12 {
+    if in_vert_count as usize > MAX_POLYGON_VERTICES {
         return Err(PolygonDivisionError::TooManyVertices(in_vert_count));
     } else if in_vert_count == 0 {
         return Ok(());
@@ -219,7 +223,7 @@ fn divide_poly(
     let axis_dir = axis_dir as usize;
 
     // How far positive or negative away from the separating axis is each vertex.
-    let mut in_vert_axis_delta = [0.0; 12];
+    let mut in_vert_axis_delta = [0.0; MAX_POLYGON_VERTICES];
     for i in 0..in_vert_count {
         in_vert_axis_delta[i] = axis_offset - in_verts[i][axis_dir];
     }
@@ -234,34 +238,28 @@ fn divide_poly(
         if !same_side {
             let s = in_vert_axis_delta[in_vert_b]
                 / (in_vert_axis_delta[in_vert_b] - in_vert_axis_delta[in_vert_a]);
-            out_verts_1[poly_1_vert] =
+            let intersection =
                 in_verts[in_vert_b] + (in_verts[in_vert_a] - in_verts[in_vert_b]) * s;
-            out_verts_2[poly_2_vert] = out_verts_1[poly_1_vert];
-
-            poly_1_vert += 1;
-            poly_2_vert += 1;
+            push_vertex(out_verts_1, &mut poly_1_vert, intersection)?;
+            push_vertex(out_verts_2, &mut poly_2_vert, intersection)?;
 
             // add the inVertA point to the right polygon. Do NOT add points that are on the dividing line
             // since these were already added above
             if in_vert_axis_delta[in_vert_a] > 0.0 {
-                out_verts_1[poly_1_vert] = in_verts[in_vert_a];
-                poly_1_vert += 1;
+                push_vertex(out_verts_1, &mut poly_1_vert, in_verts[in_vert_a])?;
             } else if in_vert_axis_delta[in_vert_a] < 0.0 {
-                out_verts_2[poly_2_vert] = in_verts[in_vert_a];
-                poly_2_vert += 1;
+                push_vertex(out_verts_2, &mut poly_2_vert, in_verts[in_vert_a])?;
             }
         } else {
             // add the inVertA point to the right polygon. Addition is done even for points on the dividing line
             if in_vert_axis_delta[in_vert_a] >= 0.0 {
-                out_verts_1[poly_1_vert] = in_verts[in_vert_a];
-                poly_1_vert += 1;
+                push_vertex(out_verts_1, &mut poly_1_vert, in_verts[in_vert_a])?;
                 if in_vert_axis_delta[in_vert_a] != 0.0 {
                     in_vert_b = in_vert_a;
                     continue;
                 }
             }
-            out_verts_2[poly_2_vert] = in_verts[in_vert_a];
-            poly_2_vert += 1;
+            push_vertex(out_verts_2, &mut poly_2_vert, in_verts[in_vert_a])?;
         }
 
         in_vert_b = in_vert_a;
@@ -273,6 +271,21 @@ fn divide_poly(
     Ok(())
 }
 
+/// Appends a vertex to a polygon, if there is room for it.
+#[inline]
+fn push_vertex(
+    verts: &mut [Vec3A],
+    vert_count: &mut usize,
+    vertex: Vec3A,
+) -> Result<(), PolygonDivisionError> {
+    let Some(slot) = verts.get_mut(*vert_count) else {
+        return Err(PolygonDivisionError::TooManyVertices(*vert_count as u8 + 1));
+    };
+    *slot = vertex;
+    *vert_count += 1;
+    Ok(())
+}
+
 /// Errors that can occur when dividing a polygon into two convex polygons across a separating axis.
 #[derive(Error, Debug)]
 pub enum PolygonDivisionError {
-- 
2.43.0


From fbad7cab368d7146c219b8dfa696cd4887bada63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 20/24] fix: report a column with more than 255 walkable spans
 instead of overflowing

The number of spans in a compact cell is a u8, so stacking 256 floors
overflowed it before the layer limit was checked.
---
 crates/rerecast/src/compact_heightfield.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 07c0d19..445f5cb 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -171,6 +171,12 @@ impl Heightfield {
                     if !span.area.is_walkable() {
                         continue;
                     }
+                    if cell.count() == u8::MAX {
+                        return Err(CompactHeightfieldError::TooManyLayers {
+                            max_layer_index: MAX_LAYERS,
+                            layer_index: cell.count() as u32,
+                        });
+                    }
                     let bot = span.max;
                     let top = span
                         .next
-- 
2.43.0


From 0b6c82c668d85c1b91dfc2fef6eacb7b10155532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 21/24] fix: do not turn meshes with indices out of range into
 navmesh affectors

Their triangles refer to vertices that are not there. The editor panicked when
drawing or building such an affector.
---
 crates/bevy_rerecast_core/src/mesh.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bevy_rerecast_core/src/mesh.rs b/crates/bevy_rerecast_core/src/mesh.rs
index bce7c6b..5bc6241 100644
--- a/crates/bevy_rerecast_core/src/mesh.rs
+++ b/crates/bevy_rerecast_core/src/mesh.rs
@@ -57,6 +57,10 @@ impl TriMeshFromBevyMesh for TriMesh {
         if !indices.len().is_multiple_of(3) {
             return None;
         }
+        // Such a mesh has no well-defined triangles, and building a navmesh from it would panic.
+        if indices.iter().any(|i| *i >= trimesh.vertices.len()) {
+            return None;
+        }
         trimesh.indices = indices
             .chunks(3)
             .map(|indices| {
-- 
2.43.0


From 650e1d8b8fc57775233ea22e095a27e5eb90e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 22/24] fix: do not panic drawing an affector that is no valid
 triangle mesh

---
 crates/bevy_rerecast_editor/src/visualization.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bevy_rerecast_editor/src/visualization.rs b/crates/bevy_rerecast_editor/src/visualization.rs
index b481434..32dbd0e 100644
--- a/crates/bevy_rerecast_editor/src/visualization.rs
+++ b/crates/bevy_rerecast_editor/src/visualization.rs
@@ -312,7 +312,10 @@ fn draw_navmesh_affector(
         };
 
         gizmo.clear();
-        let mesh = TriMesh::from_mesh(mesh).unwrap();
+        let Some(mesh) = TriMesh::from_mesh(mesh) else {
+            // A backend may provide affectors that are no valid triangle meshes.
+            continue;
+        };
         for indices in mesh.indices {
             let mut verts = indices
                 .to_array()
-- 
2.43.0


From 6ce8cfb976e223b3fa12a19f57ca9e751bf114b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 23/24] fix: do not panic loading a scene that refers to things
 it does not contain

---
 .../bevy_rerecast_editor/src/get_navmesh_input.rs   | 13 +++++++++++++
 .../src/transmission/serialized_mesh.rs             |  8 ++++++++
 .../transmission/serialized_standard_material.rs    |  6 +++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
index baeb9c2..466ba6f 100644
--- a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
+++ b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
@@ -51,6 +51,19 @@ fn fetch_navmesh_input(
         .get("result")
         .context("Failed to get `result` from response")?;
     let response: NavmeshInputResponse = deserialize(result)?;
+    // Check this before touching the old scene.
+    for visual in &response.visual_meshes {
+        response
+            .meshes
+            .get(visual.mesh as usize)
+            .context("The scene refers to a mesh it does not contain")?;
+        if let Some(index) = visual.material {
+            response
+                .materials
+                .get(index as usize)
+                .context("The scene refers to a material it does not contain")?;
+        }
+    }
 
     for entity in mesh_handles.iter() {
         commands.entity(entity).despawn();
diff --git a/crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs b/crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs
index 0e0c11c..11c8bad 100644
--- a/crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs
+++ b/crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs
@@ -6,6 +6,7 @@ use bevy_derive::{Deref, DerefMut};
 use bevy_reflect::prelude::*;
 use bevy_render::mesh::{
     Indices, Mesh, MeshVertexAttributeId, PrimitiveTopology, VertexAttributeValues,
+    VertexFormat,
 };
 use serde::{Deserialize, Serialize};
 
@@ -68,6 +69,13 @@ impl SerializedMesh {
                 );
                 continue;
             };
+            let values = VertexAttributeValues::from(values);
+            if VertexFormat::from(&values) != attribute.format {
+                tracing::warn!(
+                    "Failed to deserialize mesh: wrong format of attribute {attribute_id:?}"
+                );
+                continue;
+            }
             mesh.insert_attribute(*attribute, values);
         }
         if let Some(indices) = self.indices {
diff --git a/crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs b/crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs
index 33cf663..1c185ff 100644
--- a/crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs
+++ b/crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs
@@ -275,7 +275,11 @@ impl SerializedStandardMaterial {
             let handle = if let Some(handle) = indices.get(&index) {
                 handle.clone()
             } else {
-                let image = serialized_images[index as usize].clone().into_image();
+                let Some(image) = serialized_images.get(index as usize) else {
+                    tracing::warn!("Failed to deserialize texture: no image with index {index}");
+                    return None;
+                };
+                let image = image.clone().into_image();
                 let handle = images.add(image);
                 indices.insert(index, handle.clone());
                 handle
-- 
2.43.0


From f4e180f59ff75d627faac5de693ada38ee508ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:57 +0000
Subject: [PATCH 24/24] fix: do not open a second load dialog on a double click

---
 crates/bevy_rerecast_editor/src/ui.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/bevy_rerecast_editor/src/ui.rs b/crates/bevy_rerecast_editor/src/ui.rs
index 9b77ae4..ed3922f 100644
--- a/crates/bevy_rerecast_editor/src/ui.rs
+++ b/crates/bevy_rerecast_editor/src/ui.rs
@@ -92,7 +92,15 @@ fn build_navmesh(_: Trigger<Pointer<Click>>, mut commands: Commands) {
     commands.trigger(BuildNavmesh);
 }
 
-fn spawn_load_scene_modal(_: Trigger<Pointer<Click>>, mut commands: Commands) {
+fn spawn_load_scene_modal(
+    _: Trigger<Pointer<Click>>,
+    modals: Query<(), With<LoadSceneModal>>,
+    mut commands: Commands,
+) {
+    // Several clicks can arrive in the frame before the modal is there to block them.
+    if !modals.is_empty() {
+        return;
+    }
     commands.spawn((
         Name::new("Backdrop"),
         Node {
-- 
2.43.0

