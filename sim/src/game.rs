//! The game node: a headless Bevy app with the real remote, navmesh and editor-integration plugins.

use std::{
    collections::HashSet,
    panic::{AssertUnwindSafe, catch_unwind},
};

use bevy::{
    asset::AssetPlugin,
    math::Affine3A,
    prelude::*,
    remote::{BrpMessage, BrpResult, BrpSender, RemotePlugin},
    render::view::VisibilityPlugin,
    time::{TimePlugin, TimeUpdateStrategy},
    transform::TransformPlugin,
};
use bevy_rerecast::{
    Mesh3dNavmeshPlugin, NavmeshApp, NavmeshPlugins, RerecastPlugin,
    editor_integration::{
        EditorVisibilitySettings, EditorVisible, RerecastEditorIntegrationPlugin,
        brp::BRP_GET_NAVMESH_INPUT_METHOD,
    },
    rerecast::{AreaType, TriMesh},
};
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::{
    canon::{self, AffCanon, SceneCanon, VisCanon},
    gen_assets::{self, TransformMode},
    rng::{Hasher64, Rng},
    util,
};

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum EditKind {
    Spawn,
    SpawnFloor,
    SpawnChild,
    SpawnBare,
    Despawn,
    Move,
    Reparent,
    Orphan,
    Hide,
    RemoveMesh,
    InsertMesh,
    ReplaceMesh,
    MutateMesh,
    UnloadMesh,
    LoadMesh,
    SwapMaterial,
    RemoveMaterial,
    MutateMaterial,
    UnloadMaterial,
    LoadMaterial,
    MutateImage,
    UnloadImage,
    LoadImage,
    Mark,
    Unmark,
    /// The program gives up its own handles of an asset; those of entities and materials stay.
    Forget,
    SpawnBatch,
    /// An entity that is neither shown nor hidden.
    StripVisibility,
}

/// Where in the frame an edit happens.
#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum At {
    Between,
    First,
    Update,
    Last,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edit {
    pub kind: EditKind,
    pub at: At,
    pub target: u32,
    pub seed: u32,
}

pub const STRUCTURAL: &[EditKind] = {
    use EditKind::*;
    &[
        Spawn, Spawn, SpawnFloor, SpawnChild, SpawnBare, Despawn, Move, Move, Reparent, Orphan,
        Hide, RemoveMesh, InsertMesh, ReplaceMesh, MutateMesh, SwapMaterial, RemoveMaterial,
        MutateMaterial, MutateImage, Forget, Forget, SpawnBatch,
    ]
};
pub const LOADING: &[EditKind] = {
    use EditKind::*;
    &[
        UnloadMesh, LoadMesh, UnloadMaterial, LoadMaterial, UnloadImage, LoadImage, Spawn,
        ReplaceMesh, SwapMaterial,
    ]
};
pub const MARKS: &[EditKind] = {
    use EditKind::*;
    &[
        Mark, Unmark, Unmark, InsertMesh, RemoveMesh, ReplaceMesh, Spawn, SpawnBare, SpawnChild,
        InsertMesh, SpawnBatch,
    ]
};

pub fn rand_edit(r: &mut Rng, kinds: &[EditKind]) -> Edit {
    Edit {
        kind: *r.pick(kinds),
        at: *r.pick(&[At::Between, At::Between, At::First, At::Update, At::Last]),
        target: r.seed(),
        seed: r.seed(),
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Backend {
    Mesh3d,
    None,
    Custom(u32),
    /// A backend whose system parameters are not available.
    Failing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GameCfg {
    pub seed: u32,
    /// The number of entities at the start.
    pub entities: u32,
    pub mode: TransformMode,
    pub manual: bool,
    /// The backends that are registered while the app is built, in order.
    pub backends: Vec<Backend>,
    pub remote: bool,
    /// Seed of the order in which plugins are added.
    pub plugin_order: u32,
    /// Only affecting geometry, no odd meshes.
    pub plain: bool,
    /// Percentage of texture slots in use.
    pub textures: u32,
    /// Whether meshes, images and materials exist as asset stores.
    pub stores: u8,
    /// Whether some assets are missing at the start.
    pub missing: bool,
    #[serde(default)]
    pub hostile: bool,
    /// And with vertices that are not finite.
    #[serde(default)]
    pub odd: bool,
    #[serde(default)]
    pub scale: Scale,
}

/// Scenes beyond the usual handful of small objects.
#[derive(Copy, Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub enum Scale {
    #[default]
    Usual,
    /// Hundreds of entities, each with its own mesh, material and texture.
    ManyObjects,
    /// An answer of more than ten megabytes.
    LargeTexture,
    /// A mesh with more vertices than 16 bits can count.
    LargeMesh,
    /// A hilly ground, tens of metres wide, with many things on it: a navmesh of hundreds of polygons.
    Landscape,
}

impl GameCfg {
    pub fn random(r: &mut Rng) -> Self {
        GameCfg {
            seed: r.seed(),
            entities: r.range(1, 6) as u32,
            mode: *r.pick(&[TransformMode::Exact, TransformMode::Free]),
            manual: false,
            backends: vec![Backend::Mesh3d],
            remote: true,
            plugin_order: r.seed(),
            plain: false,
            textures: *r.pick(&[0, 10, 40]),
            stores: 7,
            missing: false,
            hostile: false,
            odd: false,
            scale: Scale::Usual,
        }
    }
}

#[derive(Resource, Default)]
pub struct Pool {
    pub meshes: Vec<Handle<Mesh>>,
    pub materials: Vec<Handle<StandardMaterial>>,
    pub images: Vec<Handle<Image>>,
    pub entities: Vec<Entity>,
    pub mode: Option<TransformMode>,
    pub plain: bool,
    pub hostile: bool,
    /// And with vertices that are not finite.
    pub odd: bool,
    pub textures: u32,
    pending: Vec<Edit>,
    /// Structural events of the current frame, for the visibility model: entity, event.
    pub marks: Vec<(Entity, MarkEvent)>,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum MarkEvent {
    MeshAdded,
    MeshRemoved,
    Marked,
    Unmarked,
    Despawned,
}

pub struct Game {
    pub app: App,
    pub cfg: GameCfg,
    pub backend: Backend,
    pub dead: bool,
}

#[derive(Resource)]
struct NeverInserted;

/// What the game's own systems would notice as changed.
#[derive(Resource, Default, Debug)]
pub struct Noticed {
    transforms: u64,
    globals: u64,
    visibilities: u64,
    meshes: u64,
    materials: u64,
    marks: u64,
    mesh_events: u64,
    material_events: u64,
    image_events: u64,
}

type Changes<'w, 's, T> = Query<'w, 's, (), Changed<T>>;

#[allow(clippy::too_many_arguments)]
fn notice(
    mut n: ResMut<Noticed>,
    t: Changes<Transform>,
    g: Changes<GlobalTransform>,
    v: Query<(), Or<(Changed<Visibility>, Changed<InheritedVisibility>)>>,
    m: Changes<Mesh3d>,
    mm: Changes<MeshMaterial3d<StandardMaterial>>,
    e: Changes<EditorVisible>,
    mut me: EventReader<AssetEvent<Mesh>>,
    mut ma: EventReader<AssetEvent<StandardMaterial>>,
    mut ie: EventReader<AssetEvent<Image>>,
) {
    n.transforms += t.iter().count() as u64;
    n.globals += g.iter().count() as u64;
    n.visibilities += v.iter().count() as u64;
    n.meshes += m.iter().count() as u64;
    n.materials += mm.iter().count() as u64;
    n.marks += e.iter().count() as u64;
    n.mesh_events += me.read().count() as u64;
    n.material_events += ma.read().count() as u64;
    n.image_events += ie.read().count() as u64;
}

fn custom_backend(id: u32) -> impl FnMut() -> Vec<(GlobalTransform, TriMesh)> + Send + Sync {
    move || vec![(custom_transform(id), custom_trimesh(id))]
}

fn custom_transform(id: u32) -> GlobalTransform {
    GlobalTransform::from(Transform::from_xyz((id % 7) as f32, 0.0, id as f32 / 8.0))
}

/// Custom backends from this number on have a triangle with a corner that does not exist.
pub const BROKEN_BACKEND: u32 = 1000;

fn custom_trimesh(id: u32) -> TriMesh {
    let s = 1.0 + (id % 64) as f32;
    let mut t = TriMesh::default();
    t.vertices = vec![
        Vec3::new(0.0, 0.0, 0.0).into(),
        Vec3::new(0.0, 0.0, s).into(),
        Vec3::new(s, id as f32 / 4.0, 0.0).into(),
    ];
    t.indices = vec![UVec3::new(0, 1, 2)];
    t.area_types = vec![AreaType::NOT_WALKABLE];
    if id >= BROKEN_BACKEND {
        t.indices.push(UVec3::new(1, 2, 3 + id % 5));
        t.area_types.push(AreaType::NOT_WALKABLE);
    }
    t
}

fn failing_backend(_: Res<NeverInserted>) -> Vec<(GlobalTransform, TriMesh)> {
    Vec::new()
}

pub fn register_backend(app: &mut App, b: Backend, building: bool) {
    match b {
        Backend::Mesh3d => {
            if !building || app.is_plugin_added::<Mesh3dNavmeshPlugin>() {
                // What the plugin does, again.
                Mesh3dNavmeshPlugin::default().build(app);
            } else {
                app.add_plugins(Mesh3dNavmeshPlugin::default());
            }
        }
        Backend::None => {}
        Backend::Custom(id) => {
            app.set_navmesh_affector_backend(custom_backend(id));
        }
        Backend::Failing => {
            app.set_navmesh_affector_backend(failing_backend);
        }
    }
}

impl Game {
    pub fn new(cfg: &GameCfg) -> Game {
        let mut app = App::new();
        app.add_plugins((
            TaskPoolPlugin::default(),
            bevy::diagnostic::FrameCountPlugin,
            TimePlugin,
            TransformPlugin,
            AssetPlugin {
                file_path: util::no_assets().to_string(),
                ..default()
            },
            VisibilityPlugin,
        ));
        app.insert_resource(TimeUpdateStrategy::ManualDuration(
            std::time::Duration::from_micros(16_667),
        ));
        // Without the asset stores that the test wants missing; the visibility plugin needs `Mesh`.
        if cfg.stores & 1 != 0 {
            app.init_asset::<Mesh>();
        }
        if cfg.stores & 2 != 0 {
            app.init_asset::<Image>();
        }
        if cfg.stores & 4 != 0 {
            app.init_asset::<StandardMaterial>();
        }

        // The plugins under test, in any order that Bevy allows.
        let mut r = Rng::new(cfg.plugin_order as u64);
        let mut steps: Vec<u8> = (0..cfg.backends.len() as u8).map(|i| 10 + i).collect();
        for s in [0u8, 1] {
            let at = r.idx(steps.len() + 1);
            steps.insert(at, s);
        }
        for s in steps {
            match s {
                0 => {
                    if cfg.remote {
                        app.add_plugins(RemotePlugin::default());
                    }
                }
                1 => {
                    if cfg.manual {
                        // `EditorVisibilitySettings::Manual` cannot be set from outside the crate
                        // in any other way: the plugin's type is non-exhaustive.
                        let mut p = RerecastEditorIntegrationPlugin::default();
                        p.visibility_settings = EditorVisibilitySettings::Manual;
                        app.add_plugins((RerecastPlugin::default(), p));
                    } else {
                        app.add_plugins(NavmeshPlugins::default());
                    }
                }
                n => register_backend(&mut app, cfg.backends[(n - 10) as usize], true),
            }
        }
        let backend = cfg
            .backends
            .iter()
            .rev()
            .find(|b| **b != Backend::None)
            .copied()
            .unwrap_or(Backend::None);

        app.insert_resource(Pool {
            mode: Some(cfg.mode),
            plain: cfg.plain,
            textures: cfg.textures,
            hostile: cfg.hostile,
            odd: cfg.odd,
            ..default()
        });
        if cfg.stores == 7 {
            app.init_resource::<Noticed>();
            app.add_systems(Update, notice);
        }
        app.add_systems(First, |w: &mut World| run_pending(w, At::First));
        app.add_systems(Update, |w: &mut World| run_pending(w, At::Update));
        app.add_systems(Last, |w: &mut World| run_pending(w, At::Last));
        app.finish();
        app.cleanup();

        let mut g = Game {
            app,
            cfg: cfg.clone(),
            backend,
            dead: false,
        };
        let mut r = Rng::new(cfg.seed as u64);
        if cfg.stores == 7 {
            if cfg.entities > 0 && !cfg.hostile {
                g.edit_now(EditKind::SpawnFloor, &mut r);
            }
            for _ in 1..cfg.entities {
                let k = *r.pick(&[EditKind::Spawn, EditKind::Spawn, EditKind::SpawnChild]);
                g.edit_now(k, &mut r);
            }
            grow(g.app.world_mut(), cfg.scale, &mut r);
            if cfg.missing {
                for _ in 0..r.range(1, 4) {
                    let k = *r.pick(&[
                        EditKind::UnloadMesh,
                        EditKind::UnloadMaterial,
                        EditKind::UnloadImage,
                        EditKind::UnloadImage,
                    ]);
                    g.edit_now(k, &mut r);
                }
            }
        }
        g
    }

    fn edit_now(&mut self, kind: EditKind, r: &mut Rng) {
        let e = Edit {
            kind,
            at: At::Between,
            target: r.seed(),
            seed: r.seed(),
        };
        apply(self.app.world_mut(), &e);
    }

    pub fn edit(&mut self, e: &Edit) {
        if self.cfg.stores != 7 {
            return;
        }
        if e.at == At::Between {
            apply(self.app.world_mut(), e);
        } else {
            self.app
                .world_mut()
                .resource_mut::<Pool>()
                .pending
                .push(e.clone());
        }
    }

    /// One frame. An error means that the game panicked.
    pub fn update(&mut self) -> Result<(), String> {
        let app = &mut self.app;
        match catch_unwind(AssertUnwindSafe(|| app.update())) {
            Ok(()) => Ok(()),
            Err(p) => {
                self.dead = true;
                Err(util::panic_text(p))
            }
        }
    }

    pub fn set_backend(&mut self, b: Backend) {
        if b == Backend::None {
            return;
        }
        register_backend(&mut self.app, b, false);
        self.backend = b;
    }

    pub fn request(
        &mut self,
        method: &str,
        params: Option<Value>,
    ) -> Option<async_channel::Receiver<BrpResult>> {
        let s = self.app.world().get_resource::<BrpSender>()?;
        let (sender, receiver) = async_channel::bounded(1);
        s.try_send(BrpMessage {
            method: method.to_string(),
            params,
            sender,
        })
        .ok()?;
        Some(receiver)
    }

    /// Whether a well-formed scene request can be answered with the scene.
    pub fn servable(&self) -> bool {
        self.cfg.stores == 7 && !matches!(self.backend, Backend::None | Backend::Failing)
    }

    /// What a request answered now must deliver.
    pub fn snapshot(&mut self) -> SceneCanon {
        let backend = self.backend;
        let w = self.app.world_mut();
        let mut out = SceneCanon::default();
        match backend {
            Backend::None | Backend::Failing => {}
            Backend::Custom(id) => {
                let t = custom_trimesh(id);
                let geo = (
                    t.vertices.iter().map(|v| Vec3::from(*v)).collect(),
                    t.indices
                        .iter()
                        .map(|i| i.to_array().map(|i| i as usize))
                        .collect(),
                );
                out.affectors.push(AffCanon {
                    tris: canon::world_tris(&geo, &custom_transform(id).affine()),
                });
            }
            Backend::Mesh3d => {
                let mut q = w.query::<(&GlobalTransform, &Mesh3d)>();
                let meshes = w.resource::<Assets<Mesh>>();
                for (t, m) in q.iter(w) {
                    let Some(geo) = meshes.get(&m.0).and_then(canon::affecting_geometry) else {
                        continue;
                    };
                    out.affectors.push(AffCanon {
                        tris: canon::world_tris(&geo, &t.affine()),
                    });
                }
            }
        }
        if self.cfg.stores != 7 {
            return out;
        }
        let mut q = w.query_filtered::<(
            &GlobalTransform,
            &Mesh3d,
            &InheritedVisibility,
            Option<&MeshMaterial3d<StandardMaterial>>,
        ), With<EditorVisible>>();
        let meshes = w.resource::<Assets<Mesh>>();
        let images = w.resource::<Assets<Image>>();
        let materials = w.resource::<Assets<StandardMaterial>>();
        let mut used = (HashSet::new(), HashSet::new(), HashSet::new());
        for (t, m, v, mat) in q.iter(w) {
            if !v.get() {
                continue;
            }
            let Some(mesh) = meshes.get(&m.0) else {
                continue;
            };
            used.0.insert(m.0.id());
            let material = mat.and_then(|h| Some((h, materials.get(&h.0)?)));
            let parts = material.and_then(|(_, m)| canon::material_parts(m, images));
            if let (Some((h, m)), true) = (material, parts.is_some()) {
                used.1.insert(h.0.id());
                used.2.extend(canon::images_of(m));
            }
            let parts = parts.unwrap_or_else(canon::fallback_parts);
            let mesh_parts = canon::mesh_parts(mesh);
            let affine: Affine3A = t.affine();
            out.visuals.push(VisCanon {
                affine,
                trs: canon::is_trs(&affine),
                mesh: canon::parts_hash(&mesh_parts),
                material: canon::parts_hash(&parts),
                mesh_parts,
                material_parts: parts,
            });
        }
        out.sharing = [used.0.len(), used.1.len(), used.2.len()];
        out
    }

    /// Everything that a game could notice: entities, components, assets.
    pub fn fingerprint(&mut self) -> (u64, String) {
        let w = self.app.world_mut();
        let mut h = Hasher64::default();
        let mut text = String::new();
        let mut ents: Vec<Entity> = w.iter_entities().map(|e| e.id()).collect();
        ents.sort();
        for e in &ents {
            let mut names: Vec<String> = w
                .inspect_entity(*e)
                .map(|i| i.map(|c| c.name().to_string()).collect())
                .unwrap_or_default();
            names.sort();
            let er = w.entity(*e);
            let line = format!(
                "{e} {:?} {:?} {:?} {:?} {:?} {:?} [{}]",
                er.get::<Transform>(),
                er.get::<GlobalTransform>(),
                er.get::<Visibility>(),
                er.get::<InheritedVisibility>(),
                er.get::<Mesh3d>(),
                er.get::<MeshMaterial3d<StandardMaterial>>(),
                names.join(",")
            );
            h.str(&line);
            text.push_str(&line);
            text.push('\n');
        }
        if let Some(a) = w.get_resource::<Assets<Mesh>>() {
            let mut v: Vec<String> = a
                .iter()
                .map(|(i, m)| format!("{i:?} {:x}", canon::parts_hash(&canon::mesh_parts(m))))
                .collect();
            v.sort();
            text.push_str(&v.join("\n"));
        }
        if let (Some(m), Some(i)) = (
            w.get_resource::<Assets<StandardMaterial>>(),
            w.get_resource::<Assets<Image>>(),
        ) {
            let mut v: Vec<String> = m
                .iter()
                .map(|(id, m)| {
                    format!(
                        "{id:?} {:x?} {m:?}",
                        canon::material_parts(m, i).map(|p| canon::parts_hash(&p))
                    )
                })
                .collect();
            v.sort();
            text.push_str(&v.join("\n"));
            let mut v: Vec<String> = i
                .iter()
                .map(|(id, i)| format!("{id:?} {:x}", canon::image_canon(i)))
                .collect();
            v.sort();
            text.push_str(&v.join("\n"));
        }
        text.push_str(&format!("{:?}\n", w.get_resource::<Noticed>()));
        h.str(&text);
        (h.finish(), text)
    }

    pub fn marks(&mut self) -> Vec<(Entity, MarkEvent)> {
        std::mem::take(&mut self.app.world_mut().resource_mut::<Pool>().marks)
    }
}

pub const METHOD: &str = BRP_GET_NAVMESH_INPUT_METHOD;

fn run_pending(w: &mut World, at: At) {
    let mut todo = Vec::new();
    w.resource_mut::<Pool>().pending.retain(|e| {
        if e.at == at {
            todo.push(e.clone());
            false
        } else {
            true
        }
    });
    for e in todo {
        apply(w, &e);
    }
}

fn grow(w: &mut World, scale: Scale, r: &mut Rng) {
    use bevy::render::{
        mesh::{Indices, PrimitiveTopology},
        render_asset::RenderAssetUsages,
        render_resource::{Extent3d, TextureDimension, TextureFormat},
    };
    match scale {
        Scale::Usual => {}
        Scale::ManyObjects => {
            for _ in 0..r.range(257, 320) {
                let mesh = gen_assets::mesh(r, gen_assets::MeshKind::Soup);
                let mesh = w.resource_mut::<Assets<Mesh>>().add(mesh);
                let image = gen_assets::image(r);
                let image = w.resource_mut::<Assets<Image>>().add(image);
                let material = StandardMaterial {
                    base_color: Color::srgb(r.f(0.0, 1.0), r.f(0.0, 1.0), r.f(0.0, 1.0)),
                    base_color_texture: Some(image),
                    ..default()
                };
                let material = w.resource_mut::<Assets<StandardMaterial>>().add(material);
                let t = gen_assets::transform(r, TransformMode::Exact);
                let id = w.spawn((t, Visibility::default(), Mesh3d(mesh), MeshMaterial3d(material))).id();
                w.resource_mut::<Pool>().marks.push((id, MarkEvent::MeshAdded));
            }
        }
        Scale::LargeTexture => {
            let (x, y) = (2048, r.range(1024, 1200) as u32);
            let mut data = Vec::with_capacity((x * y * 4) as usize);
            while data.len() < (x * y * 4) as usize {
                data.extend(r.next().to_le_bytes());
            }
            let image = Image::new(
                Extent3d { width: x, height: y, depth_or_array_layers: 1 },
                TextureDimension::D2,
                data,
                TextureFormat::Rgba8UnormSrgb,
                RenderAssetUsages::all(),
            );
            let image = w.resource_mut::<Assets<Image>>().add(image);
            let material = StandardMaterial { base_color_texture: Some(image), ..default() };
            let material = w.resource_mut::<Assets<StandardMaterial>>().add(material);
            let mesh = gen_assets::mesh(r, gen_assets::MeshKind::Box);
            let mesh = w.resource_mut::<Assets<Mesh>>().add(mesh);
            let id = w
                .spawn((Transform::default(), Visibility::default(), Mesh3d(mesh), MeshMaterial3d(material)))
                .id();
            w.resource_mut::<Pool>().marks.push((id, MarkEvent::MeshAdded));
        }
        Scale::Landscape => {
            let put = |w: &mut World, (v, i): (Vec<[f32; 3]>, Vec<u32>), at: Vec<Transform>| {
                let mut mesh = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
                mesh.insert_attribute(Mesh::ATTRIBUTE_POSITION, v);
                mesh.insert_indices(Indices::U32(i));
                let mesh = w.resource_mut::<Assets<Mesh>>().add(mesh);
                for t in at {
                    let id = w.spawn((t, Visibility::default(), Mesh3d(mesh.clone()))).id();
                    w.resource_mut::<Pool>().marks.push((id, MarkEvent::MeshAdded));
                }
            };
            let ground = gen_assets::landscape_geometry(r);
            put(w, ground, vec![Transform::default()]);
            for _ in 0..r.range(2, 5) {
                let thing = gen_assets::box_geometry(r);
                let at = (0..r.range(5, 40)).map(|_| gen_assets::landscape_place(r)).collect();
                put(w, thing, at);
            }
        }
        Scale::LargeMesh => {
            let exact = r.pct(70);
            let n = if exact { 255 } else { r.range(258, 270) as u32 };
            let mut v = Vec::new();
            let mut i = Vec::new();
            for x in 0..n {
                for z in 0..n {
                    v.push([x as f32 / 32.0, 0.0, z as f32 / 32.0]);
                    // A few triangles, with high indices among them.
                    if x + 1 < n && z + 1 < n && (x == n - 2 || (x + z) % 61 == 0) {
                        let a = x * n + z;
                        i.extend([a, a + 1, a + n]);
                    }
                }
            }
            if exact {
                // The last vertex is next to what fits into 16 bits.
                let last = *r.pick(&[65535, 65536, 65536, 65537u32]);
                let first = v.len() as u32;
                v.extend((first..=last).map(|k| [8.0, 0.0, 8.0 + k as f32 / 65536.0]));
                i.extend([0, 1, last]);
            }
            let mut mesh = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
            mesh.insert_attribute(Mesh::ATTRIBUTE_POSITION, v);
            mesh.insert_indices(Indices::U32(i));
            let mesh = w.resource_mut::<Assets<Mesh>>().add(mesh);
            let id = w.spawn((Transform::default(), Visibility::default(), Mesh3d(mesh))).id();
            w.resource_mut::<Pool>().marks.push((id, MarkEvent::MeshAdded));
        }
    }
}

impl Pool {
    fn any(&self, r: &mut Rng) -> Option<Entity> {
        (!self.entities.is_empty()).then(|| *r.pick(&self.entities))
    }
}

fn new_image(w: &mut World, r: &mut Rng, p: &mut Pool) -> Handle<Image> {
    let i = gen_assets::image(r);
    let h = w.resource_mut::<Assets<Image>>().add(i);
    p.images.push(h.clone());
    h
}

fn some_material(w: &mut World, r: &mut Rng, p: &mut Pool) -> Handle<StandardMaterial> {
    if !p.materials.is_empty() && r.pct(40) {
        return r.pick(&p.materials).clone();
    }
    if p.textures > 0 && (p.images.is_empty() || r.pct(40)) {
        new_image(w, r, p);
    }
    let m = gen_assets::material(r, &p.images, p.textures as u64);
    let h = w.resource_mut::<Assets<StandardMaterial>>().add(m);
    p.materials.push(h.clone());
    h
}

fn some_mesh(w: &mut World, r: &mut Rng, p: &mut Pool) -> Handle<Mesh> {
    if !p.meshes.is_empty() && r.pct(35) {
        return r.pick(&p.meshes).clone();
    }
    let m = new_mesh_data(r, p);
    let h = w.resource_mut::<Assets<Mesh>>().add(m);
    p.meshes.push(h.clone());
    h
}

fn new_mesh_data(r: &mut Rng, p: &Pool) -> Mesh {
    if p.hostile {
        return hostile_mesh(r, p);
    }
    let kind = gen_assets::mesh_kind(r, p.plain);
    gen_assets::mesh(r, kind)
}

/// Affectors that make builds fail or produce next to nothing.
fn hostile_mesh(r: &mut Rng, p: &Pool) -> Mesh {
    use bevy::{
        asset::RenderAssetUsages,
        render::mesh::{Indices, PrimitiveTopology},
    };
    let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
    let s = *r.pick(&[0.0f32, 1e-3, 0.05, 0.25, 1.0, 4.0, 8.0]);
    let (v, i): (Vec<[f32; 3]>, Vec<u32>) = match r.below(9) {
        // A wall.
        0 => (
            vec![[0., 0., 0.], [0., s, 0.], [0., s, s], [0., 0., s]],
            vec![0, 1, 2, 0, 2, 3],
        ),
        // A ceiling: facing down.
        1 => (
            vec![[0., 0., 0.], [0., 0., s], [s, 0., s], [s, 0., 0.]],
            vec![0, 2, 1, 0, 3, 2],
        ),
        // A (possibly tiny) floor.
        2 | 3 => (
            vec![[0., 0., 0.], [0., 0., s], [s, 0., s], [s, 0., 0.]],
            vec![0, 1, 2, 0, 2, 3],
        ),
        // Degenerate triangles.
        4 => (vec![[0., 0., 0.], [s, 0., 0.], [2. * s, 0., 0.]], vec![0, 1, 2, 0, 0, 0]),
        // No triangles, no vertices.
        5 => (vec![], vec![]),
        // Vertices without triangles.
        6 => (vec![[0., 0., 0.], [s, s, s]], vec![]),
        // A thin strip.
        7 => (
            vec![[0., 0., 0.], [0., 0., 8.], [s * 0.2, 0., 8.], [s * 0.2, 0., 0.]],
            vec![0, 1, 2, 0, 2, 3],
        ),
        // Stacked floors.
        _ if r.pct(12) => gen_assets::tower(r),
        _ => {
            let mut v = Vec::new();
            let mut t = Vec::new();
            for k in 0..r.range(2, 5) as u32 {
                let y = k as f32 * r.f(0.1, 3.0);
                v.extend([[0., y, 0.], [0., y, 6.], [6., y, 6.], [6., y, 0.]]);
                let b = k * 4;
                t.extend([b, b + 1, b + 2, b, b + 2, b + 3]);
            }
            (v, t)
        }
    };
    let (mut v, mut i) = (v, i);
    if r.pct(4) && !i.is_empty() {
        // Triangles of vertices that are not there.
        let k = r.below(i.len() as u64) as usize;
        i[k] = v.len() as u32 + *r.pick(&[0, 0, 5, 1_000_000]);
    }
    // Turned, it could get long along both axes of the ground.
    if r.pct(6) && p.mode.unwrap_or(TransformMode::Exact) == TransformMode::Exact {
        let level = if p.odd { gen_assets::Odd::Any } else { gen_assets::Odd::Large };
        gen_assets::make_odd(r, &mut v, level);
    }
    m.insert_attribute(Mesh::ATTRIBUTE_POSITION, v);
    m.insert_indices(Indices::U32(i));
    m
}

pub fn apply(w: &mut World, e: &Edit) {
    w.resource_scope(|w: &mut World, mut p: Mut<Pool>| apply_in(w, &mut p, e));
    w.flush();
}

fn depth_of(w: &World, mut e: Entity) -> u32 {
    let mut d = 0;
    while let Some(c) = w.get::<ChildOf>(e) {
        e = c.parent();
        d += 1;
    }
    d
}

fn height_of(w: &World, e: Entity) -> u32 {
    w.get::<Children>(e)
        .map_or(0, |c| c.iter().map(|c| 1 + height_of(w, c)).max().unwrap_or(0))
}

fn is_ancestor(w: &World, a: Entity, mut e: Entity) -> bool {
    loop {
        if a == e {
            return true;
        }
        match w.get::<ChildOf>(e) {
            Some(c) => e = c.parent(),
            None => return false,
        }
    }
}

fn add_mesh_note(w: &World, p: &mut Pool, e: Entity) {
    // Replacing a mesh does not add one.
    if !w.entity(e).contains::<Mesh3d>() {
        p.marks.push((e, MarkEvent::MeshAdded));
    }
}

fn apply_in(w: &mut World, p: &mut Pool, e: &Edit) {
    use EditKind::*;
    let mut r = Rng::new(e.seed as u64);
    let r = &mut r;
    let mode = p.mode.unwrap_or(TransformMode::Exact);
    let mut pick = Rng::new(e.target as u64);
    let target = p.any(&mut pick);
    match e.kind {
        Spawn | SpawnFloor => {
            if p.entities.len() > 14 {
                return;
            }
            let mesh = if e.kind == SpawnFloor {
                let m = gen_assets::mesh(r, gen_assets::MeshKind::Floor);
                let h = w.resource_mut::<Assets<Mesh>>().add(m);
                p.meshes.push(h.clone());
                h
            } else {
                some_mesh(w, r, p)
            };
            let mut t = gen_assets::transform(r, mode);
            if e.kind == SpawnFloor && mode != TransformMode::Wild {
                t.rotation = Quat::IDENTITY;
            }
            // Whole bundle, or piece by piece.
            let id = if r.pct(70) {
                w.spawn((t, Visibility::default(), Mesh3d(mesh))).id()
            } else {
                let id = w.spawn((t, Visibility::default())).id();
                w.entity_mut(id).insert(Mesh3d(mesh));
                id
            };
            p.marks.push((id, MarkEvent::MeshAdded));
            if r.pct(75) {
                let m = some_material(w, r, p);
                w.entity_mut(id).insert(MeshMaterial3d(m));
            }
            p.entities.push(id);
        }
        SpawnChild => {
            if p.entities.len() > 14 {
                return;
            }
            let Some(parent) = target else { return };
            if depth_of(w, parent) > 1 {
                return;
            }
            let mesh = some_mesh(w, r, p);
            let m = some_material(w, r, p);
            let t = gen_assets::transform(r, mode);
            let id = w
                .spawn((t, Visibility::default(), Mesh3d(mesh), MeshMaterial3d(m), ChildOf(parent)))
                .id();
            p.marks.push((id, MarkEvent::MeshAdded));
            p.entities.push(id);
        }
        SpawnBare => {
            if p.entities.len() > 14 {
                return;
            }
            let t = gen_assets::transform(r, mode);
            p.entities.push(w.spawn((t, Visibility::default())).id());
        }
        Despawn => {
            let Some(id) = target else { return };
            // Its children go with it.
            let gone: Vec<Entity> = p
                .entities
                .iter()
                .copied()
                .filter(|x| is_ancestor(w, id, *x))
                .collect();
            p.entities.retain(|x| !gone.contains(x));
            for g in gone {
                p.marks.push((g, MarkEvent::Despawned));
            }
            w.despawn(id);
        }
        Move => {
            let Some(id) = target else { return };
            let t = gen_assets::transform(r, mode);
            w.entity_mut(id).insert(t);
        }
        Reparent => {
            let Some(id) = target else { return };
            let parent = *r.pick(&p.entities);
            if is_ancestor(w, id, parent) || depth_of(w, parent) + height_of(w, id) + 1 > 2 {
                return;
            }
            w.entity_mut(id).insert(ChildOf(parent));
        }
        Orphan => {
            let Some(id) = target else { return };
            w.entity_mut(id).remove::<ChildOf>();
        }
        Hide => {
            let Some(id) = target else { return };
            let v = *r.pick(&[Visibility::Hidden, Visibility::Visible, Visibility::Inherited]);
            w.entity_mut(id).insert(v);
        }
        RemoveMesh => {
            let Some(id) = target else { return };
            if w.entity(id).contains::<Mesh3d>() {
                p.marks.push((id, MarkEvent::MeshRemoved));
            }
            w.entity_mut(id).remove::<Mesh3d>();
        }
        InsertMesh | ReplaceMesh => {
            let Some(id) = target else { return };
            if e.kind == InsertMesh && w.entity(id).contains::<Mesh3d>() {
                return;
            }
            let mesh = some_mesh(w, r, p);
            add_mesh_note(w, p, id);
            w.entity_mut(id).insert(Mesh3d(mesh));
        }
        MutateMesh => {
            if p.meshes.is_empty() {
                return;
            }
            let h = pick.pick(&p.meshes).clone();
            let m = new_mesh_data(r, p);
            if let Some(a) = w.resource_mut::<Assets<Mesh>>().get_mut(&h) {
                *a = m;
            }
        }
        UnloadMesh => {
            if !p.meshes.is_empty() {
                let h = pick.pick(&p.meshes).clone();
                w.resource_mut::<Assets<Mesh>>().remove(&h);
            }
        }
        LoadMesh => {
            // A missing one arrives, or a handle for one that will arrive later is made.
            let missing: Vec<_> = p
                .meshes
                .iter()
                .filter(|h| !w.resource::<Assets<Mesh>>().contains(*h))
                .cloned()
                .collect();
            let m = new_mesh_data(r, p);
            let mut a = w.resource_mut::<Assets<Mesh>>();
            if missing.is_empty() {
                p.meshes.push(a.reserve_handle());
            } else {
                a.insert(pick.pick(&missing), m);
            }
        }
        SwapMaterial => {
            let Some(id) = target else { return };
            let m = some_material(w, r, p);
            w.entity_mut(id).insert(MeshMaterial3d(m));
        }
        RemoveMaterial => {
            let Some(id) = target else { return };
            w.entity_mut(id).remove::<MeshMaterial3d<StandardMaterial>>();
        }
        MutateMaterial => {
            if p.materials.is_empty() {
                return;
            }
            let h = pick.pick(&p.materials).clone();
            let m = gen_assets::material(r, &p.images, p.textures as u64);
            if let Some(a) = w.resource_mut::<Assets<StandardMaterial>>().get_mut(&h) {
                *a = m;
            }
        }
        UnloadMaterial => {
            if !p.materials.is_empty() {
                let h = pick.pick(&p.materials).clone();
                w.resource_mut::<Assets<StandardMaterial>>().remove(&h);
            }
        }
        LoadMaterial => {
            let missing: Vec<_> = p
                .materials
                .iter()
                .filter(|h| !w.resource::<Assets<StandardMaterial>>().contains(*h))
                .cloned()
                .collect();
            let m = gen_assets::material(r, &p.images, p.textures as u64);
            let mut a = w.resource_mut::<Assets<StandardMaterial>>();
            if missing.is_empty() {
                p.materials.push(a.reserve_handle());
            } else {
                a.insert(pick.pick(&missing), m);
            }
        }
        MutateImage => {
            if p.images.is_empty() {
                return;
            }
            let h = pick.pick(&p.images).clone();
            let i = gen_assets::image(r);
            if let Some(a) = w.resource_mut::<Assets<Image>>().get_mut(&h) {
                *a = i;
            }
        }
        UnloadImage => {
            if !p.images.is_empty() {
                let h = pick.pick(&p.images).clone();
                w.resource_mut::<Assets<Image>>().remove(&h);
            }
        }
        LoadImage => {
            let missing: Vec<_> = p
                .images
                .iter()
                .filter(|h| !w.resource::<Assets<Image>>().contains(*h))
                .cloned()
                .collect();
            let i = gen_assets::image(r);
            let mut a = w.resource_mut::<Assets<Image>>();
            if missing.is_empty() {
                p.images.push(a.reserve_handle());
            } else {
                a.insert(pick.pick(&missing), i);
            }
        }
        Forget => {
            let i = pick.next() as usize;
            let some = [p.meshes.len(), p.materials.len(), p.images.len()];
            match r.below(3) {
                0 if some[0] > 0 => drop(p.meshes.remove(i % some[0])),
                1 if some[1] > 0 => drop(p.materials.remove(i % some[1])),
                2 if some[2] > 0 => drop(p.images.remove(i % some[2])),
                _ => {}
            }
        }
        SpawnBatch => {
            if p.entities.len() > 12 {
                return;
            }
            let mesh = some_mesh(w, r, p);
            let batch: Vec<_> = (0..r.range(2, 4))
                .map(|_| (gen_assets::transform(r, mode), Visibility::default(), Mesh3d(mesh.clone())))
                .collect();
            let ids: Vec<Entity> = w.spawn_batch(batch).collect();
            for id in ids {
                p.marks.push((id, MarkEvent::MeshAdded));
                p.entities.push(id);
            }
        }
        StripVisibility => {
            let Some(id) = target else { return };
            w.entity_mut(id)
                .remove::<(Visibility, InheritedVisibility, ViewVisibility)>();
        }
        Mark => {
            let Some(id) = target else { return };
            p.marks.push((id, MarkEvent::Marked));
            w.entity_mut(id).insert(EditorVisible);
        }
        Unmark => {
            let Some(id) = target else { return };
            p.marks.push((id, MarkEvent::Unmarked));
            w.entity_mut(id).remove::<EditorVisible>();
        }
    }
}
