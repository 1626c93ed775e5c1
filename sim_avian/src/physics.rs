//! A game with bodies and colliders that come, go, move and change, asked for its scene.

use std::panic::{AssertUnwindSafe, catch_unwind};

use avian3d::prelude::*;
use bevy::{
    asset::AssetPlugin,
    ecs::schedule::ExecutorKind,
    prelude::*,
    remote::{BrpMessage, BrpResult, BrpSender, RemotePlugin},
    render::{mesh::MeshPlugin, view::VisibilityPlugin},
    scene::ScenePlugin,
    time::{TimePlugin, TimeUpdateStrategy},
    transform::TransformPlugin,
};
use bevy_rerecast::{
    NavmeshPlugins,
    editor_integration::{
        brp::{BRP_GET_NAVMESH_INPUT_METHOD, NavmeshInputResponse},
        transmission::deserialize,
    },
};
use serde::{Deserialize, Serialize};

use crate::{cx::Cx, rng::Rng, shapes::Shape, util};

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Kind {
    SpawnSolid,
    SpawnBody,
    SpawnCollider,
    Despawn,
    Move,
    Scale,
    Reparent,
    Orphan,
    SetBody,
    RemoveBody,
    ReplaceShape,
    MutateShape,
    RemoveCollider,
    Push,
    /// A marker that says nothing about what the collider is made of or belongs to.
    Mark,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum At {
    Between,
    First,
    Fixed,
    Update,
    Last,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edit {
    pub kind: Kind,
    pub at: At,
    pub target: u32,
    pub seed: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Frame(u32),
    Edit(Edit),
    Request,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PhysPlan {
    /// Seed of the order in which plugins are added.
    pub plugin_order: u32,
    /// No physics steps happen.
    pub paused: bool,
    pub steps: Vec<Step>,
}

#[derive(Resource, Default)]
struct Pending(Vec<Edit>);

/// The shape that the game last gave a collider.
#[derive(Component, Clone)]
struct Given(Shape);

/// Entities of the game, in the order in which they appeared.
#[derive(Resource, Default)]
struct Things(Vec<Entity>);

fn run_pending(w: &mut World, at: At) {
    let mut now = Vec::new();
    w.resource_mut::<Pending>().0.retain(|e| {
        if e.at == at {
            now.push(e.clone());
        }
        e.at != at
    });
    for e in now {
        apply(w, &e);
    }
}

fn some_transform(r: &mut Rng) -> Transform {
    let t = Transform::from_xyz(r.f(-6.0, 6.0), r.f(-2.0, 6.0), r.f(-6.0, 6.0)).with_rotation(
        Quat::from_euler(EulerRot::YXZ, r.f(-3.0, 3.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)),
    );
    match r.below(4) {
        0 => t.with_scale(Vec3::splat(r.f(0.5, 2.0))),
        1 => t.with_scale(Vec3::new(r.f(0.5, 2.0), r.f(0.5, 2.0), r.f(0.5, 2.0))),
        _ => t,
    }
}

fn some_body(r: &mut Rng) -> RigidBody {
    match r.below(5) {
        0 => RigidBody::Dynamic,
        1 => RigidBody::Kinematic,
        _ => RigidBody::Static,
    }
}

fn some_shape(r: &mut Rng) -> (Shape, Collider) {
    loop {
        let s = Shape::random(r);
        if let Some(c) = s.collider() {
            return (s, c);
        }
    }
}

fn apply(w: &mut World, e: &Edit) {
    let r = &mut Rng::new(e.seed as u64);
    w.resource_scope(|w, mut things: Mut<Things>| {
        things.0.retain(|e| w.get_entity(*e).is_ok());
        let things = &mut things.0;
        let target = (!things.is_empty()).then(|| things[e.target as usize % things.len()]);
        match e.kind {
            Kind::SpawnSolid => {
                let (s, c) = some_shape(r);
                things.push(w.spawn((some_transform(r), some_body(r), c, Given(s))).id());
            }
            Kind::SpawnBody => {
                things.push(w.spawn((some_transform(r), some_body(r))).id());
            }
            Kind::SpawnCollider => {
                let (s, c) = some_shape(r);
                let t = some_transform(r);
                let n = w.spawn((t, c, Given(s))).id();
                if let Some(p) = target
                    && r.pct(85)
                {
                    w.entity_mut(p).add_child(n);
                }
                things.push(n);
            }
            _ => {}
        }
        let Some(t) = target else { return };
        match e.kind {
            Kind::Despawn => {
                w.entity_mut(t).despawn();
            }
            Kind::Move => {
                let to = some_transform(r);
                if let Some(mut x) = w.get_mut::<Transform>(t) {
                    x.translation = to.translation;
                    x.rotation = to.rotation;
                }
            }
            Kind::Scale => {
                let to = Vec3::new(r.f(0.5, 2.0), r.f(0.5, 2.0), r.f(0.5, 2.0));
                if let Some(mut x) = w.get_mut::<Transform>(t) {
                    x.scale = to;
                }
            }
            Kind::Reparent => {
                let p = things[r.idx(things.len())];
                let mut a = p;
                loop {
                    if a == t {
                        return;
                    }
                    match w.get::<ChildOf>(a) {
                        Some(c) => a = c.parent(),
                        None => break,
                    }
                }
                w.entity_mut(p).add_child(t);
            }
            Kind::Orphan => {
                w.entity_mut(t).remove::<ChildOf>();
            }
            Kind::SetBody => {
                let b = some_body(r);
                match w.get_mut::<RigidBody>(t) {
                    Some(mut x) if r.bool() => *x = b,
                    _ => {
                        w.entity_mut(t).insert(b);
                    }
                }
            }
            Kind::RemoveBody => {
                w.entity_mut(t).remove::<RigidBody>();
            }
            Kind::ReplaceShape => {
                let (s, c) = some_shape(r);
                w.entity_mut(t).insert((c, Given(s)));
            }
            Kind::MutateShape => {
                let (s, c) = some_shape(r);
                if let Some(mut x) = w.get_mut::<Collider>(t) {
                    x.set_shape(c.shape().clone());
                    w.entity_mut(t).insert(Given(s));
                }
            }
            Kind::RemoveCollider => {
                w.entity_mut(t).remove::<(Collider, Given)>();
            }
            Kind::Push => {
                let v = Vec3::new(r.f(-3.0, 3.0), r.f(0.0, 3.0), r.f(-3.0, 3.0));
                if w.get::<RigidBody>(t).is_some() {
                    w.entity_mut(t).insert(LinearVelocity(v));
                }
            }
            Kind::Mark => {
                let mut e = w.entity_mut(t);
                match r.below(10) {
                    0 => e.insert(Sensor),
                    1 => e.insert(ColliderDisabled),
                    2 => e.insert(RigidBodyDisabled),
                    3 => e.insert(CollisionLayers::NONE),
                    4 => e.insert(Visibility::Hidden),
                    5 => e.insert(Friction::new(r.f(0.0, 1.0))),
                    6 => e.remove::<Sensor>(),
                    7 => e.remove::<ColliderDisabled>(),
                    8 => e.remove::<RigidBodyDisabled>(),
                    _ => e.insert(Name::new("thing")),
                };
            }
            _ => {}
        }
    });
}

fn game(p: &PhysPlan) -> App {
    let mut app = App::new();
    app.add_plugins((
        TaskPoolPlugin {
            task_pool_options: TaskPoolOptions::with_num_threads(1),
        },
        bevy::diagnostic::FrameCountPlugin,
        TimePlugin,
        TransformPlugin,
        AssetPlugin {
            file_path: util::no_assets().to_string(),
            ..default()
        },
        MeshPlugin,
        VisibilityPlugin,
        ScenePlugin,
    ));
    app.init_asset::<Image>().init_asset::<StandardMaterial>();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(std::time::Duration::ZERO));
    app.init_resource::<Things>().init_resource::<Pending>();
    let r = &mut Rng::new(p.plugin_order as u64);
    let mut order = [0, 1, 2, 3];
    r.shuffle(&mut order);
    for k in order {
        match k {
            0 => app.add_plugins(RemotePlugin::default()),
            1 => app.add_plugins(NavmeshPlugins::default()),
            2 => app.add_plugins(avian_rerecast::AvianRerecastPlugin::default()),
            _ => app.add_plugins(PhysicsPlugins::default()),
        };
    }
    app.add_systems(First, |w: &mut World| run_pending(w, At::First));
    app.add_systems(FixedUpdate, |w: &mut World| run_pending(w, At::Fixed));
    app.add_systems(Update, |w: &mut World| run_pending(w, At::Update));
    app.add_systems(Last, |w: &mut World| run_pending(w, At::Last));
    app.finish();
    app.cleanup();
    if p.paused {
        app.world_mut().resource_mut::<Time<Physics>>().pause();
    }
    // One thread, one order.
    let mut schedules = app.world_mut().resource_mut::<Schedules>();
    for (_, s) in schedules.iter_mut() {
        s.set_executor_kind(ExecutorKind::SingleThreaded);
    }
    app
}

struct Expected {
    transform: GlobalTransform,
    shape: Shape,
}

/// What a request that is answered now must deliver, and what is left out for which reason.
fn expected(app: &mut App, cx: &mut Cx) -> Vec<Expected> {
    let w = app.world_mut();
    let mut q = w.query::<(&GlobalTransform, &Collider, &Given, Option<&ColliderOf>)>();
    let mut bodies = w.query::<&RigidBody>();
    let mut out = Vec::new();
    for (t, _, g, of) in q.iter(w) {
        let Some(of) = of else {
            cx.count("collider without a body");
            continue;
        };
        match bodies.get(w, of.body) {
            Ok(RigidBody::Static) => {}
            Ok(b) => {
                cx.count(&format!("collider of a body: {b:?}"));
                continue;
            }
            Err(_) => {
                cx.count("collider of a lost body");
                continue;
            }
        }
        if !g.0.supported() {
            cx.count("unsupported shape");
            continue;
        }
        cx.count(&format!("shape {}", g.0.name()));
        out.push(Expected {
            transform: *t,
            shape: g.0.clone(),
        });
    }
    out
}

fn compare(r: &NavmeshInputResponse, want: Vec<Expected>, cx: &mut Cx) {
    let mut left: Vec<_> = r
        .affector_meshes
        .iter()
        .map(|a| {
            let p: Vec<Vec3> = a.mesh.vertices.iter().map(|v| Vec3::from(*v)).collect();
            let t: Vec<[usize; 3]> = a
                .mesh
                .indices
                .iter()
                .map(|i| i.to_array().map(|i| i as usize))
                .collect();
            (a.transform, p, t, a.mesh.area_types.len())
        })
        .collect();
    for e in want {
        cx.checks += 1;
        let here = |t: &GlobalTransform| {
            let (a, b) = (t.affine(), e.transform.affine());
            if !b.is_finite() {
                // Avian's solver loses shapes without volume now and then.
                return !a.is_finite();
            }
            a.abs_diff_eq(b, 1e-5 + 1e-5 * b.translation.length())
        };
        let mut why = None;
        let hit = left.iter().position(|(t, p, i, _)| {
            here(t)
                && match e.shape.wrong(p, i) {
                    None => true,
                    Some(w) => {
                        why = Some(w);
                        false
                    }
                }
        });
        match hit {
            Some(k) => {
                let (_, _, t, areas) = left.remove(k);
                if areas != t.len() {
                    cx.violate("physics-shape", format!("{areas} areas for {} triangles", t.len()));
                }
            }
            None => {
                let what = format!("the {} at {:?}", e.shape.name(), e.transform.translation());
                if let Some(w) = why {
                    cx.violate("physics-shape", format!("{what}: {w}"));
                } else if left.iter().any(|(_, p, i, _)| e.shape.wrong(p, i).is_none()) {
                    cx.violate("physics-placement", format!("{what} is reported somewhere else"));
                } else {
                    cx.violate("physics-missing", format!("{what} of a static body is not reported"));
                }
                return;
            }
        }
    }
    if let Some((t, p, ..)) = left.first() {
        cx.violate(
            "physics-unwanted",
            format!(
                "{} affectors too many, one of {} vertices at {:?}",
                left.len(),
                p.len(),
                t.translation()
            ),
        );
    }
}

fn hidden(w: &mut World) -> String {
    let mut q = w.query::<(Entity, &GlobalTransform, Option<&ColliderOf>, Option<&RigidBody>)>();
    let mut v: Vec<_> = q
        .iter(w)
        .map(|(e, t, c, b)| {
            format!("{e} {:?} {:?} {b:?}", t.affine().to_cols_array().map(f32::to_bits), c.map(|c| c.body))
        })
        .collect();
    v.sort();
    format!("{:x}", crate::rng::hash_str(&v.join("\n")))
}

pub fn run(p: &PhysPlan, cx: &mut Cx) {
    util::set_clock(0);
    let mut app = game(p);
    let mut now = 0u64;
    let mut waiting: Vec<(async_channel::Receiver<BrpResult>, u32)> = Vec::new();
    let mut steps = p.steps.clone();
    let mut k = 0;
    while k < steps.len() {
        let s = steps[k].clone();
        k += 1;
        match s {
            Step::Edit(e) => {
                cx.count(&format!("edit {:?}", e.kind));
                cx.sched(&format!("{:?}", e.at));
                cx.log(format!("{:?} {:?}", e.kind, e.at));
                if e.at == At::Between {
                    apply(app.world_mut(), &e);
                } else {
                    app.world_mut().resource_mut::<Pending>().0.push(e);
                }
            }
            Step::Request => {
                let (sender, rx) = async_channel::bounded(1);
                // The mailbox opens in the first frame.
                let Some(mailbox) = app.world().get_resource::<BrpSender>() else {
                    continue;
                };
                let sent = mailbox.try_send(BrpMessage {
                    method: BRP_GET_NAVMESH_INPUT_METHOD.to_string(),
                    params: None,
                    sender,
                });
                if sent.is_ok() {
                    cx.sched("ask");
                    waiting.push((rx, 0));
                }
            }
            Step::Frame(us) => {
                now += us as u64;
                util::set_clock(now);
                cx.sim_us += us as u64;
                if us > 100_000 {
                    cx.fault("stall");
                }
                app.insert_resource(TimeUpdateStrategy::ManualDuration(
                    std::time::Duration::from_micros(us as u64),
                ));
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| app.update())) {
                    let text = util::panic_text(e);
                    cx.log(format!("panic: {text}"));
                    // Avian's own panics are its own.
                    if text.contains("rerecast") {
                        cx.violate("physics-panic", text);
                    } else {
                        cx.count("physics panicked");
                    }
                    return;
                }
                cx.log(format!("{now} frame: {}", hidden(app.world_mut())));
                let mut still = Vec::new();
                for (rx, n) in std::mem::take(&mut waiting) {
                    match rx.try_recv() {
                        Ok(Ok(v)) => {
                            let want = expected(&mut app, cx);
                            if !want.is_empty() {
                                cx.count("served colliders");
                            }
                            cx.state(&format!(
                                "{:?}",
                                want.iter().map(|e| e.shape.name()).collect::<Vec<_>>()
                            ));
                            cx.log(format!("served, {} affectors expected", want.len()));
                            match deserialize::<NavmeshInputResponse>(&v) {
                                Ok(r) => compare(&r, want, cx),
                                Err(e) => cx.violate("physics-refused", format!("undecodable answer: {e:#}")),
                            }
                        }
                        Ok(Err(e)) => cx.violate("physics-refused", format!("{e:?}")),
                        Err(_) if n > 40 => cx.violate("physics-unanswered", "no answer"),
                        Err(_) => still.push((rx, n + 1)),
                    }
                    if cx.stop() {
                        return;
                    }
                }
                waiting = still;
                if k == steps.len() && !waiting.is_empty() {
                    steps.push(Step::Frame(16_667));
                }
            }
        }
    }
}

impl PhysPlan {
    pub fn simpler(&self) -> Vec<PhysPlan> {
        let mut out = Vec::new();
        if !self.paused {
            out.push(PhysPlan { paused: true, ..self.clone() });
        }
        if self.plugin_order != 0 {
            out.push(PhysPlan { plugin_order: 0, ..self.clone() });
        }
        for (i, s) in self.steps.iter().enumerate() {
            let mut q = self.clone();
            match s {
                Step::Frame(us) if *us != 16_667 => q.steps[i] = Step::Frame(16_667),
                Step::Edit(e) if e.at != At::Between => {
                    q.steps[i] = Step::Edit(Edit { at: At::Between, ..e.clone() });
                }
                _ => continue,
            }
            out.push(q);
        }
        out
    }
}

pub fn generate(r: &mut Rng) -> PhysPlan {
    use Kind::*;
    let kinds = [
        SpawnSolid, SpawnSolid, SpawnSolid, SpawnBody, SpawnCollider, SpawnCollider, SpawnCollider,
        Despawn, Move, Move, Scale, Reparent, Orphan, SetBody, SetBody, RemoveBody, ReplaceShape,
        MutateShape, RemoveCollider, Push, Mark, Mark,
    ];
    let edit = |r: &mut Rng, kinds: &[Kind]| {
        Step::Edit(Edit {
            kind: *r.pick(kinds),
            at: *r.pick(&[At::Between, At::Between, At::First, At::Fixed, At::Update, At::Last]),
            target: r.seed(),
            seed: r.seed(),
        })
    };
    let mut steps = Vec::new();
    for _ in 0..r.range(1, 5) {
        steps.push(edit(r, &[SpawnSolid, SpawnBody, SpawnCollider]));
    }
    for _ in 0..r.range(5, 35) {
        let s = match r.below(10) {
            0..=4 => edit(r, &kinds),
            5 | 6 => Step::Request,
            _ => Step::Frame(match r.below(5) {
                0 => 0,
                1 => r.below(40_000) as u32,
                2 if r.pct(30) => 500_000,
                _ => 16_667,
            }),
        };
        steps.push(s);
    }
    steps.push(Step::Request);
    steps.push(Step::Frame(16_667));
    PhysPlan {
        plugin_order: r.seed(),
        paused: r.pct(30),
        steps,
    }
}
