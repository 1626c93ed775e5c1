//! Requests for navmeshes at run time, next to systems that add and drop navmesh assets.

use std::{
    collections::{HashMap, HashSet},
    panic::{AssertUnwindSafe, catch_unwind},
};

use bevy::{ecs::system::RunSystemOnce, prelude::*};
use bevy_rerecast::{
    Navmesh,
    generator::{NavmeshGenerator, sim_queued},
    rerecast::{BuildContoursFlags, NavmeshConfig},
};
use serde::{Deserialize, Serialize};

use crate::{
    cx::Cx,
    game::{self, At, Edit, Game, GameCfg},
    rng::Rng,
    util,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GenStep {
    /// Several requests in a row by one of three kinds of callers.
    Generate { at: At, caller: u8, seed: u32, n: u8 },
    Add { at: At, seed: u32 },
    /// Reserves a handle of its own.
    Reserve { at: At },
    /// Drops one of the handles of requests.
    DropRequest { at: At, which: u32 },
    /// Drops one of the other navmeshes.
    DropOther { at: At, which: u32 },
    RemoveOther { at: At, which: u32 },
    Edit(Edit),
    Frame,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenPlan {
    pub cfg: GameCfg,
    /// Frames that are waited for the requests in the end.
    pub tail: u32,
    pub steps: Vec<GenStep>,
}

struct Request {
    handle: Option<Handle<Navmesh>>,
    id: AssetId<Navmesh>,
    cfg: NavmeshConfig,
    /// The frame at the end of which it was there.
    done: Option<u32>,
    /// Whether the handle was dropped before that.
    given_up: bool,
}

#[derive(Resource, Default)]
struct Model {
    pending: Vec<GenStep>,
    requests: Vec<Request>,
    others: Vec<(Handle<Navmesh>, Option<Navmesh>)>,
    /// All identities that were ever given out.
    ids: HashSet<AssetId<Navmesh>>,
    /// Identities of assets the program put there itself.
    own: HashSet<AssetId<Navmesh>>,
    violations: Vec<(&'static str, String)>,
    log: Vec<String>,
    checks: u64,
}

struct CallerA;
struct CallerB;

fn config(seed: u32) -> NavmeshConfig {
    let r = &mut Rng::new(seed as u64);
    if seed.is_multiple_of(2) {
        // Any.
        let mut n = || {
            let bits = *r.pick(&[2u32, 5, 8, 16]);
            r.below(1 << bits) as u16
        };
        let mut c = config(1);
        c.width = n();
        c.height = n();
        c.tile_size = n();
        c.border_size = n();
        c.walkable_height = n();
        c.walkable_climb = n();
        c.walkable_radius = n();
        c.max_edge_len = n();
        c.min_region_area = n();
        c.merge_region_area = n();
        c.max_vertices_per_polygon = n();
        c.cell_size = r.f(0.01, 4.0);
        c.cell_height = r.f(0.01, 4.0);
        c.walkable_slope_angle = r.f(0.0, 1.5);
        c.max_simplification_error = r.f(0.0, 3.0);
        c.detail_sample_dist = r.f(0.0, 9.0);
        c.detail_sample_max_error = r.f(0.0, 3.0);
        c.aabb.min = Vec3::new(r.f(-9.0, 0.0), r.f(-9.0, 0.0), r.f(-9.0, 0.0));
        c.aabb.max = Vec3::new(r.f(0.0, 9.0), r.f(0.0, 9.0), r.f(0.0, 9.0));
        c.contour_flags = BuildContoursFlags::from_bits_truncate(r.below(4) as u8);
        return c;
    }
    NavmeshConfig {
        width: r.below(200) as u16,
        height: r.below(200) as u16,
        tile_size: 0,
        border_size: r.below(3) as u16,
        cell_size: 0.3,
        cell_height: 0.2,
        aabb: default(),
        walkable_slope_angle: 0.8,
        walkable_height: 10,
        walkable_climb: 3,
        walkable_radius: r.below(4) as u16,
        max_edge_len: 12,
        max_simplification_error: 1.3,
        min_region_area: 8,
        merge_region_area: r.below(30) as u16,
        max_vertices_per_polygon: 6,
        detail_sample_dist: 6.0,
        detail_sample_max_error: 1.0,
        contour_flags: BuildContoursFlags::DEFAULT,
    }
}

fn at_of(s: &GenStep) -> At {
    match s {
        GenStep::Generate { at, .. }
        | GenStep::Add { at, .. }
        | GenStep::Reserve { at }
        | GenStep::DropRequest { at, .. }
        | GenStep::DropOther { at, .. }
        | GenStep::RemoveOther { at, .. } => *at,
        GenStep::Edit(_) | GenStep::Frame => At::Between,
    }
}

fn run_pending(w: &mut World, at: At) {
    let all = std::mem::take(&mut w.resource_mut::<Model>().pending);
    for s in all {
        if at_of(&s) == at {
            apply(w, &s);
        } else {
            w.resource_mut::<Model>().pending.push(s);
        }
    }
}

/// A new identity was given out.
fn fresh(w: &mut World, h: &Handle<Navmesh>, what: &str, request: bool) {
    let exists = w.resource::<Assets<Navmesh>>().contains(h.id());
    let strong = matches!(h, Handle::Strong(_));
    let m = &mut *w.resource_mut::<Model>();
    m.checks += 1;
    let n = m.ids.len();
    if !m.ids.insert(h.id()) {
        m.violations.push(("gen-duplicate", format!("{what} has the identity of an earlier one")));
    }
    if request && exists {
        m.violations.push(("gen-duplicate", format!("{what} is the handle of an existing navmesh")));
    }
    if request && !strong {
        m.violations.push(("gen-duplicate", format!("{what} does not own what it stands for")));
    }
    m.log.push(format!("{what}: identity {n}"));
}

fn apply(w: &mut World, s: &GenStep) {
    match s {
        GenStep::Generate { caller, seed, n, .. } => {
            for k in 0..*n {
                // Every other request is like the one before.
                let cfg = config(seed.wrapping_add(k as u32 / 2));
                let h = match caller % 3 {
                    0 => w.run_system_once(move |mut g: NavmeshGenerator<()>| g.generate(cfg)),
                    1 => w.run_system_once(move |mut g: NavmeshGenerator<CallerA>| g.generate(cfg)),
                    _ => w.run_system_once(move |mut g: NavmeshGenerator<CallerB>| g.generate(cfg)),
                };
                let h = match h {
                    Ok(h) => h,
                    Err(e) => {
                        w.resource_mut::<Model>()
                            .violations
                            .push(("gen-refused", format!("a request is refused: {e}")));
                        return;
                    }
                };
                fresh(w, &h, "a request's handle", true);
                w.resource_mut::<Model>().requests.push(Request {
                    id: h.id(),
                    handle: Some(h),
                    cfg,
                    done: None,
                    given_up: false,
                });
            }
        }
        GenStep::Add { .. } => {
            let v = Navmesh::default();
            let h = w.resource_mut::<Assets<Navmesh>>().add(v.clone());
            fresh(w, &h, "an added navmesh", false);
            let m = &mut *w.resource_mut::<Model>();
            m.own.insert(h.id());
            m.others.push((h, Some(v)));
        }
        GenStep::Reserve { .. } => {
            let h = w.resource::<Assets<Navmesh>>().reserve_handle();
            fresh(w, &h, "a reserved handle", false);
            w.resource_mut::<Model>().others.push((h, None));
        }
        GenStep::DropRequest { which, .. } => {
            let m = &mut *w.resource_mut::<Model>();
            let held: Vec<usize> = (0..m.requests.len()).filter(|i| m.requests[*i].handle.is_some()).collect();
            if let Some(i) = held.get(*which as usize % held.len().max(1)) {
                let r = &mut m.requests[*i];
                r.handle = None;
                r.given_up |= r.done.is_none();
            }
        }
        GenStep::DropOther { which, .. } => {
            let m = &mut *w.resource_mut::<Model>();
            if !m.others.is_empty() {
                let i = *which as usize % m.others.len();
                m.others.remove(i);
            }
        }
        GenStep::RemoveOther { which, .. } => {
            let m = &mut *w.resource_mut::<Model>();
            if !m.others.is_empty() {
                let i = *which as usize % m.others.len();
                m.others[i].1 = None;
                let id = m.others[i].0.id();
                w.resource_mut::<Assets<Navmesh>>().remove(id);
            }
        }
        GenStep::Edit(_) | GenStep::Frame => {}
    }
}

pub fn run(p: &GenPlan, cx: &mut Cx) {
    let mut g = Game::new(&p.cfg);
    g.app.init_resource::<Model>();
    g.app.add_systems(First, |w: &mut World| run_pending(w, At::First));
    g.app.add_systems(Update, |w: &mut World| run_pending(w, At::Update));
    g.app.add_systems(Last, |w: &mut World| run_pending(w, At::Last));
    let mut frame = 0;
    let mut steps: Vec<GenStep> = p.steps.clone();
    steps.extend(std::iter::repeat_n(GenStep::Frame, p.tail as usize));
    for s in &steps {
        match s {
            GenStep::Frame => {
                if let Err(e) = g.update() {
                    cx.violate("gen-panic", format!("a frame panics: {e}"));
                    return;
                }
                frame += 1;
                util::set_clock(frame as u64 * 16_667);
            }
            GenStep::Edit(e) => g.edit(e),
            s if at_of(s) == At::Between => {
                let w = g.app.world_mut();
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| apply(w, s))) {
                    cx.violate("gen-panic", format!("{s:?} panics: {}", util::panic_text(e)));
                    return;
                }
            }
            s => g.app.world_mut().resource_mut::<Model>().pending.push(s.clone()),
        }
        if !matches!(s, GenStep::Frame) {
            let name = format!("{s:?}");
            let name = name.split([' ', '(', '{']).next().unwrap_or("?").to_string();
            cx.count(&format!("step {name}"));
            cx.sched(&name);
        }
        look(&mut g, cx, frame);
        if cx.stop() {
            return;
        }
    }
    cx.sim_us += frame as u64 * 16_667;
    let queued: HashSet<_> = sim_queued(g.app.world()).into_iter().map(|(id, _)| id).collect();
    let m = g.app.world().resource::<Model>();
    if let Some(i) = m
        .requests
        .iter()
        .position(|r| r.done.is_none() && !r.given_up && !queued.contains(&r.id))
    {
        cx.violate(
            "gen-lost",
            format!("request {i} neither waits nor is there after {} more frames", p.tail),
        );
    }
    let waiting = m.requests.iter().filter(|r| r.done.is_none() && !r.given_up).count();
    let done = m.requests.iter().filter(|r| r.done.is_some()).count();
    if m.requests.is_empty() {
        return;
    }
    cx.count("requests made");
    cx.checks += 1;
    if waiting > 0 {
        if done == 0 {
            cx.violate(
                "gen-unfulfilled",
                format!("none of the requested navmeshes is there after {} more frames", p.tail),
            );
        } else {
            cx.violate(
                "gen-unfulfilled",
                format!("{waiting} requested navmeshes are not there after {} more frames, although others are", p.tail),
            );
        }
    }
}

/// Everything that holds after every step.
fn look(g: &mut Game, cx: &mut Cx, frame: u32) {
    let w = g.app.world_mut();
    let queued = sim_queued(w);
    let there: HashMap<AssetId<Navmesh>, Navmesh> =
        w.resource::<Assets<Navmesh>>().iter().map(|(i, n)| (i, n.clone())).collect();
    let m = &mut *w.resource_mut::<Model>();
    for l in m.log.drain(..) {
        cx.log(l);
    }
    cx.checks += std::mem::take(&mut m.checks);
    for (c, msg) in m.violations.drain(..) {
        cx.violate(c, msg);
    }
    // Other navmeshes stay as they are.
    for (h, v) in &m.others {
        cx.checks += 1;
        if there.get(&h.id()) != v.as_ref() {
            cx.violate("gen-clobbered", "another navmesh asset was changed, removed or filled");
        }
    }
    // Nothing appears that nobody asked for.
    for id in there.keys() {
        if !m.own.contains(id) && !m.requests.iter().any(|r| r.id == *id) {
            cx.violate("gen-clobbered", "a navmesh appeared that nobody asked for");
        }
    }
    let mut late = false;
    for (i, r) in m.requests.iter_mut().enumerate() {
        if r.done.is_none() && there.contains_key(&r.id) {
            r.done = Some(frame);
            cx.log(format!("request {i} is fulfilled in frame {frame}"));
            cx.count("fulfilled");
        }
        if r.done.is_none() && !r.given_up {
            late = true;
        } else if r.done == Some(frame) && late {
            cx.violate("gen-order", format!("request {i} is fulfilled before an earlier one"));
        }
    }
    // What waits is what was asked for, in this order.
    cx.checks += 1;
    let mut at = 0;
    for (id, cfg) in &queued {
        match m.requests[at..].iter().position(|r| r.id == *id) {
            Some(k) => {
                at += k + 1;
                let r = &m.requests[at - 1];
                if r.cfg != *cfg {
                    cx.violate("gen-order", format!("request {} waits with another configuration", at - 1));
                }
            }
            None => {
                cx.violate("gen-order", "the requests do not wait in the order in which they were made");
                break;
            }
        }
    }
    cx.state(&format!("{} {} {}", queued.len(), there.len(), m.others.len()));
}

pub fn generate(r: &mut Rng) -> GenPlan {
    let mut cfg = GameCfg::random(r);
    cfg.entities = r.below(3) as u32;
    cfg.plain = true;
    let steps = (0..r.range(3, 40))
        .map(|_| {
            let at = *r.pick(&[At::Between, At::Between, At::First, At::Update, At::Last]);
            match r.below(12) {
                0..=2 => GenStep::Generate {
                    at,
                    caller: r.below(3) as u8,
                    seed: r.below(8) as u32,
                    n: if r.pct(3) { r.range(40, 200) as u8 } else { r.range(1, 4) as u8 },
                },
                3 => GenStep::Add { at, seed: r.seed() },
                4 => GenStep::Reserve { at },
                5 => GenStep::DropRequest { at, which: r.seed() },
                6 => GenStep::DropOther { at, which: r.seed() },
                7 => GenStep::RemoveOther { at, which: r.seed() },
                8 => GenStep::Edit(game::rand_edit(r, game::STRUCTURAL)),
                _ => GenStep::Frame,
            }
        })
        .collect();
    GenPlan { cfg, tail: *r.pick(&[50, 100, 300]), steps }
}

impl GenPlan {
    pub fn simpler(&self) -> Vec<GenPlan> {
        let mut out: Vec<GenPlan> = crate::plan::simpler_game(&self.cfg)
            .into_iter()
            .map(|cfg| GenPlan { cfg, ..self.clone() })
            .collect();
        for (i, s) in self.steps.iter().enumerate() {
            if let GenStep::Generate { at, caller, seed, n } = s
                && *n > 1
            {
                let mut q = self.clone();
                q.steps[i] = GenStep::Generate { at: *at, caller: *caller, seed: *seed, n: n - 1 };
                out.push(q);
            }
        }
        out
    }
}
