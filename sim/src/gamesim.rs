//! The game alone, under any history of edits, frames, backends and requests, next to a twin that
//! is never asked for anything.

use std::collections::BTreeMap;

use bevy::{prelude::*, remote::BrpResult};
use bevy_rerecast::editor_integration::EditorVisible;
use serde::{Deserialize, Serialize};

use crate::{
    canon::SceneCanon,
    cx::Cx,
    game::{self, Backend, Edit, EditKind, Game, GameCfg, MarkEvent},
    netsim::{RawKind, check_answer},
    util,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Frame,
    Edit(Edit),
    Request(RawKind),
    /// More requests than the mailbox holds.
    Flood(u8),
    SetBackend(Backend),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GamePlan {
    pub cfg: GameCfg,
    pub twin: bool,
    pub steps: Vec<Step>,
}

struct Pending {
    kind: RawKind,
    rx: async_channel::Receiver<BrpResult>,
    frames: u32,
    order: u64,
}

/// Frames within which everything in the mailbox is answered.
const ANSWER_FRAMES: u32 = 40;

pub fn run(plan: &GamePlan, cx: &mut Cx) {
    let mut g = Game::new(&plan.cfg);
    let mut twin = plan.twin.then(|| Game::new(&plan.cfg));
    let mut pending: Vec<Pending> = Vec::new();
    let mut marks: BTreeMap<Entity, Option<bool>> = BTreeMap::new();
    let mut order = 0;
    let mut frames = 0;
    let tail = std::iter::repeat_n(Step::Frame, 3);
    let mut steps: Vec<Step> = vec![Step::Frame];
    steps.extend(plan.steps.iter().cloned());
    steps.extend(tail);
    let mut i = 0;
    while i < steps.len() {
        let s = steps[i].clone();
        i += 1;
        match s {
            Step::Frame => {
                frames += 1;
                util::set_clock(frames as u64 * 16_667);
                if !frame(plan, cx, &mut g, twin.as_mut(), &mut pending, &mut marks, frames) {
                    return;
                }
                if i == steps.len() && !pending.is_empty() && frames < 500 {
                    steps.push(Step::Frame);
                }
            }
            Step::Edit(e) => {
                // A mark is not removed in the gap in which it was set automatically.
                if e.kind == EditKind::Unmark && e.at != game::At::Between && i > 1 {
                    cx.count("late unmark");
                }
                g.edit(&e);
                if let Some(t) = &mut twin {
                    t.edit(&e);
                }
                cx.sched("edit");
                cx.log(format!("edit {:?} {:?}", e.kind, e.at));
                cx.count(&format!("edit {:?}", e.kind));
            }
            Step::Request(k) => ask(cx, &mut g, &mut pending, k, &mut order),
            Step::Flood(n) => {
                for _ in 0..n {
                    ask(cx, &mut g, &mut pending, RawKind::Scene, &mut order);
                }
            }
            Step::SetBackend(b) => {
                g.set_backend(b);
                if let Some(t) = &mut twin {
                    t.set_backend(b);
                }
                cx.log(format!("backend {b:?}"));
                cx.count("backend replaced");
            }
        }
        if cx.stop() {
            return;
        }
    }
    cx.sim_us += frames as u64 * 16_667;
}

fn ask(cx: &mut Cx, g: &mut Game, pending: &mut Vec<Pending>, k: RawKind, order: &mut u64) {
    let (m, p) = match k {
        RawKind::Scene | RawKind::SceneGivenUp => (game::METHOD, None),
        RawKind::SceneWithParams => (game::METHOD, Some(serde_json::json!({ "a": 1 }))),
        RawKind::UnknownMethod => ("bevy_rerecast/unknown", None),
        RawKind::ListMethod => ("bevy/list", None),
    };
    let Some(rx) = g.request(m, p) else {
        cx.count("mailbox full or missing");
        return;
    };
    cx.log(format!("request {k:?}"));
    cx.sched("req");
    cx.count(&format!("request {k:?}"));
    if k == RawKind::SceneGivenUp {
        cx.fault("client gone");
        return;
    }
    *order += 1;
    pending.push(Pending {
        kind: k,
        rx,
        frames: 0,
        order: *order,
    });
}

fn frame(
    plan: &GamePlan,
    cx: &mut Cx,
    g: &mut Game,
    twin: Option<&mut Game>,
    pending: &mut Vec<Pending>,
    marks: &mut BTreeMap<Entity, Option<bool>>,
    n: u32,
) -> bool {
    if let Err(p) = g.update() {
        cx.violate("game-panic", p);
        return false;
    }
    let servable = g.servable();
    let mut snap: Option<SceneCanon> = None;
    let mut keep = Vec::new();
    for mut p in std::mem::take(pending) {
        match p.rx.try_recv() {
            Ok(r) => {
                let s = snap.get_or_insert_with(|| g.snapshot());
                cx.log(format!(
                    "frame {n}: request {} answered {}",
                    p.order,
                    match &r {
                        Ok(v) => format!("with {} bytes", v.as_str().map_or(0, str::len)),
                        Err(e) => format!("with error {}", e.code),
                    }
                ));
                cx.checks += 1;
                if let Err((class, msg)) = check_answer(p.kind, servable, &r, s) {
                    cx.violate(class, msg);
                }
                if p.rx.try_recv().is_ok() {
                    cx.violate("game-answered-twice", format!("{:?}", p.kind));
                }
                if r.is_ok() && p.kind == RawKind::Scene {
                    cx.count(match (s.affectors.is_empty(), s.visuals.is_empty()) {
                        (true, true) => "served nothing",
                        (_, true) => "served affectors only",
                        (true, _) => "served visuals only",
                        _ => "served a scene",
                    });
                    cx.state(&format!("s{}a{}v{:?}", s.affectors.len(), s.visuals.len(), s.sharing));
                }
            }
            Err(async_channel::TryRecvError::Empty) => {
                p.frames += 1;
                if p.frames >= ANSWER_FRAMES {
                    cx.violate(
                        "game-unanswered",
                        format!("{:?} got no answer in {ANSWER_FRAMES} frames", p.kind),
                    );
                } else {
                    keep.push(p);
                }
            }
            Err(_) => cx.violate("game-unanswered", format!("{:?} was dropped", p.kind)),
        }
    }
    *pending = keep;

    if let Some(t) = twin {
        if let Err(p) = t.update() {
            cx.violate("game-panic", format!("without any request: {p}"));
            return false;
        }
        let (a, ta) = g.fingerprint();
        let (b, tb) = t.fingerprint();
        cx.checks += 1;
        if a != b {
            let d = ta
                .lines()
                .zip(tb.lines())
                .find(|(x, y)| x != y)
                .map_or("length".to_string(), |(x, y)| format!("{x} instead of {y}"));
            cx.violate("game-changed", format!("frame {n}: {d}"));
            return false;
        }
    }
    marking(plan, cx, g, marks, n);
    cx.log(format!("frame {n}: {:x}", g.fingerprint().0));
    true
}

/// The marks for the editor against a model of the policy.
fn marking(
    plan: &GamePlan,
    cx: &mut Cx,
    g: &mut Game,
    marks: &mut BTreeMap<Entity, Option<bool>>,
    n: u32,
) {
    let mut added: Vec<Entity> = Vec::new();
    for (e, ev) in g.marks() {
        match ev {
            MarkEvent::MeshAdded => {
                if !plan.cfg.manual {
                    marks.insert(e, Some(true));
                    added.push(e);
                }
            }
            MarkEvent::MeshRemoved => {}
            MarkEvent::Marked => {
                marks.insert(e, Some(true));
            }
            MarkEvent::Unmarked => {
                // Before the end of the frame in which the mesh came, either is right.
                let v = if added.contains(&e) { None } else { Some(false) };
                marks.insert(e, v);
            }
            MarkEvent::Despawned => {
                marks.remove(&e);
            }
        }
    }
    let w = g.app.world_mut();
    let mut q = w.query::<(Entity, Has<EditorVisible>, Has<Mesh3d>)>();
    for (e, has, mesh) in q.iter(w) {
        let want = marks.entry(e).or_insert(Some(false));
        cx.checks += u64::from(mesh);
        match want {
            None => *want = Some(has),
            Some(w) if *w != has => {
                cx.violate(
                    if has { "mark-unwanted" } else { "mark-missing" },
                    format!(
                        "frame {n}: {e} {} marked for the editor (manual: {})",
                        if has { "is" } else { "is not" },
                        plan.cfg.manual
                    ),
                );
                *want = Some(has);
            }
            _ => {}
        }
    }
    let _ = n;
}
