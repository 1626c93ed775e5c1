//! What a run does: generated from a seed, stored in replay files, and minimised.

use serde::{Deserialize, Serialize};

use crate::{
    camsim::{self, CamPlan},
    codec::{self, CodecPlan},
    cx::Cx,
    disk::{self, DiskPlan},
    editor::{Act, EditorCfg},
    game::{self, Backend, EditKind, GameCfg, Scale},
    gamesim::{self, GamePlan, Step},
    gen_assets::TransformMode,
    gensim::{self, GenPlan},
    net::Fault,
    netsim::{self, NetPlan, Op, RawKind, Timed},
    rng::{Rng, mix},
    threads::{self, ThreadPlan},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Plan {
    Net(NetPlan),
    Game(GamePlan),
    Threads(ThreadPlan),
    Disk(DiskPlan),
    Codec(CodecPlan),
    Gen(GenPlan),
    Camera(CamPlan),
}

pub struct Check {
    pub id: &'static str,
    pub title: &'static str,
    /// Violations that speak about this property.
    pub classes: &'static [&'static str],
    pub generate: fn(&mut Rng) -> Plan,
    /// Runs of the quick tier.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// Counters of which at least one must be there for a run to count as non-trivial.
    pub nontrivial: &'static [&'static str],
    pub real: &'static str,
    pub stubs: &'static str,
}

pub const NET_REAL: &str = "game: bevy_rerecast plugins, BRP method dispatch (RemotePlugin), codec; editor: all of bevy_rerecast_editor's own plugins (fetch, build, visualization, ui, camera, theme), ureq's HTTP client; rerecast's whole pipeline";
pub const NET_STUB: &str = "TCP (simulated connections), HTTP server of the game (simulated, instead of RemoteHttpPlugin), renderer and window system (absent), clocks (manual), click events (synthesised at the buttons)";
const CODEC_REAL: &str = "bevy_rerecast plugins and codec, BRP method dispatch (RemotePlugin)";
const GAME_REAL: &str = "bevy_rerecast plugins, Mesh3d backend, BRP method dispatch (RemotePlugin), codec, Bevy's ECS, assets, transform and visibility propagation";
const GAME_STUB: &str = "HTTP server (requests enter at the BRP mailbox), renderer (absent), clocks (manual)";

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            title: "scene load fidelity",
            classes: &[
                "load-mismatch", "load-affectors", "load-refused", "load-panic", "scene-drift", "scene-placement",
                "game-panic", "game-refused", "game-unanswered",
            ],
            generate: gen_c01,
            quick: 900,
            thorough: 20_000,
            rule: "a run is a random game history, 1-2 editors, legal but unusual network behaviour; it counts if at least one load succeeded",
            nontrivial: &["load ok"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C02",
            title: "failed loads",
            classes: &[
                "load-corrupt", "load-unreported", "load-panic", "load-hang", "editor-panic",
                "no-progress",
            ],
            generate: gen_c02,
            quick: 1000,
            thorough: 20_000,
            rule: "a run is a game history with faults on most connections; it counts if at least one load failed",
            nontrivial: &["load failed"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C03",
            title: "recovery",
            classes: &[
                "no-recovery", "load-refused", "load-mismatch", "load-affectors", "load-hang", "load-panic",
                "build-panic", "build-missing", "build-mismatch", "build-partial", "editor-panic", "game-panic",
                "game-unanswered", "game-refused", "no-progress",
            ],
            generate: gen_c03,
            quick: 1500,
            thorough: 20_000,
            rule: "a run is a history with network faults, crashes, restarts and failing builds, after which faults stop; it counts if faults were injected before and a load succeeded after that",
            nontrivial: &["late load"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C04",
            title: "serving is read-only and total",
            classes: &[
                "game-panic", "game-unanswered", "game-answered-twice", "game-wrong-code",
                "game-wrong-answer", "game-refused", "game-served-unservable", "game-changed",
                "game-wrong-affectors", "game-wrong-visuals",
            ],
            generate: gen_c04,
            quick: 2500,
            thorough: 40_000,
            rule: "a run is a random sequence of edits, frames and requests of all kinds on a game with any backend and any asset stores, next to a twin without requests; it counts if at least one request was answered",
            nontrivial: &["request Scene", "request SceneWithParams", "request UnknownMethod"],
            real: GAME_REAL,
            stubs: GAME_STUB,
        },
        Check {
            id: "C05",
            title: "half-loaded assets",
            classes: &[
                "load-mismatch", "load-affectors", "load-refused", "load-panic", "game-panic", "game-refused",
                "game-wrong-answer", "game-wrong-visuals", "game-wrong-affectors",
                "game-unanswered",
            ],
            generate: gen_c05,
            quick: 900,
            thorough: 20_000,
            rule: "a run loads and unloads meshes, materials and images while the scene is requested; it counts if a scene was served or loaded",
            nontrivial: &["load ok", "request Scene"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C06",
            title: "damaged payloads",
            classes: &["codec-refused", "codec-roundtrip", "codec-wrong-value", "codec-panic"],
            generate: |r| Plan::Codec(codec::generate(r)),
            quick: 2500,
            thorough: 60_000,
            rule: "a run carries two payloads over a medium that loses, doubles, reorders and alters pieces; it counts if a damaged payload was decoded",
            nontrivial: &["rejected", "decodes to the same"],
            real: CODEC_REAL,
            stubs: "the medium between encoder and decoder (simulated), renderer (absent)",
        },
        Check {
            id: "C07",
            title: "no residue, no leaks",
            classes: &["leak", "load-permanent", "load-mismatch", "load-affectors", "scene-drift", "load-refused"],
            generate: gen_c07,
            quick: 700,
            thorough: 15_000,
            rule: "a run loads the same and different scenes many times, with builds, toggles and failures between; it counts if at least two loads succeeded",
            nontrivial: &["load ok"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C08",
            title: "editor visibility policy",
            classes: &["mark-missing", "mark-unwanted", "game-wrong-visuals", "game-panic"],
            generate: gen_c08,
            quick: 4000,
            thorough: 60_000,
            rule: "a run adds, removes and re-adds meshes and marks at every point of the frame; it counts if a mesh was added after the start",
            nontrivial: &["edit Spawn", "edit InsertMesh", "edit SpawnChild", "edit ReplaceMesh"],
            real: GAME_REAL,
            stubs: GAME_STUB,
        },
        Check {
            id: "C09",
            title: "mesh backend",
            classes: &["game-wrong-affectors", "game-panic", "game-refused", "game-unanswered"],
            generate: gen_c09,
            quick: 3000,
            thorough: 60_000,
            rule: "a run edits entities, hierarchies and meshes at every point of the frame, with requests between; it counts if a scene was served",
            nontrivial: &["served a scene", "served affectors only"],
            real: GAME_REAL,
            stubs: GAME_STUB,
        },
        Check {
            id: "C10",
            title: "last registered backend",
            classes: &[
                "game-wrong-affectors", "game-panic", "game-wrong-code", "game-served-unservable",
                "game-refused", "game-unanswered", "game-wrong-answer",
            ],
            generate: gen_c10,
            quick: 4000,
            thorough: 60_000,
            rule: "a run adds the plugins in a random order and replaces the backend at random moments between requests; it counts if a backend was replaced or several were registered",
            nontrivial: &["backend replaced", "request Scene"],
            real: GAME_REAL,
            stubs: GAME_STUB,
        },
        Check {
            id: "C12",
            title: "builds are atomic",
            classes: &[
                "build-panic", "build-partial", "build-unreported", "build-missing", "build-mismatch",
                "editor-panic",
            ],
            generate: gen_c12,
            quick: 1500,
            thorough: 15_000,
            rule: "a run builds scenes that are empty, degenerate, tiny, walled or ordinary in any order in the editor, or (a quarter of the runs) stage by stage with any settings and crashes between; it counts if a build failed or succeeded",
            nontrivial: &["build ok", "build failed"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C13",
            title: "the navmesh is that of the loaded scene",
            classes: &[
                "build-mismatch", "build-missing", "build-partial", "build-panic", "load-affectors",
            ],
            generate: gen_c13,
            quick: 700,
            thorough: 15_000,
            rule: "a run loads and builds while the game goes on changing; it counts if a build gave a navmesh",
            nontrivial: &["build ok"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C14",
            title: "layer switches",
            classes: &[
                "layer-visual", "layer-affector", "layer-poly", "layer-detail", "layer-missing",
                "editor-panic",
            ],
            generate: gen_c14,
            quick: 800,
            thorough: 20_000,
            rule: "a run presses layer switches, loads (also failing) and builds in any order, several in a frame; it counts if something was loaded",
            nontrivial: &["load ok"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C15",
            title: "concurrent builds",
            classes: &["build-unrepeatable", "build-influenced"],
            generate: |r| Plan::Threads(threads::generate(r)),
            quick: 1000,
            thorough: 40_000,
            rule: "a run interleaves several builds on several threads, some of which are abandoned by unwinding; it counts if a build ended",
            nontrivial: &["build ok", "build failed"],
            real: "rerecast's whole pipeline, on real threads",
            stubs: "the thread scheduler (the run's seed decides who runs for how many switch points; switch points are the guarded hooks in the pipeline)",
        },
        Check {
            id: "C16",
            title: "stored intermediates",
            classes: &["store-panic", "store-differs", "store-rejected", "store-torn-accepted", "resume-differs"],
            generate: |r| Plan::Disk(disk::generate(r)),
            quick: 1500,
            thorough: 60_000,
            rule: "a run stores the products of its stages, is killed at arbitrary points and goes on from its newest store that loads; it counts if it resumed",
            nontrivial: &["resumed"],
            real: "rerecast's whole pipeline, the serde implementations of its products, bincode and serde_json",
            stubs: "the disk (simulated), the process (killed by unwinding; only the disk survives)",
        },
        Check {
            id: "C17",
            title: "generation requests",
            classes: &[
                "gen-duplicate", "gen-refused", "gen-order", "gen-clobbered", "gen-panic",
                "gen-unfulfilled", "gen-lost",
            ],
            generate: |r| Plan::Gen(gensim::generate(r)),
            quick: 1500,
            thorough: 60_000,
            rule: "a run requests navmeshes from several systems at any point of the frame while others add, reserve, remove and drop navmesh assets; it counts if a request was made",
            nontrivial: &["requests made"],
            real: "bevy_rerecast plugins (NavmeshGenerator, its queue), Bevy's ECS and assets",
            stubs: "renderer (absent), clocks (manual)",
        },
        Check {
            id: "C18",
            title: "user actions take effect exactly once",
            classes: &["act-requests", "act-wrong-request", "act-side-effect", "act-wrong-effect", "act-no-effect", "load-hang"],
            generate: gen_c18,
            quick: 900,
            thorough: 20_000,
            rule: "a run presses all controls in any order and timing under network faults; it counts if at least one control was pressed",
            nontrivial: &["act Load", "act Build", "act OpenDialog", "act CloseDialog"],
            real: NET_REAL,
            stubs: NET_STUB,
        },
        Check {
            id: "C19",
            title: "editor camera",
            classes: &[
                "cam-motion", "cam-uncommanded", "cam-bounds", "cam-look", "cam-cursor", "cam-panic",
            ],
            generate: |r| Plan::Camera(camsim::generate(r)),
            quick: 1500,
            thorough: 60_000,
            rule: "a run presses, holds and releases keys and buttons, moves the mouse and loses focus, with any frame times; it counts if the camera was commanded in some frame",
            nontrivial: &["commanded frame"],
            real: "all of bevy_rerecast_editor's own plugins, Bevy's input handling and clocks' arithmetic",
            stubs: "input devices and window system (synthesised input events), clock source (manual), renderer (absent)",
        },
    ]
}

pub fn check(id: &str) -> Option<Check> {
    checks().into_iter().find(|c| c.id == id)
}

pub fn generate(c: &Check, seed: u64, i: u64) -> Plan {
    let tag = crate::rng::hash_str(c.id);
    let mut r = Rng::new(mix(seed ^ tag).wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
    (c.generate)(&mut r)
}

impl Plan {
    pub fn run(&self, cx: &mut Cx) {
        match self {
            Plan::Net(p) => netsim::run(p, cx),
            Plan::Game(p) => gamesim::run(p, cx),
            Plan::Threads(p) => threads::run(p, cx),
            Plan::Disk(p) => disk::run(p, cx),
            Plan::Codec(p) => codec::run(p, cx),
            Plan::Gen(p) => gensim::run(p, cx),
            Plan::Camera(p) => camsim::run(p, cx),
        }
    }

    /// The number of parts that can be left out one by one.
    pub fn len(&self) -> usize {
        match self {
            Plan::Net(p) => p.ops.len(),
            Plan::Game(p) => p.steps.len(),
            Plan::Threads(p) => p.tasks.len(),
            Plan::Disk(p) => p.lives.len(),
            Plan::Codec(p) => p.carries.len() + p.edits().len(),
            Plan::Gen(p) => p.steps.len(),
            Plan::Camera(p) => p.steps.len(),
        }
    }

    pub fn keep(&self, mask: &[bool]) -> Plan {
        match self {
            Plan::Net(p) => {
                let mut q = p.clone();
                q.ops.clear();
                let mut dt = 0;
                for (o, k) in p.ops.iter().zip(mask) {
                    dt += o.dt;
                    if *k {
                        q.ops.push(Timed { dt, op: o.op.clone() });
                        dt = 0;
                    }
                }
                if dt > 0 {
                    q.ops.push(Timed { dt, op: Op::Wait });
                }
                Plan::Net(q)
            }
            Plan::Game(p) => {
                let mut q = p.clone();
                q.steps = filter(&p.steps, mask);
                Plan::Game(q)
            }
            Plan::Threads(p) => Plan::Threads(ThreadPlan {
                tasks: filter(&p.tasks, mask),
                ..p.clone()
            }),
            Plan::Disk(p) => Plan::Disk(DiskPlan {
                lives: filter(&p.lives, mask),
                ..p.clone()
            }),
            Plan::Codec(p) => Plan::Codec(p.keep(mask)),
            Plan::Gen(p) => Plan::Gen(GenPlan {
                steps: filter(&p.steps, mask),
                ..p.clone()
            }),
            Plan::Camera(p) => Plan::Camera(CamPlan {
                steps: filter(&p.steps, mask),
                ..p.clone()
            }),
        }
    }

    /// Simpler plans, one change at a time.
    pub fn simpler(&self) -> Vec<Plan> {
        let mut out = Vec::new();
        match self {
            Plan::Net(p) => {
                let mut add = |f: &dyn Fn(&mut NetPlan)| {
                    let mut q = p.clone();
                    f(&mut q);
                    out.push(Plan::Net(q));
                };
                if p.editors > 1 {
                    add(&|q| q.editors = 1);
                }
                if !p.faults.is_empty() {
                    add(&|q| q.faults.clear());
                    add(&|q| {
                        q.faults.pop();
                    });
                    for i in 0..p.faults.len() {
                        if p.faults[i] != Fault::None {
                            add(&|q| q.faults[i] = Fault::None);
                        }
                    }
                }
                if p.editor.decor {
                    add(&|q| q.editor.decor = false);
                }
                for g in simpler_game(&p.game) {
                    add(&|q| q.game = g.clone());
                }
                for i in 0..p.ops.len() {
                    if matches!(p.ops[i].op, Op::Wait) {
                        add(&|q| {
                            q.ops.remove(i);
                        });
                    }
                    if p.ops[i].dt > 0 {
                        add(&|q| q.ops[i].dt = 0);
                        if p.ops[i].dt > 50_000 {
                            add(&|q| q.ops[i].dt = 50_000);
                        }
                    }
                }
            }
            Plan::Game(p) => {
                if p.twin {
                    let mut q = p.clone();
                    q.twin = false;
                    out.push(Plan::Game(q));
                }
                for g in simpler_game(&p.cfg) {
                    let mut q = p.clone();
                    q.cfg = g;
                    out.push(Plan::Game(q));
                }
            }
            Plan::Threads(p) => out.extend(p.simpler().into_iter().map(Plan::Threads)),
            Plan::Disk(p) => out.extend(p.simpler().into_iter().map(Plan::Disk)),
            Plan::Codec(p) => out.extend(p.simpler().into_iter().map(Plan::Codec)),
            Plan::Gen(p) => out.extend(p.simpler().into_iter().map(Plan::Gen)),
            Plan::Camera(p) => out.extend(p.simpler().into_iter().map(Plan::Camera)),
        }
        out
    }
}

pub fn filter<T: Clone>(v: &[T], mask: &[bool]) -> Vec<T> {
    v.iter()
        .zip(mask)
        .filter(|(_, k)| **k)
        .map(|(x, _)| x.clone())
        .collect()
}

pub fn simpler_game(g: &GameCfg) -> Vec<GameCfg> {
    let mut out = Vec::new();
    let mut add = |f: &dyn Fn(&mut GameCfg)| {
        let mut q = g.clone();
        f(&mut q);
        out.push(q);
    };
    if g.entities > 0 {
        add(&|q| q.entities = 0);
        add(&|q| q.entities -= 1);
    }
    if g.textures > 0 {
        add(&|q| q.textures = 0);
    }
    if g.missing {
        add(&|q| q.missing = false);
    }
    if g.scale != Scale::Usual {
        add(&|q| q.scale = Scale::Usual);
    }
    if g.odd {
        add(&|q| q.odd = false);
    }
    if !g.plain && !g.hostile {
        add(&|q| q.plain = true);
    }
    if g.mode != TransformMode::Exact {
        add(&|q| q.mode = TransformMode::Exact);
    }
    if g.plugin_order != 0 {
        add(&|q| q.plugin_order = 0);
    }
    if g.backends.len() > 1 {
        add(&|q| {
            q.backends.remove(0);
        });
    }
    out
}

// ---------------------------------------------------------------- generators

fn dt(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 | 1 => 0,
        2..=5 => r.below(25_000) as u32,
        6 => r.below(100_000) as u32,
        _ => r.below(400_000) as u32,
    }
}

fn edit(r: &mut Rng, kinds: &[EditKind]) -> Op {
    Op::Edit(game::rand_edit(r, kinds))
}

fn act(r: &mut Rng, a: Act) -> Op {
    Op::Act {
        e: r.below(4) as u8,
        act: a,
    }
}

fn raw(r: &mut Rng) -> Op {
    Op::Raw(*r.pick(&[
        RawKind::Scene,
        RawKind::SceneGivenUp,
        RawKind::SceneWithParams,
        RawKind::UnknownMethod,
        RawKind::ListMethod,
    ]))
}

const BUILDABLE: &[EditKind] = {
    use EditKind::*;
    &[
        Spawn, Spawn, SpawnFloor, SpawnFloor, SpawnChild, Despawn, Move, Move, Reparent, Orphan,
        RemoveMesh, InsertMesh, ReplaceMesh, MutateMesh, Hide,
    ]
};

fn net(r: &mut Rng) -> NetPlan {
    NetPlan {
        seed: r.seed(),
        game: GameCfg::random(r),
        editors: if r.pct(25) { 2 } else { 1 },
        editor: EditorCfg {
            reference: false,
            decor: r.pct(30),
        },
        ops: Vec::new(),
        faults: Vec::new(),
    }
}

fn push(p: &mut NetPlan, r: &mut Rng, op: Op) {
    let dt = dt(r);
    // Clicked twice before the dialog is there.
    let again = matches!(op, Op::Act { act: Act::OpenDialog, .. }) && r.pct(25);
    p.ops.push(Timed { dt, op: op.clone() });
    if again {
        p.ops.push(Timed { dt: 0, op });
    }
}

fn any_act(r: &mut Rng) -> Act {
    *r.pick(&[
        Act::Load,
        Act::Load,
        Act::OpenDialog,
        Act::CloseDialog,
        Act::Build,
        Act::ToggleVisual,
        Act::ToggleAffector,
        Act::TogglePoly,
        Act::ToggleDetail,
    ])
}

/// Now and then, a scene of another order of magnitude.
fn scale(r: &mut Rng, promille: u64) -> Scale {
    if r.below(1000) >= promille {
        return Scale::Usual;
    }
    *r.pick(&[Scale::ManyObjects, Scale::LargeMesh, Scale::LargeMesh])
}

/// Now and then, a scene as large as a real one.
fn landscape(r: &mut Rng, g: &mut GameCfg, promille: u64) {
    if g.scale == Scale::Usual && r.below(1000) < promille {
        g.scale = Scale::Landscape;
    }
}

/// The number of operations; now and then a long history.
fn length(r: &mut Rng, from: i64, to: i64) -> i64 {
    if r.below(100) < 3 {
        return r.range(50, 90);
    }
    r.range(from, to)
}

fn faults(r: &mut Rng, ops: &[Timed], promille: u64, otherwise: fn(&mut Rng) -> Fault) -> Vec<Fault> {
    (0..ops.len().max(12))
        .map(|_| if r.below(1000) < promille { Fault::random(r) } else { otherwise(r) })
        .collect()
}

/// Large scenes take long to compare: only short histories of them.
fn large(p: &mut NetPlan, n: &mut i64) {
    if p.game.scale != Scale::Usual {
        if *n >= 50 {
            p.game.scale = Scale::Usual;
        } else {
            *n = (*n).min(9);
            p.editors = 1;
        }
    }
}

fn gen_c01(r: &mut Rng) -> Plan {
    let mut p = net(r);
    p.game.scale = scale(r, 12);
    if r.below(1000) < 4 {
        p.game.scale = Scale::LargeTexture;
    }
    if p.game.scale != Scale::Usual {
        p.editors = 1;
        let op = act(r, Act::Load);
        push(&mut p, r, op);
        for _ in 0..r.range(0, 3) {
            let op = edit(r, game::STRUCTURAL);
            push(&mut p, r, op);
        }
        let op = act(r, Act::Load);
        push(&mut p, r, op);
        p.faults = (0..4).map(|_| Fault::legal(r)).collect();
        return Plan::Net(p);
    }
    if r.pct(15) {
        p.game.mode = TransformMode::Wild;
    }
    let n = length(r, 4, 22);
    for _ in 0..n {
        let op = match r.below(20) {
            0..=8 => edit(r, game::STRUCTURAL),
            9 => edit(r, game::LOADING),
            10..=15 => act(r, Act::Load),
            16 => raw(r),
            17 => Op::StallGame { us: r.below(200_000) as u32 },
            18 => Op::StallEditor { e: r.below(2) as u8, us: r.below(200_000) as u32 },
            _ => {
                let a = any_act(r);
                act(r, if a == Act::Build { Act::ToggleVisual } else { a })
            }
        };
        push(&mut p, r, op);
    }
    let op = act(r, Act::Load);
    push(&mut p, r, op);
    p.faults = faults(r, &p.ops, 0, Fault::legal);
    Plan::Net(p)
}

fn gen_c02(r: &mut Rng) -> Plan {
    let mut p = net(r);
    p.game.scale = scale(r, 6);
    let mut n = length(r, 4, 20);
    large(&mut p, &mut n);
    for _ in 0..n {
        let op = match r.below(20) {
            0..=3 => edit(r, game::STRUCTURAL),
            4..=11 => act(r, Act::Load),
            12 => Op::Crash,
            13 => Op::Restart(GameCfg::random(r)),
            14 => raw(r),
            15 => Op::StallGame { us: r.below(3_000_000) as u32 },
            16 => Op::StallEditor { e: r.below(2) as u8, us: r.below(300_000) as u32 },
            17 => {
                if r.pct(30) {
                    Op::KillEditor { e: r.below(2) as u8 }
                } else {
                    Op::SetBackend(*r.pick(&[Backend::Failing, Backend::Mesh3d]))
                }
            }
            _ => {
                let a = any_act(r);
                act(r, a)
            }
        };
        push(&mut p, r, op);
    }
    let op = act(r, Act::Load);
    push(&mut p, r, op);
    let q = *r.pick(&[30, 60, 90]);
    p.faults = faults(r, &p.ops, q * 10, Fault::legal);
    if r.pct(50) {
        // First something to lose.
        p.faults[0] = Fault::None;
        p.ops.insert(0, Timed { dt: 100_000, op: Op::Act { e: 0, act: Act::Load } });
    }
    Plan::Net(p)
}

fn gen_c03(r: &mut Rng) -> Plan {
    let mut p = net(r);
    p.editor.reference = true;
    p.game.textures = 0;
    p.game.hostile = r.pct(40);
    p.game.plain = true;
    landscape(r, &mut p.game, 15);
    let mut n = r.range(3, 14);
    large(&mut p, &mut n);
    for _ in 0..n {
        let op = match r.below(20) {
            0..=2 => edit(r, game::STRUCTURAL),
            3..=7 => act(r, Act::Load),
            8..=10 => act(r, Act::Build),
            11 | 12 => Op::Crash,
            13 => {
                let mut g = GameCfg::random(r);
                g.hostile = r.pct(50);
                Op::Restart(g)
            }
            14 => Op::SetBackend(*r.pick(&[Backend::Failing, Backend::Mesh3d])),
            15 => Op::StallGame { us: r.below(3_000_000) as u32 },
            16 => Op::StallEditor { e: r.below(2) as u8, us: r.below(300_000) as u32 },
            17 => raw(r),
            _ => {
                let a = any_act(r);
                act(r, a)
            }
        };
        push(&mut p, r, op);
    }
    let q = *r.pick(&[40, 80]);
    p.faults = (0..14)
        .map(|_| if r.pct(q) { Fault::random(r) } else { Fault::legal(r) })
        .collect();
    push(&mut p, r, Op::FaultsStop);
    if r.pct(60) {
        let mut g = GameCfg::random(r);
        g.plain = true;
        g.textures = 0;
        push(&mut p, r, Op::Restart(g));
    } else {
        p.ops.push(Timed { dt: 0, op: Op::SetBackend(Backend::Mesh3d) });
    }
    p.ops.push(Timed { dt: 100_000, op: Op::Wait });
    for e in 0..p.editors {
        p.ops.push(Timed { dt: 50_000, op: Op::Act { e, act: Act::Load } });
        p.ops.push(Timed { dt: *r.pick(&[0, 50_000]), op: Op::Act { e, act: Act::Build } });
    }
    Plan::Net(p)
}

fn gen_c05(r: &mut Rng) -> Plan {
    if r.pct(50) {
        return gen_c05_game(r);
    }
    let mut p = net(r);
    p.game.textures = *r.pick(&[20, 60]);
    p.game.entities = r.range(2, 7) as u32;
    p.game.missing = r.pct(60);
    let n = r.range(4, 20);
    for _ in 0..n {
        let op = match r.below(10) {
            0..=5 => edit(r, game::LOADING),
            _ => act(r, Act::Load),
        };
        push(&mut p, r, op);
    }
    let op = act(r, Act::Load);
    push(&mut p, r, op);
    Plan::Net(p)
}

fn gen_c05_game(r: &mut Rng) -> Plan {
    let mut cfg = GameCfg::random(r);
    cfg.textures = *r.pick(&[20, 60]);
    cfg.entities = r.range(2, 8) as u32;
    cfg.missing = r.pct(60);
    let mut steps = Vec::new();
    for _ in 0..r.range(6, 40) {
        steps.push(match r.below(10) {
            0..=4 => Step::Edit(game::rand_edit(r, game::LOADING)),
            5..=7 => Step::Request(RawKind::Scene),
            _ => Step::Frame,
        });
    }
    Plan::Game(GamePlan { cfg, twin: false, steps })
}

fn gen_c07(r: &mut Rng) -> Plan {
    let mut p = net(r);
    p.game.scale = scale(r, 8);
    p.game.textures = *r.pick(&[0, 20, 50]);
    let edits = *r.pick(&[0, 0, 10, 40]);
    let q = *r.pick(&[0, 0, 30]);
    let mut n = length(r, 6, 20);
    large(&mut p, &mut n);
    for _ in 0..n {
        let op = if r.pct(edits) {
            edit(r, game::STRUCTURAL)
        } else {
            match r.below(12) {
                0..=6 => act(r, Act::Load),
                7 => act(r, Act::OpenDialog),
                8 => act(r, Act::CloseDialog),
                9 => act(r, Act::Build),
                _ => {
                    let a = any_act(r);
                    act(r, a)
                }
            }
        };
        push(&mut p, r, op);
        // Time for everything to settle.
        if r.pct(50) {
            p.ops.push(Timed { dt: r.range(80_000, 150_000) as u32, op: Op::Wait });
        }
    }
    p.faults = faults(r, &p.ops, q * 10, |_| Fault::None);
    Plan::Net(p)
}

fn gen_c12(r: &mut Rng) -> Plan {
    if r.pct(25) {
        // The editor has only some of the settings: all of them, on the library's stages.
        let mut p = disk::generate(r);
        p.stores &= r.seed() & r.seed();
        if r.below(120) == 0 {
            p.spec.things = crate::jobs::PLATEAUS + r.range(100, 190) as u32;
            p.format = disk::Format::Bincode;
            p.spec.odd = 0;
        }
        return Plan::Disk(p);
    }
    let mut p = net(r);
    p.editor.reference = true;
    p.editors = 1;
    p.game.textures = 0;
    p.game.hostile = r.pct(75);
    p.game.odd = p.game.hostile;
    p.game.plain = !p.game.hostile;
    p.game.entities = r.below(4) as u32;
    landscape(r, &mut p.game, 60);
    let mut n = r.range(3, 14);
    large(&mut p, &mut n);
    for _ in 0..n {
        let op = match r.below(16) {
            0..=3 => edit(r, BUILDABLE),
            4..=7 => act(r, Act::Load),
            8..=13 => act(r, Act::Build),
            14 => {
                let mut g = GameCfg::random(r);
                g.textures = 0;
                g.hostile = r.bool();
                g.odd = g.hostile;
                g.plain = true;
                Op::Restart(g)
            }
            _ => {
                let a = any_act(r);
                act(r, a)
            }
        };
        if r.below(60) == 0 {
            let b = match r.bool() {
                true => Backend::Custom(game::BROKEN_BACKEND + r.below(100) as u32),
                false => Backend::Mesh3d,
            };
            push(&mut p, r, Op::SetBackend(b));
        }
        push(&mut p, r, op);
    }
    p.faults = (0..10)
        .map(|_| if r.pct(10) { Fault::random(r) } else { Fault::None })
        .collect();
    Plan::Net(p)
}

fn gen_c13(r: &mut Rng) -> Plan {
    let mut p = net(r);
    p.game.scale = scale(r, 8);
    landscape(r, &mut p.game, 20);
    p.editor.reference = true;
    p.game.textures = 0;
    p.game.plain = r.pct(60);
    if r.pct(15) {
        p.game.mode = TransformMode::Wild;
    }
    p.game.entities = r.range(1, 6) as u32;
    let mut n = length(r, 4, 16);
    large(&mut p, &mut n);
    for _ in 0..n {
        let op = match r.below(16) {
            0..=5 => edit(r, BUILDABLE),
            6..=8 => act(r, Act::Load),
            9..=13 => act(r, Act::Build),
            14 => Op::StallEditor { e: r.below(2) as u8, us: r.below(200_000) as u32 },
            _ => {
                let a = any_act(r);
                act(r, a)
            }
        };
        push(&mut p, r, op);
    }
    p.ops.insert(0, Timed { dt: 50_000, op: Op::Act { e: 0, act: Act::Load } });
    let op = act(r, Act::Build);
    push(&mut p, r, op);
    p.faults = faults(r, &p.ops, 150, |_| Fault::None);
    Plan::Net(p)
}

fn gen_c14(r: &mut Rng) -> Plan {
    let mut p = net(r);
    p.game.scale = scale(r, 8);
    landscape(r, &mut p.game, 15);
    p.editor.reference = true;
    p.game.textures = 0;
    p.game.plain = r.pct(70);
    let mut n = length(r, 6, 26);
    large(&mut p, &mut n);
    let together = *r.pick(&[10, 50]);
    for _ in 0..n {
        let op = match r.below(20) {
            0..=2 => edit(r, BUILDABLE),
            3..=6 => act(r, Act::Load),
            7..=9 => act(r, Act::Build),
            10 => act(r, Act::OpenDialog),
            11 => act(r, Act::CloseDialog),
            12 | 13 => act(r, Act::ToggleVisual),
            14 | 15 => act(r, Act::ToggleAffector),
            16 | 17 => act(r, Act::TogglePoly),
            _ => act(r, Act::ToggleDetail),
        };
        push(&mut p, r, op);
        if r.pct(together) {
            p.ops.last_mut().unwrap().dt = 0;
        }
    }
    p.faults = faults(r, &p.ops, 250, |_| Fault::None);
    Plan::Net(p)
}

fn gen_c18(r: &mut Rng) -> Plan {
    let mut p = net(r);
    p.editor.reference = r.pct(40);
    p.game.textures = 0;
    p.game.plain = true;
    let n = length(r, 5, 26);
    let together = *r.pick(&[10, 60]);
    for _ in 0..n {
        let op = match r.below(12) {
            0 => edit(r, BUILDABLE),
            1 => match r.below(4) {
                0 => Op::Crash,
                1 => Op::Restart(GameCfg::random(r)),
                2 => Op::StallGame { us: r.below(1_000_000) as u32 },
                _ => Op::StallEditor { e: r.below(2) as u8, us: r.below(300_000) as u32 },
            },
            _ => {
                let a = any_act(r);
                act(r, a)
            }
        };
        push(&mut p, r, op);
        if r.pct(together) {
            p.ops.last_mut().unwrap().dt = 0;
        }
    }
    let q = *r.pick(&[0, 40, 80]);
    p.faults = faults(r, &p.ops, q * 10, Fault::legal);
    Plan::Net(p)
}

fn game_steps(r: &mut Rng, kinds: &[EditKind], n: i64, requests: u64) -> Vec<Step> {
    (0..n)
        .map(|_| {
            if r.pct(requests) {
                Step::Request(RawKind::Scene)
            } else if r.pct(40) {
                Step::Frame
            } else {
                Step::Edit(game::rand_edit(r, kinds))
            }
        })
        .collect()
}

fn some_backend(r: &mut Rng) -> Backend {
    match r.below(6) {
        0 | 1 => Backend::Mesh3d,
        2 => Backend::Failing,
        _ => Backend::Custom(r.below(1000) as u32),
    }
}

fn gen_c04(r: &mut Rng) -> Plan {
    let mut cfg = GameCfg::random(r);
    cfg.scale = scale(r, 6);
    if r.pct(30) {
        cfg.backends = (0..r.below(3)).map(|_| some_backend(r)).collect();
    }
    if r.pct(12) {
        // The mesh backend needs the store of meshes.
        cfg.stores = *r.pick(&[1, 3, 5]);
    }
    if r.pct(20) {
        cfg.mode = TransformMode::Wild;
    }
    cfg.missing = r.pct(20);
    let n = r.range(5, 40);
    let mut steps = Vec::new();
    for _ in 0..n {
        steps.push(match r.below(16) {
            0..=3 => Step::Edit(game::rand_edit(r, game::STRUCTURAL)),
            4 => Step::Edit(game::rand_edit(r, game::LOADING)),
            5 => Step::Edit(game::rand_edit(r, game::MARKS)),
            6..=8 => Step::Frame,
            9..=11 => Step::Request(RawKind::Scene),
            12 => Step::Request(RawKind::SceneWithParams),
            13 => Step::Request(*r.pick(&[RawKind::UnknownMethod, RawKind::ListMethod])),
            14 => Step::Request(RawKind::SceneGivenUp),
            _ => {
                if r.bool() {
                    Step::Flood(r.range(2, 20) as u8)
                } else {
                    Step::SetBackend(some_backend(r))
                }
            }
        });
    }
    Plan::Game(GamePlan { cfg, twin: true, steps })
}

fn gen_c08(r: &mut Rng) -> Plan {
    let mut cfg = GameCfg::random(r);
    cfg.manual = r.pct(40);
    cfg.textures = 0;
    let n = r.range(5, 40);
    let mut kinds = game::MARKS.to_vec();
    kinds.extend([EditKind::Despawn, EditKind::Reparent, EditKind::UnloadMesh, EditKind::LoadMesh]);
    let steps = game_steps(r, &kinds, n, 15);
    Plan::Game(GamePlan { cfg, twin: false, steps })
}

fn gen_c09(r: &mut Rng) -> Plan {
    let mut cfg = GameCfg::random(r);
    cfg.scale = scale(r, 10);
    cfg.textures = 0;
    cfg.mode = *r.pick(&[TransformMode::Exact, TransformMode::Free, TransformMode::Wild]);
    cfg.manual = r.pct(20);
    let n = r.range(5, 40);
    let mut kinds = game::STRUCTURAL.to_vec();
    kinds.extend([
        EditKind::UnloadMesh, EditKind::LoadMesh, EditKind::ReplaceMesh, EditKind::MutateMesh,
        EditKind::StripVisibility,
    ]);
    let steps = game_steps(r, &kinds, n, 25);
    Plan::Game(GamePlan { cfg, twin: false, steps })
}

fn gen_c10(r: &mut Rng) -> Plan {
    let mut cfg = GameCfg::random(r);
    cfg.textures = 0;
    cfg.backends = (0..r.below(5)).map(|_| some_backend(r)).collect();
    cfg.remote = !r.pct(10);
    cfg.entities = r.below(4) as u32;
    let n = r.range(4, 30);
    let steps = (0..n)
        .map(|_| match r.below(10) {
            0..=2 => Step::SetBackend(some_backend(r)),
            3..=5 => Step::Request(RawKind::Scene),
            6 => Step::Request(*r.pick(&[RawKind::SceneWithParams, RawKind::UnknownMethod, RawKind::SceneGivenUp])),
            7 => Step::Edit(game::rand_edit(r, BUILDABLE)),
            _ => Step::Frame,
        })
        .collect();
    Plan::Game(GamePlan { cfg, twin: false, steps })
}


