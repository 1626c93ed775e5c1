//! The whole system: game, editors, network and their users, under one scheduler with simulated time.

use std::{
    cmp::Reverse,
    collections::{BinaryHeap, HashMap, VecDeque},
};

use bevy::remote::BrpResult;
use bevy_rerecast::editor_integration::{brp::NavmeshInputResponse, transmission::deserialize};
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::{
    canon::SceneCanon,
    cx::Cx,
    editor::{Act, Cmd, Editor, EditorCfg, FrameReport, NetCall, NetReply, Obs, Status},
    game::{self, Backend, Edit, Game, GameCfg},
    net::{self, Fault, Item},
    oracle,
    rng::{Rng, mix},
    util,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Edit(Edit),
    Act { e: u8, act: Act },
    /// Nothing happens for a while.
    Wait,
    Crash,
    Restart(GameCfg),
    StallGame { us: u32 },
    StallEditor { e: u8, us: u32 },
    KillEditor { e: u8 },
    Raw(RawKind),
    SetBackend(Backend),
    /// From here on the network and the game work.
    FaultsStop,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum RawKind {
    Scene,
    SceneGivenUp,
    SceneWithParams,
    UnknownMethod,
    ListMethod,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Timed {
    /// Simulated microseconds after the previous one.
    pub dt: u32,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetPlan {
    pub seed: u32,
    pub game: GameCfg,
    pub editors: u8,
    pub editor: EditorCfg,
    pub ops: Vec<Timed>,
    /// What happens to the n-th connection; none of these after `FaultsStop`.
    pub faults: Vec<Fault>,
}

enum Ev {
    GameFrame(u32),
    EditorFrame(u8),
    Op(usize),
    Deliver(u64, Item),
    Reply(u8, NetReply),
    RecvTimeout(u64, u64),
    CrashNow(u32),
}

struct Conn {
    id: u64,
    editor: u8,
    fault: Fault,
    rng: Rng,
    inbox: VecDeque<Vec<u8>>,
    closed: Option<NetReply>,
    waiting: bool,
    wait_token: u64,
    sent: Vec<u8>,
    requests: u32,
    waiting_for_game: Option<PendingReq>,
    rx: Option<(async_channel::Receiver<BrpResult>, Value)>,
    snapshot: Option<SceneCanon>,
    /// The game answered with an error.
    game_error: bool,
    /// Its server went away under it.
    server_lost: bool,
    served_at: u64,
    frames_waited: u32,
    client_gone: bool,
    wrong_request: Option<String>,
    wire: Vec<u64>,
}

struct PendingReq {
    method: String,
    params: Option<Value>,
    id: Value,
}

pub struct Served {
    pub snapshot: Option<SceneCanon>,
    pub clean: bool,
    pub game_error: bool,
    pub fault: Fault,
    pub requests: u32,
}

struct Raw {
    kind: RawKind,
    rx: async_channel::Receiver<BrpResult>,
    generation: u32,
    frames: u32,
}

pub struct Ed {
    pub node: Option<Editor>,
    parked: bool,
    frame_due: bool,
    busy: bool,
    acts: VecDeque<Act>,
    stall_until: u64,
    connects: u32,
    refused: u32,
    last_frame_at: u64,
    pub model: oracle::Model,
    pub frames_idle: u32,
    /// A load was requested that nothing stands in the way of.
    late_requested: bool,
}

pub struct Net<'a> {
    plan: &'a NetPlan,
    pub cx: &'a mut Cx,
    now: u64,
    seq: u64,
    queue: BinaryHeap<Reverse<(u64, u64)>>,
    evs: HashMap<u64, Ev>,
    game: Option<Game>,
    generation: u32,
    stall_game_until: u64,
    conns: Vec<Conn>,
    raws: Vec<Raw>,
    eds: Vec<Ed>,
    ops_done: bool,
    faults_stopped: bool,
    game_rng: Rng,
    ed_rng: Vec<Rng>,
    pub shared: oracle::Shared,
}

const FRAME: u64 = 16_667;
const MAX_EVENTS: u64 = 60_000;
/// Game frames within which a request is answered: one per message that may be ahead of it.
const ANSWER_FRAMES: u32 = 40;

pub fn run(plan: &NetPlan, cx: &mut Cx) {
    util::set_clock(0);
    let mut net = Net {
        plan,
        cx,
        now: 0,
        seq: 0,
        queue: BinaryHeap::new(),
        evs: HashMap::new(),
        game: None,
        generation: 0,
        stall_game_until: 0,
        conns: Vec::new(),
        raws: Vec::new(),
        eds: Vec::new(),
        ops_done: false,
        faults_stopped: false,
        game_rng: Rng::new(mix(plan.seed as u64 ^ 0x11)),
        ed_rng: Vec::new(),
        shared: Default::default(),
    };
    net.go();
    let now = net.now;
    for e in &mut net.eds {
        if let Some(mut n) = e.node.take() {
            n.quit();
        }
    }
    drop(net);
    cx.sim_us += now;
}

impl<'a> Net<'a> {
    fn at(&mut self, dt: u64, ev: Ev) {
        self.seq += 1;
        self.queue.push(Reverse((self.now + dt, self.seq)));
        self.evs.insert(self.seq, ev);
    }

    fn go(&mut self) {
        self.start_game(&self.plan.game.clone());
        for i in 0..self.plan.editors {
            self.start_editor(i);
        }
        if !self.plan.ops.is_empty() {
            self.at(self.plan.ops[0].dt as u64, Ev::Op(0));
        } else {
            self.ops_done = true;
        }
        let mut n = 0;
        while let Some(Reverse((t, seq))) = self.queue.pop() {
            self.now = self.now.max(t);
            util::set_clock(self.now);
            let ev = self.evs.remove(&seq).unwrap();
            n += 1;
            if n > MAX_EVENTS {
                self.cx.violate("no-progress", "the run does not come to an end");
                break;
            }
            self.event(ev);
            if self.cx.stop() {
                break;
            }
            if self.ops_done && self.settled() {
                break;
            }
        }
        for i in 0..self.eds.len() {
            if self.eds[i].busy && !self.cx.stop() {
                self.cx.violate(
                    "load-hang",
                    format!("editor {i} still waits for the network although all its connections are finished"),
                );
            }
        }
        self.final_checks();
    }

    fn settled(&self) -> bool {
        self.eds.iter().all(|e| {
            e.node.is_none() || (!e.busy && e.acts.is_empty() && e.frames_idle >= 3)
        }) && self
            .raws
            .iter()
            .all(|r| r.generation != self.generation || self.game.is_none())
    }

    fn final_checks(&mut self) {
        for i in 0..self.eds.len() {
            let e = &self.eds[i];
            let (asked, got) = (e.late_requested, e.model.late_loads);
            if got > 0 {
                self.cx.count("late load");
            }
            if self.eds[i].node.is_some() && asked && got == 0 && !self.cx.stop() {
                self.cx.violate(
                    "no-recovery",
                    format!("editor {i} could not load a scene after all faults had stopped"),
                );
            }
        }
    }

    // ------------------------------------------------------------ nodes

    fn start_game(&mut self, cfg: &GameCfg) {
        self.generation += 1;
        let g = Game::new(cfg);
        self.cx.log(format!("{} game {} starts", self.now, self.generation));
        self.game = Some(g);
        let d = self.game_rng.below(FRAME);
        self.at(d, Ev::GameFrame(self.generation));
    }

    fn start_editor(&mut self, i: u8) {
        let node = Editor::spawn(self.plan.editor);
        let first = match node.rx.recv() {
            Ok(Status::Ready(o)) => o,
            _ => Box::default(),
        };
        self.cx.log(format!(
            "editor {i} starts: assets {:?}, {} others, {} ui",
            first.assets, first.others, first.ui
        ));
        self.ed_rng.push(Rng::new(mix(self.plan.seed as u64 ^ (0x22 + i as u64))));
        self.eds.push(Ed {
            node: Some(node),
            parked: false,
            frame_due: false,
            busy: false,
            acts: VecDeque::new(),
            stall_until: 0,
            connects: 0,
            refused: 0,
            last_frame_at: self.now,
            model: oracle::Model::new(*first),
            frames_idle: 0,
            late_requested: false,
        });
        let d = self.ed_rng[i as usize].below(FRAME);
        self.at(d, Ev::EditorFrame(i));
    }

    fn crash_game(&mut self) {
        if self.game.take().is_none() {
            return;
        }
        self.cx.log(format!("{} game {} is gone", self.now, self.generation));
        let ids: Vec<usize> = (0..self.conns.len()).collect();
        for i in ids {
            let c = &mut self.conns[i];
            if c.closed.is_none() && (c.waiting_for_game.is_some() || c.rx.is_some() || c.requests == 0)
            {
                c.server_lost = true;
                c.waiting_for_game = None;
                c.rx = None;
                let rst = c.rng.bool();
                let id = c.id;
                self.at(100, Ev::Deliver(id, if rst { Item::Reset } else { Item::Eof }));
            }
        }
        // Their answers never come.
        let g = self.generation;
        self.raws.retain(|r| r.generation != g);
    }

    // ------------------------------------------------------------ events

    fn event(&mut self, ev: Ev) {
        match ev {
            Ev::GameFrame(g) => self.game_frame(g),
            Ev::EditorFrame(e) => self.editor_frame(e),
            Ev::Op(i) => self.op(i),
            Ev::Deliver(c, item) => self.deliver(c, item),
            Ev::Reply(e, r) => self.resume(e, r),
            Ev::RecvTimeout(c, token) => {
                let conn = &mut self.conns[c as usize];
                if conn.waiting && conn.wait_token == token {
                    conn.waiting = false;
                    let e = conn.editor;
                    self.resume(e, NetReply::TimedOut);
                }
            }
            Ev::CrashNow(g) => {
                // The connection is lost all the same.
                if g == self.generation && !self.faults_stopped {
                    self.crash_game();
                }
            }
        }
    }

    fn op(&mut self, i: usize) {
        let t = self.plan.ops[i].clone();
        self.cx.sched(&format!("op{i}"));
        self.cx.log(format!("{} op {:?}", self.now, brief(&t.op)));
        match t.op {
            Op::Edit(e) => {
                if let Some(g) = &mut self.game {
                    g.edit(&e);
                    self.cx.count("edit");
                }
            }
            Op::Act { e, act } => {
                let n = self.eds.len().max(1);
                if let Some(ed) = self.eds.get_mut(e as usize % n) {
                    if ed.node.is_some() {
                        ed.acts.push_back(act);
                        ed.frames_idle = 0;
                        if act == Act::Load
                            && self.faults_stopped
                            && self.game.as_ref().is_some_and(|g| g.servable() && g.cfg.remote)
                        {
                            ed.late_requested = true;
                        }
                    }
                }
            }
            Op::Wait => {}
            Op::Crash => {
                self.cx.fault("game crash");
                self.crash_game();
            }
            Op::Restart(cfg) => {
                self.crash_game();
                self.start_game(&cfg);
                self.cx.count("game restart");
            }
            Op::StallGame { us } => {
                self.cx.fault("stalled game");
                self.stall_game_until = self.now + us as u64;
            }
            Op::StallEditor { e, us } => {
                self.cx.fault("stalled editor");
                let n = self.eds.len().max(1);
                if let Some(ed) = self.eds.get_mut(e as usize % n) {
                    ed.stall_until = self.now + us as u64;
                }
            }
            Op::KillEditor { e } => {
                let n = self.eds.len().max(1);
                let e = e as usize % n;
                if let Some(mut node) = self.eds.get_mut(e).and_then(|x| x.node.take()) {
                    self.cx.fault("editor killed");
                    node.quit();
                    self.eds[e].busy = false;
                    self.eds[e].acts.clear();
                    for c in &mut self.conns {
                        if c.editor as usize == e {
                            c.client_gone = true;
                        }
                    }
                }
            }
            Op::Raw(k) => self.raw(k),
            Op::SetBackend(b) => {
                if let Some(g) = &mut self.game {
                    g.set_backend(b);
                }
            }
            Op::FaultsStop => {
                self.faults_stopped = true;
                if self.game.is_none() {
                    self.start_game(&self.plan.game.clone());
                }
                self.stall_game_until = 0;
                for e in &mut self.eds {
                    e.stall_until = 0;
                }
            }
        }
        if i + 1 < self.plan.ops.len() {
            self.at(self.plan.ops[i + 1].dt as u64, Ev::Op(i + 1));
        } else {
            self.ops_done = true;
        }
    }

    fn raw(&mut self, k: RawKind) {
        let generation = self.generation;
        let Some(g) = &mut self.game else { return };
        let (m, p) = match k {
            RawKind::Scene | RawKind::SceneGivenUp => (game::METHOD, None),
            RawKind::SceneWithParams => (game::METHOD, Some(serde_json::json!({ "a": 1 }))),
            RawKind::UnknownMethod => ("bevy_rerecast/unknown", None),
            RawKind::ListMethod => ("bevy/list", None),
        };
        let Some(rx) = g.request(m, p) else { return };
        self.cx.count(&format!("raw request {k:?}"));
        if k == RawKind::SceneGivenUp {
            self.cx.fault("client gone");
            return;
        }
        self.raws.push(Raw {
            kind: k,
            rx,
            generation,
            frames: 0,
        });
    }

    // ------------------------------------------------------------ game

    fn game_frame(&mut self, generation: u32) {
        if generation != self.generation || self.game.is_none() {
            return;
        }
        if self.now < self.stall_game_until {
            let d = self.stall_game_until - self.now;
            self.at(d, Ev::GameFrame(generation));
            return;
        }
        self.cx.sched("g");
        // What waits for room in the mailbox goes first.
        for i in 0..self.conns.len() {
            self.submit(i);
        }
        let g = self.game.as_mut().unwrap();
        if let Err(p) = g.update() {
            self.cx.violate("game-panic", p);
            self.game = None;
            return;
        }
        let mut snap: Option<SceneCanon> = None;
        let servable = g.servable();
        // Answers to the editors.
        for i in 0..self.conns.len() {
            let Some((rx, id)) = &self.conns[i].rx else {
                continue;
            };
            let result = match rx.try_recv() {
                Ok(r) => r,
                Err(async_channel::TryRecvError::Empty) => {
                    self.conns[i].frames_waited += 1;
                    if self.conns[i].frames_waited == ANSWER_FRAMES {
                        self.cx.violate(
                            "game-unanswered",
                            format!("a scene request got no answer in {ANSWER_FRAMES} game frames"),
                        );
                    }
                    continue;
                }
                Err(_) => {
                    self.cx.violate("game-unanswered", "a scene request was dropped unanswered");
                    self.conns[i].rx = None;
                    continue;
                }
            };
            let id = id.clone();
            let now = self.now;
            let snapshot = snap
                .get_or_insert_with(|| self.game.as_mut().unwrap().snapshot())
                .clone();
            let c = &mut self.conns[i];
            c.rx = None;
            c.served_at = now;
            let body = match &result {
                Ok(v) => Ok(v),
                Err(e) => Err((e.code, e.message.clone())),
            };
            c.game_error = result.is_err();
            if result.is_ok() {
                if !servable {
                    self.cx.violate("game-served-unservable", "a scene was sent although none can be");
                }
            } else if servable {
                let m = format!("{:?}", result.as_ref().unwrap_err());
                self.cx.violate("game-refused", m);
            }
            let c = &mut self.conns[i];
            c.snapshot = result.is_ok().then_some(snapshot);
            let fault = c.fault.clone();
            let mut rng = c.rng.clone();
            let items = net::response(&fault, &id, body, &mut rng);
            let len: usize = items
                .iter()
                .map(|(_, i)| if let Item::Data(d) = i { d.len() } else { 0 })
                .sum();
            self.cx.log(format!(
                "{} conn {i} answered: {} bytes in {} items, scene {:x}",
                self.now,
                len,
                items.len(),
                self.conns[i].snapshot.as_ref().map_or(0, |s| s.fingerprint())
            ));
            if matches!(fault, Fault::CrashDuring { .. }) {
                self.conns[i].server_lost = true;
                let g = self.generation;
                self.at(150, Ev::CrashNow(g));
            }
            let mut t = 0;
            for (d, item) in items {
                t += d;
                self.at(t, Ev::Deliver(i as u64, item));
            }
        }
        self.check_raws(&mut snap);
        let jitter = self.game_rng.below(4_000);
        self.at(FRAME - 2_000 + jitter, Ev::GameFrame(generation));
    }

    fn check_raws(&mut self, snap: &mut Option<SceneCanon>) {
        let mut keep = Vec::new();
        for mut r in std::mem::take(&mut self.raws) {
            if r.generation != self.generation {
                continue;
            }
            let result = match r.rx.try_recv() {
                Ok(x) => x,
                Err(async_channel::TryRecvError::Empty) => {
                    r.frames += 1;
                    if r.frames == ANSWER_FRAMES {
                        self.cx.violate(
                            "game-unanswered",
                            format!("{:?} got no answer in {ANSWER_FRAMES} game frames", r.kind),
                        );
                    } else {
                        keep.push(r);
                    }
                    continue;
                }
                Err(_) => {
                    self.cx
                        .violate("game-unanswered", format!("{:?} was dropped unanswered", r.kind));
                    continue;
                }
            };
            let g = self.game.as_mut().unwrap();
            let servable = g.servable();
            let s = snap.get_or_insert_with(|| g.snapshot());
            if let Err((class, msg)) = check_answer(r.kind, servable, &result, s) {
                self.cx.violate(class, msg);
            }
            self.cx.checks += 1;
        }
        self.raws = keep;
    }

    /// Passes a complete request on to the game.
    fn submit(&mut self, i: usize) {
        let c = &mut self.conns[i];
        let Some(p) = &c.waiting_for_game else { return };
        let Some(g) = &mut self.game else { return };
        let (m, params) = (p.method.clone(), p.params.clone());
        if let Some(rx) = g.request(&m, params) {
            let p = c.waiting_for_game.take().unwrap();
            c.rx = Some((rx, p.id));
        }
    }

    // ------------------------------------------------------------ network

    fn net_call(&mut self, e: u8, call: NetCall) -> Option<NetReply> {
        match call {
            NetCall::Connect(addr) => {
                let ed = &mut self.eds[e as usize];
                ed.connects += 1;
                let id = self.conns.len() as u64;
                let planned = if self.faults_stopped {
                    Fault::None
                } else {
                    self.plan.faults.get(id as usize).cloned().unwrap_or(Fault::None)
                };
                let rng = Rng::new(mix((self.plan.seed as u64) << 8 ^ id));
                let alive = self.game.as_ref().is_some_and(|g| g.cfg.remote);
                let refused = !alive || planned == Fault::Refuse || addr != "127.0.0.1:15702";
                self.cx.log(format!(
                    "{} editor {e} connects to {addr}: conn {id}, {planned:?}{}",
                    self.now,
                    if refused { ", refused" } else { "" }
                ));
                if planned != Fault::None {
                    self.cx.fault(&planned.name());
                }
                if !alive {
                    self.cx.fault("Refuse (game not running)");
                }
                self.conns.push(Conn {
                    id,
                    editor: e,
                    fault: planned,
                    rng,
                    inbox: VecDeque::new(),
                    closed: None,
                    waiting: false,
                    wait_token: 0,
                    sent: Vec::new(),
                    requests: 0,
                    waiting_for_game: None,
                    rx: None,
                    snapshot: None,
                    game_error: false,
                    server_lost: !alive,
                    served_at: 0,
                    frames_waited: 0,
                    client_gone: false,
                    wrong_request: None,
                    wire: Vec::new(),
                });
                let d = 50 + self.conns[id as usize].rng.below(2_000);
                if refused {
                    self.eds[e as usize].refused += 1;
                }
                self.at(
                    d,
                    Ev::Reply(e, if refused { NetReply::Refused } else { NetReply::Connected(id) }),
                );
                None
            }
            NetCall::Send(id, data) => {
                let c = &mut self.conns[id as usize];
                if let Fault::ResetOnSend { at } = c.fault {
                    if c.sent.len() + data.len() > at as usize {
                        c.server_lost = true;
                        c.closed = Some(NetReply::Reset);
                        return Some(NetReply::Reset);
                    }
                }
                if c.closed.is_some() {
                    return Some(NetReply::Reset);
                }
                c.sent.extend(data);
                self.received(id as usize);
                Some(NetReply::Ok)
            }
            NetCall::Recv(id, timeout) => {
                let c = &mut self.conns[id as usize];
                if let Some(d) = c.inbox.pop_front() {
                    return Some(NetReply::Data(d));
                }
                if let Some(r) = &c.closed {
                    return Some(match r {
                        NetReply::Eof => NetReply::Eof,
                        _ => NetReply::Reset,
                    });
                }
                c.waiting = true;
                c.wait_token += 1;
                let token = c.wait_token;
                if let Some(t) = timeout {
                    self.at(t, Ev::RecvTimeout(id, token));
                }
                None
            }
            NetCall::Close(id) => {
                self.conns[id as usize].client_gone = true;
                Some(NetReply::Ok)
            }
        }
    }

    /// The server got (part of) a request.
    fn received(&mut self, i: usize) {
        let c = &mut self.conns[i];
        let Some((http_method, body)) = net::parse_request(&c.sent) else {
            return;
        };
        c.sent.clear();
        c.requests += 1;
        let v: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        let method = v["method"].as_str().unwrap_or("").to_string();
        if http_method != "POST" || method != game::METHOD || v["jsonrpc"] != "2.0" {
            c.wrong_request = Some(format!("{http_method} {method}"));
        }
        self.cx.log(format!("{} conn {i} request {method}", self.now));
        match c.fault {
            Fault::CloseBeforeAnswer { rst } => {
                c.server_lost = true;
                self.at(300, Ev::Deliver(i as u64, if rst { Item::Reset } else { Item::Eof }));
            }
            Fault::CrashBefore => {
                c.server_lost = true;
                c.waiting_for_game = Some(PendingReq {
                    method,
                    params: v.get("params").cloned(),
                    id: v["id"].clone(),
                });
                let g = self.generation;
                self.at(200, Ev::CrashNow(g));
            }
            _ => {
                c.waiting_for_game = Some(PendingReq {
                    method,
                    params: v.get("params").cloned(),
                    id: v["id"].clone(),
                });
                self.submit(i);
            }
        }
    }

    fn deliver(&mut self, id: u64, item: Item) {
        let c = &mut self.conns[id as usize];
        if c.client_gone || c.closed.is_some() {
            return;
        }
        match item {
            Item::Data(d) => {
                c.wire.push(d.len() as u64);
                c.inbox.push_back(d);
            }
            Item::Eof => c.closed = Some(NetReply::Eof),
            Item::Reset => {
                // What was not read yet is lost with it, or not.
                if c.rng.bool() {
                    c.inbox.clear();
                }
                c.closed = Some(NetReply::Reset);
            }
        }
        if c.waiting {
            c.waiting = false;
            let e = c.editor;
            let reply = match c.inbox.pop_front() {
                Some(d) => NetReply::Data(d),
                None => match &c.closed {
                    Some(NetReply::Eof) => NetReply::Eof,
                    _ => NetReply::Reset,
                },
            };
            self.resume(e, reply);
        }
    }

    // ------------------------------------------------------------ editors

    fn editor_frame(&mut self, e: u8) {
        let i = e as usize;
        if self.eds[i].node.is_none() || self.eds[i].busy {
            return;
        }
        if self.now < self.eds[i].stall_until {
            let d = self.eds[i].stall_until - self.now;
            self.at(d, Ev::EditorFrame(e));
            return;
        }
        self.cx.sched(&format!("e{e}"));
        let ed = &mut self.eds[i];
        let acts: Vec<Act> = ed.acts.drain(..).collect();
        ed.busy = true;
        ed.connects = 0;
        ed.refused = 0;
        let dt_us = self.now - ed.last_frame_at;
        ed.last_frame_at = self.now;
        if acts.is_empty() {
            ed.frames_idle += 1;
        } else {
            ed.frames_idle = 0;
        }
        let _ = ed.node.as_ref().unwrap().tx.send(Cmd::Frame { acts, dt_us });
        self.drive(e);
    }

    fn resume(&mut self, e: u8, r: NetReply) {
        self.cx.sched(&format!("r{e}"));
        self.eds[e as usize].parked = false;
        let Some(node) = &self.eds[e as usize].node else {
            return;
        };
        let _ = node.tx.send(Cmd::Resume(r));
        self.drive(e);
    }

    /// Lets an editor run until it waits or is done.
    fn drive(&mut self, e: u8) {
        loop {
            let Some(node) = &self.eds[e as usize].node else {
                return;
            };
            match node.rx.recv() {
                Ok(Status::Net(call)) => {
                    let close = matches!(call, NetCall::Close(_));
                    match self.net_call(e, call) {
                        Some(r) => {
                            if !close {
                                let _ = self.eds[e as usize]
                                    .node
                                    .as_ref()
                                    .unwrap()
                                    .tx
                                    .send(Cmd::Resume(r));
                            }
                        }
                        None => {
                            self.eds[e as usize].parked = true;
                            return;
                        }
                    }
                }
                Ok(Status::Done(report)) => {
                    self.eds[e as usize].busy = false;
                    self.frame_done(e, *report);
                    return;
                }
                Ok(Status::Ready(_)) => {}
                Err(_) => {
                    self.eds[e as usize].busy = false;
                    self.eds[e as usize].node = None;
                    self.cx.violate("editor-panic", "the editor ended");
                    return;
                }
            }
        }
    }

    fn frame_done(&mut self, e: u8, report: FrameReport) {
        let i = e as usize;
        let served = |id: &u64| {
            let c = &self.conns[*id as usize];
            Served {
                snapshot: c.snapshot.clone(),
                clean: c.fault.harmless() && !c.server_lost,
                game_error: c.game_error,
                fault: c.fault.clone(),
                requests: c.requests,
            }
        };
        let per_act: Vec<Vec<Served>> = report
            .acts
            .iter()
            .map(|a| a.conns.iter().map(served).collect())
            .collect();
        let other: usize = report.conns.len();
        for a in &report.acts {
            self.cx.log(format!(
                "{} editor {e} {:?}: reachable {}, ui {}, conns {:?}, scene {:x}, nav {:x}, reports {}, points {}, panic {:?}",
                self.now,
                a.act,
                a.reachable,
                a.through_ui,
                a.conns,
                a.post.scene_fp,
                a.post.nav_hash(),
                a.reports.len(),
                a.points,
                a.panic
            ));
            if a.reachable {
                self.cx.count(&format!("act {:?}", a.act));
            }
            for c in &a.conns {
                if let Some(w) = &self.conns[*c as usize].wrong_request {
                    self.cx.violate("act-wrong-request", w.clone());
                }
            }
        }
        let n_frame_connects = self.eds[i].connects;
        let mut model = std::mem::replace(&mut self.eds[i].model, oracle::Model::new(Obs::default()));
        let alive = oracle::frame(
            &mut model,
            &mut self.shared,
            self.cx,
            &report,
            &per_act,
            n_frame_connects,
            other,
            self.eds[i].frames_idle,
            self.faults_stopped,
        );
        self.eds[i].model = model;
        if !alive {
            // It does not come back; the run goes on with the others.
            self.eds[i].node = None;
            self.eds[i].acts.clear();
            return;
        }
        let jitter = self.ed_rng[i].below(5_000);
        self.at(FRAME - 2_500 + jitter, Ev::EditorFrame(e));
    }
}

fn brief(op: &Op) -> String {
    match op {
        Op::Restart(c) => format!("Restart(seed {})", c.seed),
        o => format!("{o:?}"),
    }
}

/// The answer to a request that came over the remote channel.
pub fn check_answer(
    kind: RawKind,
    servable: bool,
    result: &BrpResult,
    snapshot: &SceneCanon,
) -> Result<(), (&'static str, String)> {
    use bevy::remote::error_codes::{INTERNAL_ERROR, INVALID_PARAMS, METHOD_NOT_FOUND};
    let code = |r: &BrpResult| r.as_ref().err().map(|e| e.code);
    match kind {
        RawKind::UnknownMethod => {
            if code(result) != Some(METHOD_NOT_FOUND) {
                return Err(("game-wrong-answer", format!("unknown method: {result:?}")));
            }
        }
        RawKind::ListMethod => {
            if result.is_err() {
                return Err(("game-wrong-answer", format!("bevy/list: {result:?}")));
            }
        }
        RawKind::SceneWithParams => {
            if code(result) != Some(INVALID_PARAMS) {
                return Err((
                    "game-wrong-code",
                    format!("scene request with parameters: {}", short(result)),
                ));
            }
        }
        RawKind::Scene | RawKind::SceneGivenUp => match result {
            Err(e) if !servable => {
                if e.code != INTERNAL_ERROR {
                    return Err(("game-wrong-code", format!("{e:?}")));
                }
            }
            Err(e) => return Err(("game-refused", format!("{e:?}"))),
            Ok(_) if !servable => {
                return Err((
                    "game-served-unservable",
                    "a scene was sent although none can be".to_string(),
                ));
            }
            Ok(v) => {
                let r: NavmeshInputResponse = deserialize(v)
                    .map_err(|e| ("game-wrong-answer", format!("undecodable: {e:#}")))?;
                oracle::response_matches(&r, snapshot)?;
            }
        },
    }
    Ok(())
}

fn short(r: &BrpResult) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => format!("{e:?}"),
    }
}
