//! The editor node: a headless Bevy app with the editor's own plugins, on its own thread, driven
//! through its buttons. Exactly one thread of a run is ever active: the editor's thread runs between
//! a command from the scheduler and the status that it answers with. Every call of its HTTP client
//! is such a status, so the scheduler decides what each of them returns and when.

use std::{
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, Ordering},
        mpsc::{Receiver, Sender, channel},
    },
    thread::JoinHandle,
    time::Duration,
};

use bevy::{
    asset::AssetPlugin,
    ecs::system::SystemState,
    input::InputPlugin,
    picking::{
        backend::HitData,
        events::{
            Click, Drag, DragEnd, DragStart, Move, Out, Over, Pointer, Pressed, Released,
        },
        pointer::{Location, PointerButton, PointerId},
    },
    prelude::*,
    render::{
        camera::{ManualTextureViewHandle, NormalizedRenderTarget},
        view::VisibilityPlugin,
    },
    time::{TimePlugin, TimeUpdateStrategy},
    transform::{TransformPlugin, helper::TransformHelper},
    window::WindowPlugin,
};
use bevy_rerecast::rerecast::{self, DetailNavmesh, PolygonNavmesh};
use bevy_rerecast_editor::sim::{self, Layer};
use serde::{Deserialize, Serialize};

use crate::{
    canon::{self, AffCanon, SceneCanon, VisCanon},
    pipeline,
    rng::Hasher64,
    util,
};

// ---------------------------------------------------------------- the transport seam

#[derive(Debug)]
pub enum NetCall {
    Connect(String),
    Send(u64, Vec<u8>),
    Recv(u64, Option<u64>),
    /// No reply is expected.
    Close(u64),
}

#[derive(Debug)]
pub enum NetReply {
    Connected(u64),
    Refused,
    Ok,
    Data(Vec<u8>),
    Eof,
    Reset,
    TimedOut,
}

pub enum Cmd {
    Frame { acts: Vec<Act>, dt_us: u64 },
    Resume(NetReply),
    Quit,
}

pub enum Status {
    Ready(Box<Obs>),
    Net(NetCall),
    Done(Box<FrameReport>),
}

#[derive(Clone)]
struct Port {
    to: Sender<Status>,
    from: Arc<Mutex<Receiver<Cmd>>>,
    quitting: Arc<AtomicBool>,
    opened: Arc<Mutex<Vec<u64>>>,
}

impl std::fmt::Debug for Port {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Port")
    }
}

impl Port {
    fn call(&self, c: NetCall) -> Option<NetReply> {
        if self.quitting.load(Ordering::SeqCst) {
            return None;
        }
        self.to.send(Status::Net(c)).ok()?;
        match self.from.lock().unwrap().recv() {
            Ok(Cmd::Resume(r)) => Some(r),
            _ => {
                self.quitting.store(true, Ordering::SeqCst);
                None
            }
        }
    }
}

fn io_err(k: std::io::ErrorKind) -> ureq::Error {
    ureq::Error::Io(std::io::Error::new(k, "simulated"))
}

mod transport {
    use std::net::{Ipv4Addr, SocketAddr};

    use ureq::{
        Error,
        unversioned::{
            resolver::{ResolvedSocketAddrs, Resolver},
            transport::{
                Buffers, ConnectionDetails, Connector, LazyBuffers, NextTimeout, Transport,
            },
        },
    };

    use super::*;

    #[derive(Debug)]
    pub struct SimResolver;

    impl Resolver for SimResolver {
        fn resolve(
            &self,
            uri: &ureq::http::Uri,
            _: &ureq::config::Config,
            _: NextTimeout,
        ) -> Result<ResolvedSocketAddrs, Error> {
            let mut a = self.empty();
            let port = uri.port_u16().unwrap_or(80);
            match uri.host() {
                Some("127.0.0.1") | Some("localhost") => {}
                _ => return Err(Error::HostNotFound),
            }
            a.push(SocketAddr::new(Ipv4Addr::LOCALHOST.into(), port));
            Ok(a)
        }
    }

    #[derive(Debug)]
    pub struct SimConnector(pub(super) Port);

    impl Connector<()> for SimConnector {
        type Out = SimTransport;

        fn connect(
            &self,
            details: &ConnectionDetails,
            _: Option<()>,
        ) -> Result<Option<SimTransport>, Error> {
            let addr = details
                .addrs
                .iter()
                .next()
                .map(|a| a.to_string())
                .unwrap_or_default();
            match self.0.call(NetCall::Connect(addr)) {
                Some(NetReply::Connected(id)) => {
                    self.0.opened.lock().unwrap().push(id);
                    Ok(Some(SimTransport {
                        port: self.0.clone(),
                        id,
                        open: true,
                        buffers: LazyBuffers::new(
                            details.config.input_buffer_size(),
                            details.config.output_buffer_size(),
                        ),
                        left: Vec::new(),
                    }))
                }
                Some(NetReply::TimedOut) => Err(Error::Timeout(details.timeout.reason)),
                _ => Err(io_err(std::io::ErrorKind::ConnectionRefused)),
            }
        }
    }

    pub struct SimTransport {
        port: Port,
        id: u64,
        open: bool,
        buffers: LazyBuffers,
        /// Received, but not yet fitting in the buffer.
        left: Vec<u8>,
    }

    impl std::fmt::Debug for SimTransport {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("SimTransport")
        }
    }

    impl Transport for SimTransport {
        fn buffers(&mut self) -> &mut dyn Buffers {
            &mut self.buffers
        }

        fn transmit_output(&mut self, amount: usize, timeout: NextTimeout) -> Result<(), Error> {
            let data = self.buffers.output()[..amount].to_vec();
            match self.port.call(NetCall::Send(self.id, data)) {
                Some(NetReply::Ok) => Ok(()),
                Some(NetReply::TimedOut) => Err(Error::Timeout(timeout.reason)),
                _ => {
                    self.open = false;
                    Err(io_err(std::io::ErrorKind::BrokenPipe))
                }
            }
        }

        fn await_input(&mut self, timeout: NextTimeout) -> Result<bool, Error> {
            if self.left.is_empty() {
                let t = (!timeout.after.is_not_happening())
                    .then(|| timeout.after.as_micros().min(u64::MAX as u128) as u64);
                match self.port.call(NetCall::Recv(self.id, t)) {
                    Some(NetReply::Data(d)) => self.left = d,
                    Some(NetReply::Eof) => {
                        self.open = false;
                        return Ok(false);
                    }
                    Some(NetReply::TimedOut) => return Err(Error::Timeout(timeout.reason)),
                    _ => {
                        self.open = false;
                        return Err(io_err(std::io::ErrorKind::ConnectionReset));
                    }
                }
            }
            let input = self.buffers.input_append_buf();
            let n = input.len().min(self.left.len());
            input[..n].copy_from_slice(&self.left[..n]);
            self.left.drain(..n);
            self.buffers.input_appended(n);
            Ok(n > 0)
        }

        fn is_open(&mut self) -> bool {
            self.open
        }
    }

    impl Drop for SimTransport {
        fn drop(&mut self) {
            if !self.port.quitting.load(Ordering::SeqCst) {
                let _ = self.port.to.send(Status::Net(NetCall::Close(self.id)));
            }
        }
    }
}

// ---------------------------------------------------------------- user actions and observations

#[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Act {
    /// Open the dialog unless it is open, and press its load button.
    Load,
    OpenDialog,
    CloseDialog,
    Build,
    ToggleVisual,
    ToggleAffector,
    TogglePoly,
    ToggleDetail,
}

pub const LAYERS: [Layer; 4] = [
    Layer::Visual,
    Layer::Affector,
    Layer::PolyMesh,
    Layer::DetailMesh,
];
pub const TOGGLES: [Act; 4] = [
    Act::ToggleVisual,
    Act::ToggleAffector,
    Act::TogglePoly,
    Act::ToggleDetail,
];

/// A line segment.
pub type Seg = (Vec3, Vec3);

#[derive(Clone, Debug, Default)]
pub struct LayerObs {
    pub present: bool,
    pub visible: bool,
    pub lines: Vec<Seg>,
    pub surface: Option<Vec<[Vec3; 3]>>,
}

#[derive(Clone, Debug)]
pub struct NavObs {
    pub poly: PolygonNavmesh,
    pub detail: DetailNavmesh,
    pub hash: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub scene: SceneCanon,
    pub scene_fp: u64,
    /// Whether the propagated transforms agree with the local ones.
    pub globals_settled: bool,
    pub nav: Option<NavObs>,
    pub layers: [bool; 4],
    /// Per visual: whether it is shown.
    pub shown: Vec<bool>,
    pub outlines: Vec<Vec<Seg>>,
    pub poly: LayerObs,
    pub detail: LayerObs,
    pub dialogs: usize,
    /// Fingerprint of the entities that were there from the start.
    pub permanent: u64,
    /// Number of entities that are neither user interface nor part of the scene.
    pub others: usize,
    /// Meshes, materials, images, gizmos in the asset stores.
    pub assets: [usize; 4],
    pub ui: usize,
}

impl Obs {
    pub fn nav_hash(&self) -> u64 {
        self.nav.as_ref().map_or(0, |n| n.hash)
    }
}

#[derive(Clone, Debug)]
pub struct ActReport {
    pub act: Act,
    /// Whether the control could be found and reached.
    pub reachable: bool,
    /// Whether the control was found in the user interface (and not bypassed).
    pub through_ui: bool,
    pub conns: Vec<u64>,
    pub post: Obs,
    pub reports: Vec<String>,
    pub panic: Option<String>,
    /// What a build at this point must give, by each admissible way of calculating it.
    pub reference: Vec<pipeline::BuildResult>,
    pub inputs: Vec<pipeline::Input>,
    pub config: rerecast::NavmeshConfig,
    /// Switch points passed by the act, and by a build of the same scene.
    pub points: u64,
    pub reference_points: u64,
}

#[derive(Clone, Debug)]
pub struct FrameReport {
    pub acts: Vec<ActReport>,
    pub end: Obs,
    pub conns: Vec<u64>,
    pub reports: Vec<String>,
    pub panic: Option<String>,
}

// ---------------------------------------------------------------- the node

pub struct Editor {
    pub tx: Sender<Cmd>,
    pub rx: Receiver<Status>,
    thread: Option<JoinHandle<()>>,
}

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
pub struct EditorCfg {
    /// Calculate what builds must give.
    pub reference: bool,
    pub decor: bool,
}

impl Editor {
    pub fn spawn(cfg: EditorCfg) -> Editor {
        let (tx, crx) = channel();
        let (stx, rx) = channel();
        let thread = std::thread::Builder::new()
            .name("editor".into())
            .stack_size(16 << 20)
            .spawn(move || editor_thread(cfg, stx, crx))
            .expect("thread");
        Editor {
            tx,
            rx,
            thread: Some(thread),
        }
    }
    pub fn quit(&mut self) {
        let _ = self.tx.send(Cmd::Quit);
        // It may be blocked in a call; that ends with the command, too.
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

impl Drop for Editor {
    fn drop(&mut self) {
        self.quit();
    }
}

struct EditorNode {
    app: App,
    clicks: u64,
    /// A dialog was opened since the last frame: what the pointer is over is not yet known to be it.
    fresh: bool,
    permanent: Vec<Entity>,
    cfg: EditorCfg,
}

pub fn editor_app(decor: bool) -> App {
    let mut app = App::new();
    app.add_plugins((
        TaskPoolPlugin::default(),
        bevy::diagnostic::FrameCountPlugin,
        TimePlugin,
        TransformPlugin,
        InputPlugin,
        WindowPlugin::default(),
        AssetPlugin {
            file_path: util::no_assets().to_string(),
            ..default()
        },
        VisibilityPlugin,
    ));
    app.init_asset::<Mesh>();
    app.init_asset::<Image>();
    app.init_asset::<StandardMaterial>();
    app.init_asset::<GizmoAsset>();
    app.add_plugins(bevy_rerecast::NavmeshPlugins::default());
    sim::plugin(&mut app);
    if decor {
        app.add_systems(Startup, |mut c: Commands, mut m: ResMut<Assets<Mesh>>| {
            // Something that is not part of any loaded scene.
            let h = m.add(Cuboid::new(1.0, 2.0, 3.0));
            c.spawn((Name::new("decor"), Mesh3d(h), Transform::from_xyz(1.0, 2.0, 3.0)));
        });
    }
    app.finish();
    app.cleanup();
    app
}

fn editor_thread(cfg: EditorCfg, to: Sender<Status>, from: Receiver<Cmd>) {
    util::init();
    util::take_reports();
    let port = Port {
        to: to.clone(),
        from: Arc::new(Mutex::new(from)),
        quitting: default(),
        opened: default(),
    };
    let net = port.clone();
    ureq_shim::set_agent_factory(Some(std::rc::Rc::new(move |config| {
        ureq::Agent::with_parts(
            config,
            transport::SimConnector(net.clone()),
            transport::SimResolver,
        )
    })));

    let mut node = EditorNode {
        clicks: 0,
        fresh: false,
        app: editor_app(cfg.decor),
        permanent: Vec::new(),
        cfg,
    };
    node.app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    let first = catch_unwind(AssertUnwindSafe(|| node.app.update()));
    if first.is_err() {
        let _ = to.send(Status::Ready(Box::default()));
        return;
    }
    node.permanent = {
        let w = node.app.world_mut();
        let mut q = w.query_filtered::<Entity, (Without<Node>, Without<Text>)>();
        q.iter(w).collect()
    };
    let obs = node.observe();
    util::take_reports();
    if to.send(Status::Ready(Box::new(obs))).is_err() {
        return;
    }
    loop {
        let cmd = port.from.lock().unwrap().recv();
        match cmd {
            Ok(Cmd::Frame { acts, dt_us }) => {
                let report = node.frame(&acts, dt_us, &port);
                if port.quitting.load(Ordering::SeqCst) {
                    break;
                }
                let dead = report.panic.is_some() || report.acts.iter().any(|a| a.panic.is_some());
                if to.send(Status::Done(Box::new(report))).is_err() || dead {
                    break;
                }
            }
            _ => break,
        }
    }
    ureq_shim::set_agent_factory(None);
    if catch_unwind(AssertUnwindSafe(move || drop(node))).is_err() {}
}

impl EditorNode {
    fn frame(&mut self, acts: &[Act], dt_us: u64, port: &Port) -> FrameReport {
        let mut out = FrameReport {
            acts: Vec::new(),
            end: Obs::default(),
            conns: Vec::new(),
            reports: Vec::new(),
            panic: None,
        };
        port.opened.lock().unwrap().clear();
        util::take_reports();
        for act in acts {
            let r = self.act(*act, port);
            let dead = r.panic.is_some();
            out.acts.push(r);
            if dead || port.quitting.load(Ordering::SeqCst) {
                return out;
            }
        }
        self.app
            .insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_micros(dt_us)));
        self.fresh = false;
        let app = &mut self.app;
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| app.update())) {
            out.panic = Some(util::panic_text(p));
            return out;
        }
        out.conns = std::mem::take(&mut *port.opened.lock().unwrap());
        out.reports = util::take_reports();
        out.end = self.observe();
        out
    }

    fn act(&mut self, act: Act, port: &Port) -> ActReport {
        let mut r = ActReport {
            act,
            reachable: true,
            through_ui: true,
            conns: Vec::new(),
            post: Obs::default(),
            reports: Vec::new(),
            panic: None,
            reference: Vec::new(),
            inputs: Vec::new(),
            config: sim::build_config(self.app.world()),
            points: 0,
            reference_points: 0,
        };
        if act == Act::Build && self.cfg.reference {
            r.inputs = self.build_inputs();
            let config = sim::build_config(self.app.world());
            let (refs, points) = pipeline::references(&r.inputs, &config);
            r.reference = refs;
            r.reference_points = points;
            r.config = config;
        }
        port.opened.lock().unwrap().clear();
        let counter = Arc::new(std::sync::atomic::AtomicU64::new(0));
        {
            let c = counter.clone();
            rerecast::sim::set_point_hook(Some(Box::new(move || {
                c.fetch_add(1, Ordering::SeqCst);
            })));
        }
        let done = catch_unwind(AssertUnwindSafe(|| self.press(act)));
        rerecast::sim::set_point_hook(None);
        r.points = counter.load(Ordering::SeqCst);
        match done {
            Ok((reachable, through_ui)) => {
                r.reachable = reachable;
                r.through_ui = through_ui;
            }
            Err(p) => {
                r.panic = Some(util::panic_text(p));
            }
        }
        r.conns = std::mem::take(&mut *port.opened.lock().unwrap());
        r.reports = util::take_reports();
        if r.panic.is_none() {
            r.post = self.observe();
        }
        r
    }

    fn press(&mut self, act: Act) -> (bool, bool) {
        let open = self.dialogs() > 0;
        match act {
            Act::Load => {
                if !open && !self.click("Load Scene") {
                    sim::request_load(self.app.world_mut());
                    return (true, false);
                }
                if !self.click("Load") {
                    sim::request_load(self.app.world_mut());
                    return (true, false);
                }
                (true, true)
            }
            // The dialog's backdrop covers everything else.
            Act::CloseDialog => {
                if !open {
                    return (false, true);
                }
                let found = self.click("x");
                (found, found)
            }
            // A second click in the same frame.
            Act::OpenDialog if open && self.fresh => {
                let found = self.click("Load Scene");
                (found, found)
            }
            _ if open => (false, true),
            Act::OpenDialog => {
                let found = self.click("Load Scene");
                self.fresh = true;
                (found, found)
            }
            Act::Build => {
                let found = self.click("Build Navmesh");
                if !found {
                    sim::request_build(self.app.world_mut());
                }
                (true, found)
            }
            Act::ToggleVisual | Act::ToggleAffector | Act::TogglePoly | Act::ToggleDetail => {
                let i = TOGGLES.iter().position(|t| *t == act).unwrap();
                let label = [
                    "Show Visual",
                    "Show Affector",
                    "Show Polygon Mesh",
                    "Show Detail Mesh",
                ][i];
                let found = self.click(label);
                if !found {
                    sim::toggle_layer(self.app.world_mut(), LAYERS[i]);
                }
                (true, found)
            }
        }
    }

    /// The number of open load dialogs.
    fn dialogs(&mut self) -> usize {
        let w = self.app.world_mut();
        let mut q = w.query::<(&Text, &ChildOf)>();
        let found: Vec<Entity> = q
            .iter(w)
            .filter(|(t, _)| t.0 == "Load")
            .map(|(_, c)| c.parent())
            .collect();
        found
            .into_iter()
            .filter(|e| w.get::<Button>(*e).is_some())
            .count()
    }

    fn find(&mut self, label: &str) -> Option<Entity> {
        let w = self.app.world_mut();
        let mut q = w.query::<(Entity, &Text)>();
        let texts: Vec<Entity> = q
            .iter(w)
            .filter(|(_, t)| t.0 == label)
            .map(|(e, _)| e)
            .collect();
        for t in &texts {
            if let Some(p) = w.get::<ChildOf>(*t) {
                if w.get::<Button>(p.parent()).is_some() {
                    return Some(p.parent());
                }
            }
        }
        if !label.starts_with("Show ") {
            return None;
        }
        fn below(w: &World, e: Entity) -> Option<Entity> {
            if w.get::<Button>(e).is_some() {
                return Some(e);
            }
            w.get::<Children>(e)?.iter().find_map(|c| below(w, c))
        }
        for t in texts {
            let mut e = t;
            for _ in 0..3 {
                if let Some(b) = below(w, e) {
                    return Some(b);
                }
                let Some(p) = w.get::<ChildOf>(e) else { break };
                e = p.parent();
            }
        }
        None
    }

    fn send<E: std::fmt::Debug + Clone + Reflect>(&mut self, id: PointerId, target: Entity, event: E) {
        let w = self.app.world_mut();
        if w.get_entity(target).is_err() {
            return;
        }
        let event = Pointer {
            target,
            pointer_id: id,
            pointer_location: Location {
                target: NormalizedRenderTarget::TextureView(ManualTextureViewHandle(0)),
                position: Vec2::new(1.0, 1.0),
            },
            event,
        };
        w.trigger_targets(event, target);
        w.flush();
    }

    /// A click the way a pointer makes it, with everything around it: the pointer moves over other
    /// controls, perhaps presses one of them but is released elsewhere, and then clicks the control.
    fn click(&mut self, label: &str) -> bool {
        if self.find(label).is_none() {
            return false;
        }
        self.clicks += 1;
        let mut rng = crate::rng::Rng::new(crate::rng::hash_str(&format!("{label} {}", self.clicks)));
        let hit = || HitData {
            camera: Entity::PLACEHOLDER,
            depth: 0.0,
            position: None,
            normal: None,
        };
        let id = match rng.below(4) {
            0 => PointerId::Touch(rng.below(3)),
            _ => PointerId::Mouse,
        };
        let button = PointerButton::Primary;
        // The backdrop of the dialog covers everything else.
        let others: &[&str] = if self.dialogs() > 0 {
            &["x", "Load"]
        } else {
            &[
                "Load Scene",
                "Build Navmesh",
                "Show Visual",
                "Show Affector",
                "Show Polygon Mesh",
                "Show Detail Mesh",
            ]
        };
        for _ in 0..rng.below(3) {
            let Some(other) = self.find(others[rng.below(others.len() as u64) as usize]) else {
                continue;
            };
            self.send(id, other, Over { hit: hit() });
            self.send(id, other, Move { hit: hit(), delta: Vec2::ONE });
            if rng.below(4) == 0 {
                let away = Vec2::splat(500.0);
                self.send(id, other, Pressed { button, hit: hit() });
                self.send(id, other, DragStart { button, hit: hit() });
                self.send(id, other, Drag { button, distance: away, delta: away });
                self.send(id, other, Out { hit: hit() });
                self.send(id, other, DragEnd { button, distance: away });
            } else {
                self.send(id, other, Out { hit: hit() });
            }
        }
        let Some(target) = self.find(label) else {
            return false;
        };
        let millis = *[0, 20, 50, 90, 250, 700, 5000]
            .get(rng.below(7) as usize)
            .unwrap_or(&50);
        self.send(id, target, Over { hit: hit() });
        self.send(id, target, Move { hit: hit(), delta: Vec2::ONE });
        self.send(id, target, Pressed { button, hit: hit() });
        self.send(
            id,
            target,
            Click {
                button,
                hit: hit(),
                duration: Duration::from_millis(millis),
            },
        );
        self.send(id, target, Released { button, hit: hit() });
        self.send(id, target, Out { hit: hit() });
        true
    }

    fn global(&mut self, e: Entity) -> GlobalTransform {
        let w = self.app.world_mut();
        let mut s = SystemState::<TransformHelper>::new(w);
        s.get(w).compute_global_transform(e).unwrap_or_default()
    }

    fn build_inputs(&mut self) -> Vec<pipeline::Input> {
        let ents = sim::affectors(self.app.world_mut());
        let mut out = Vec::new();
        for e in ents {
            let g = self.global(e);
            let w = self.app.world();
            let Some(m) = w.get::<Mesh3d>(e) else { continue };
            let Some(mesh) = w.resource::<Assets<Mesh>>().get(&m.0) else {
                continue;
            };
            let Some(geo) = canon::affecting_geometry(mesh) else {
                continue;
            };
            out.push(pipeline::Input {
                global: g,
                vertices: geo.0,
                triangles: geo.1,
            });
        }
        out
    }

    pub fn observe(&mut self) -> Obs {
        let mut o = Obs::default();
        let aff = sim::affectors(self.app.world_mut());
        let vis = sim::visuals(self.app.world_mut());
        o.globals_settled = true;
        for e in &aff {
            let g = self.global(*e);
            let w = self.app.world();
            if !w
                .get::<GlobalTransform>(*e)
                .is_some_and(|x| canon::affine_close(&x.affine(), &g.affine()))
            {
                o.globals_settled = false;
            }
            let geo = w
                .get::<Mesh3d>(*e)
                .and_then(|m| w.resource::<Assets<Mesh>>().get(&m.0))
                .and_then(canon::affecting_geometry);
            o.scene.affectors.push(match geo {
                Some(geo) => AffCanon {
                    tris: canon::world_tris(&geo, &g.affine()),
                },
                None => AffCanon::default(),
            });
            let lines = w
                .get::<Gizmo>(*e)
                .and_then(|z| w.resource::<Assets<GizmoAsset>>().get(&z.handle))
                .map(|z| segments(z, &g))
                .unwrap_or_default();
            o.outlines.push(lines);
        }
        for e in &vis {
            let g = self.global(*e);
            let w = self.app.world();
            let settled = w.get::<GlobalTransform>(*e).is_some_and(|x| {
                canon::affine_close(&x.affine(), &g.affine()) || !g.affine().is_finite()
            });
            if !settled {
                o.globals_settled = false;
            }
            let mesh_parts = w
                .get::<Mesh3d>(*e)
                .and_then(|m| w.resource::<Assets<Mesh>>().get(&m.0))
                .map(canon::mesh_parts)
                .unwrap_or_default();
            let material_parts = w
                .get::<MeshMaterial3d<StandardMaterial>>(*e)
                .and_then(|m| w.resource::<Assets<StandardMaterial>>().get(&m.0))
                .and_then(|m| canon::material_parts(m, w.resource::<Assets<Image>>()))
                .unwrap_or_default();
            o.scene.visuals.push(VisCanon {
                affine: g.affine(),
                trs: true,
                mesh: canon::parts_hash(&mesh_parts),
                material: canon::parts_hash(&material_parts),
                mesh_parts,
                material_parts,
            });
            o.shown.push(
                w.get::<Visibility>(*e)
                    .is_none_or(|v| *v != Visibility::Hidden),
            );
        }
        o.scene_fp = o.scene.fingerprint();
        let (poly, detail) = sim::layer_entities(self.app.world_mut());
        o.poly = self.layer(poly);
        o.detail = self.layer(detail);
        o.dialogs = self.dialogs();
        let w = self.app.world_mut();
        let mut others = w.query_filtered::<Entity, (Without<Node>, Without<Text>)>();
        o.others = others
            .iter(w)
            .filter(|e| !aff.contains(e) && !vis.contains(e))
            .count();
        o.ui = {
            let mut q = w.query_filtered::<Entity, Or<(With<Node>, With<Text>)>>();
            q.iter(w).count()
        };
        o.nav = sim::navmesh(w).map(|(p, d)| NavObs {
            hash: pipeline::nav_hash(p, d),
            poly: p.clone(),
            detail: d.clone(),
        });
        o.layers = LAYERS.map(|l| sim::layer_enabled(w, l));
        let mut h = Hasher64::default();
        for e in &self.permanent {
            match w.get_entity(*e) {
                Err(_) => h.str("gone"),
                Ok(r) => {
                    h.str(&format!("{:?}", r.get::<Transform>()));
                    if Some(*e) != poly && Some(*e) != detail {
                        h.str(&format!(
                            "{:?} {:?}",
                            r.get::<Visibility>(),
                            r.get::<Mesh3d>().map(|m| w
                                .resource::<Assets<Mesh>>()
                                .get(&m.0)
                                .map(|m| canon::parts_hash(&canon::mesh_parts(m))))
                        ));
                    }
                }
            }
        }
        o.permanent = h.finish();
        o.assets = [
            w.resource::<Assets<Mesh>>().len(),
            w.resource::<Assets<StandardMaterial>>().len(),
            w.resource::<Assets<Image>>().len(),
            w.resource::<Assets<GizmoAsset>>().len(),
        ];
        o
    }

    fn layer(&mut self, e: Option<Entity>) -> LayerObs {
        let Some(e) = e else {
            return LayerObs::default();
        };
        let g = self.global(e);
        let w = self.app.world();
        let mut o = LayerObs {
            present: true,
            visible: w
                .get::<Visibility>(e)
                .is_none_or(|v| *v != Visibility::Hidden),
            ..default()
        };
        if let Some(z) = w
            .get::<Gizmo>(e)
            .and_then(|z| w.resource::<Assets<GizmoAsset>>().get(&z.handle))
        {
            o.lines = segments(z, &g);
        }
        o.surface = w
            .get::<Mesh3d>(e)
            .and_then(|m| w.resource::<Assets<Mesh>>().get(&m.0))
            .and_then(canon::affecting_geometry)
            .map(|geo| canon::world_tris(&geo, &g.affine()));
        o
    }
}

fn segments(z: &GizmoAsset, g: &GlobalTransform) -> Vec<Seg> {
    let b = z.buffer();
    let t = |v: Vec3| g.transform_point(v);
    let mut out = Vec::new();
    for c in b.list_positions.chunks(2) {
        if c.len() == 2 {
            out.push((t(c[0]), t(c[1])));
        }
    }
    for c in b.strip_positions.windows(2) {
        // Strips are separated by a vertex that is no number.
        if c[0].is_finite() && c[1].is_finite() {
            out.push((t(c[0]), t(c[1])));
        }
    }
    out
}
