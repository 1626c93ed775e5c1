//! Flying the editor's camera with any input and any frame times.

use std::{
    f32::consts::FRAC_PI_2,
    panic::{AssertUnwindSafe, catch_unwind},
    time::Duration,
};

use bevy::{
    input::{
        ButtonState,
        keyboard::{Key, KeyboardFocusLost, KeyboardInput},
        mouse::{MouseButtonInput, MouseMotion, MouseScrollUnit, MouseWheel},
    },
    prelude::*,
    time::TimeUpdateStrategy,
    window::{CursorGrabMode, PrimaryWindow},
};
use serde::{Deserialize, Serialize};

use crate::{cx::Cx, editor, rng::Rng, util};

/// Forward, back, left, right, up, down.
const MOVES: [KeyCode; 6] = [
    KeyCode::KeyW,
    KeyCode::KeyS,
    KeyCode::KeyA,
    KeyCode::KeyD,
    KeyCode::KeyE,
    KeyCode::KeyQ,
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum CamStep {
    /// A frame of that many microseconds.
    Frame(u32),
    Press(u8),
    Release(u8),
    Run(bool),
    Grab(bool),
    Toggle,
    Mouse(i16, i16),
    /// In quarters of lines.
    Scroll(i8),
    /// In pixels.
    ScrollPixels(i8),
    FocusLost,
    FocusGained,
    /// A key that means nothing.
    Other,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CamPlan {
    pub seed: u32,
    /// Seconds the editor has been open for.
    #[serde(default)]
    pub uptime: u32,
    pub steps: Vec<CamStep>,
}

const WALK: f32 = 15.0;
const RUN: f32 = 3.0;
/// Radians for each unit of mouse motion.
const LOOK: f32 = 1.0 / 360.0;
/// Bevy does not let a single frame take longer than this.
const MAX_DT: f32 = 0.25;

/// What the user's hands do.
#[derive(Default)]
struct Hands {
    keys: [bool; 6],
    run: bool,
    button: bool,
    toggled: bool,
    /// Of the frame that comes.
    toggle_now: bool,
    mouse: Vec2,
    scroll: f32,
    grab_changed: bool,
    lost_now: bool,
    pixels_now: bool,
}

struct Cam {
    at: Vec3,
    rot: Quat,
}

fn camera(app: &mut App) -> Option<Cam> {
    let w = app.world_mut();
    let mut q = w.query_filtered::<&Transform, With<Camera3d>>();
    let t = q.single(w).ok()?;
    Some(Cam { at: t.translation, rot: t.rotation })
}

fn angles(q: Quat) -> (f32, f32, f32) {
    let (yaw, pitch, roll) = q.to_euler(EulerRot::YXZ);
    (yaw, pitch, roll)
}

fn key(app: &mut App, window: Entity, code: KeyCode, pressed: bool) {
    app.world_mut().send_event(KeyboardInput {
        key_code: code,
        logical_key: Key::Character("x".into()),
        state: if pressed { ButtonState::Pressed } else { ButtonState::Released },
        text: None,
        repeat: false,
        window,
    });
}

pub fn run(p: &CamPlan, cx: &mut Cx) {
    util::take_reports();
    let mut app = editor::editor_app(false);
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(16)));
    for _ in 0..2 {
        if catch_unwind(AssertUnwindSafe(|| app.update())).is_err() {
            cx.violate("cam-panic", "the editor does not start");
            return;
        }
    }
    if p.uptime > 0 {
        // Long frames count in full for the real clock only.
        let open = Duration::from_secs(p.uptime as u64);
        app.world_mut().resource_mut::<Time<Virtual>>().advance_by(open);
        app.insert_resource(TimeUpdateStrategy::ManualDuration(open));
        for _ in 0..2 {
            if catch_unwind(AssertUnwindSafe(|| app.update())).is_err() {
                cx.violate("cam-panic", format!("a frame panics after {open:?}"));
                return;
            }
            app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(16)));
        }
        cx.fault("clock far along");
    }
    let window = {
        let w = app.world_mut();
        let mut q = w.query_filtered::<Entity, With<PrimaryWindow>>();
        match q.single(w) {
            Ok(e) => e,
            Err(_) => {
                cx.violate("cam-panic", "there is no window");
                return;
            }
        }
    };
    let mut focused = true;
    app.world_mut().get_mut::<Window>(window).unwrap().focused = true;
    let Some(mut was) = camera(&mut app) else {
        cx.violate("cam-panic", "there is no camera");
        return;
    };
    let mut h = Hands::default();
    let mut walk = WALK;
    // Speed that may still be there after release, and since when nothing was held.
    let mut coast = 0.0f32;
    let mut idle = (0u32, 0.0f32);
    let mut look: (f32, f32, f32) = angles(was.rot);
    // The grab state that the window was last asked for.
    let mut window_knows = Some(false);
    let mut tail: Vec<CamStep> = Vec::new();
    if !p.steps.iter().all(|s| matches!(s, CamStep::Frame(_))) {
        let mut r = Rng::new(p.seed as u64);
        // In the end everything is released, and the camera has to come to rest.
        tail.extend((0..6).map(CamStep::Release));
        let dt = *r.pick(&[16_667u32, 50_000, 250_000]);
        tail.extend(std::iter::repeat_n(CamStep::Frame(dt), 110));
        if dt < 50_000 {
            tail.extend(std::iter::repeat_n(CamStep::Frame(100_000), 45));
        }
    }
    for s in p.steps.iter().chain(&tail) {
        // Without the focus nothing is pressed. A frame that loses the focus releases all keys.
        if (!focused || h.lost_now)
            && matches!(s, CamStep::Press(_) | CamStep::Run(true) | CamStep::Grab(true) | CamStep::Toggle | CamStep::Other)
        {
            continue;
        }
        match *s {
            CamStep::Press(k) => {
                h.keys[k as usize % 6] = true;
                key(&mut app, window, MOVES[k as usize % 6], true);
            }
            CamStep::Release(k) => {
                h.keys[k as usize % 6] = false;
                key(&mut app, window, MOVES[k as usize % 6], false);
            }
            CamStep::Run(on) => {
                h.run = on;
                key(&mut app, window, KeyCode::ShiftLeft, on);
            }
            CamStep::Grab(on) => {
                h.grab_changed |= h.button != on;
                h.button = on;
                app.world_mut().send_event(MouseButtonInput {
                    button: MouseButton::Right,
                    state: if on { ButtonState::Pressed } else { ButtonState::Released },
                    window,
                });
            }
            CamStep::Toggle => {
                // Twice in a frame cannot be told from once.
                if !h.toggle_now {
                    h.toggle_now = true;
                    h.grab_changed = true;
                    h.toggled = !h.toggled;
                    key(&mut app, window, KeyCode::KeyM, true);
                    key(&mut app, window, KeyCode::KeyM, false);
                }
            }
            CamStep::Mouse(x, y) => {
                let d = Vec2::new(x as f32, y as f32);
                h.mouse += d;
                app.world_mut().send_event(MouseMotion { delta: d });
            }
            CamStep::Scroll(n) => {
                if h.pixels_now {
                    continue;
                }
                let y = (n as f32 / 4.0).clamp(-4.0 - h.scroll, 4.0 - h.scroll);
                h.scroll += y;
                app.world_mut().send_event(MouseWheel { unit: MouseScrollUnit::Line, x: 0.0, y, window });
            }
            CamStep::ScrollPixels(n) => {
                // Not mixed with lines in one frame.
                if h.scroll == 0.0 {
                    let y = (n as f32).clamp(-60.0, 60.0);
                    h.scroll += y / 16.0;
                    h.pixels_now = true;
                    app.world_mut().send_event(MouseWheel { unit: MouseScrollUnit::Pixel, x: 0.0, y, window });
                }
            }
            CamStep::FocusLost => {
                focused = false;
                h.lost_now = true;
                h.keys = [false; 6];
                h.run = false;
                app.world_mut().get_mut::<Window>(window).unwrap().focused = false;
                app.world_mut().send_event(KeyboardFocusLost);
                cx.fault("focus lost");
            }
            CamStep::FocusGained => {
                focused = true;
                app.world_mut().get_mut::<Window>(window).unwrap().focused = true;
            }
            CamStep::Other => key(&mut app, window, KeyCode::KeyZ, true),
            CamStep::Frame(us) => {
                let dt = us as f32 / 1e6;
                match us {
                    0 => cx.fault("zero-length frame"),
                    100_001.. => cx.fault("stall"),
                    _ => {}
                }
                app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_micros(us as u64)));
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| app.update())) {
                    cx.violate("cam-panic", format!("a frame panics: {}", util::panic_text(e)));
                    return;
                }
                cx.sim_us += us as u64;
                util::set_clock(cx.sim_us);
                let Some(now) = camera(&mut app) else {
                    cx.violate("cam-panic", "the camera is gone");
                    return;
                };
                let grabbed = h.button || h.toggled;
                cx.checks += 1;
                if !now.at.is_finite() || !now.rot.is_finite() {
                    cx.violate("cam-bounds", "position or rotation is not finite");
                    return;
                }
                let moved = now.at - was.at;
                let slack = 1e-4 + 1e-3 * moved.length() + 1e-6 * now.at.length();

                walk *= 1.0 + 0.1 * h.scroll;
                let held = |k: usize| if h.keys[k] { 1.0 } else { 0.0 };
                let axis = Vec3::new(held(3) - held(2), held(4) - held(5), held(0) - held(1));
                let times: &[f32] = if dt <= MAX_DT { &[dt] } else { &[dt, MAX_DT] };
                if grabbed && axis != Vec3::ZERO {
                    let speed = if h.run { RUN * walk } else { walk };
                    let v = axis.normalize() * speed;
                    // With the direction before or after this frame's look.
                    let fits = [was.rot, now.rot].iter().any(|q| {
                        let w = *q * Vec3::X * v.x + Vec3::Y * v.y + *q * Vec3::NEG_Z * v.z;
                        times.iter().any(|t| (moved - w * *t).length() <= slack)
                    });
                    if !fits {
                        cx.violate(
                            "cam-motion",
                            format!("in a frame of {dt} s the camera moves {moved:?} ({}) at speed {speed} towards {axis:?}", moved.length()),
                        );
                    }
                    // Up and forward are not at right angles when the camera looks up.
                    coast = speed * 1.415;
                    idle = (0, 0.0);
                    cx.count("commanded frame");
                } else {
                    let most = times.iter().fold(0.0f32, |a, t| a.max(*t)) * coast;
                    if moved.length() > most + slack {
                        cx.violate(
                            "cam-uncommanded",
                            format!("the camera moves {} in {dt} s although nothing is held{}", moved.length(), if grabbed { "" } else { " and the cursor is free" }),
                        );
                    }
                    idle.0 += 1;
                    idle.1 += dt;
                    if idle.0 >= 100 && idle.1 >= 5.0 {
                        cx.count("at rest");
                        coast = 0.0;
                        if moved.length() > 1e-6 {
                            cx.violate("cam-uncommanded", format!("the camera still moves {} after {} s and {} frames", moved.length(), idle.1, idle.0));
                        }
                    }
                }

                // Rotation.
                let (yaw, pitch, roll) = angles(now.rot);
                if pitch.abs() > FRAC_PI_2 + 1e-3 || (now.rot * Vec3::Y).y < -2e-3 {
                    cx.violate("cam-bounds", format!("pitch {pitch}: the camera is upside down"));
                }
                if (now.rot * Vec3::X).y.abs() > 2e-3 {
                    cx.violate("cam-bounds", format!("the camera rolls ({roll})"));
                }
                if grabbed && h.mouse != Vec2::ZERO {
                    look.1 = (look.1 - h.mouse.y * LOOK).clamp(-FRAC_PI_2, FRAC_PI_2);
                    look.0 -= h.mouse.x * LOOK;
                    cx.count("look");
                } else if h.mouse != Vec2::ZERO {
                    cx.count("mouse moves with a free cursor");
                }
                let want = Quat::from_rotation_y(look.0) * Quat::from_rotation_x(look.1);
                // Many small steps add up their rounding.
                if want.angle_between(now.rot) > 4e-3 {
                    cx.violate(
                        "cam-look",
                        format!("after mouse motions the camera looks to yaw {yaw} pitch {pitch} instead of {} {}", look.0, look.1),
                    );
                }

                // The cursor.
                if h.grab_changed {
                    window_knows = (focused || !grabbed).then_some(grabbed);
                }
                let opt = app.world().get::<Window>(window).unwrap().cursor_options.clone();
                let locked = opt.grab_mode == CursorGrabMode::Locked && !opt.visible;
                let free = opt.grab_mode == CursorGrabMode::None && opt.visible;
                match window_knows {
                    Some(true) if !locked => cx.violate("cam-cursor", "the cursor is grabbed, but not locked and hidden"),
                    Some(false) if !free => cx.violate("cam-cursor", "the cursor is not free although it is not grabbed"),
                    _ => {}
                }
                cx.log(format!("{us}: {} {:?} {:?}", grabbed, now.at.to_array().map(f32::to_bits), now.rot.to_array().map(f32::to_bits)));
                cx.state(&format!("{grabbed} {axis} {} {} {:?}", h.run, coast > 0.0, us.checked_ilog10()));
                was = now;
                h.mouse = Vec2::ZERO;
                h.scroll = 0.0;
                h.toggle_now = false;
                h.grab_changed = false;
                h.lost_now = false;
                h.pixels_now = false;
            }
        }
        if !matches!(s, CamStep::Frame(_)) {
            cx.sched(&format!("{s:?}"));
        }
        if cx.stop() {
            return;
        }
    }
}

fn frame(r: &mut Rng, style: u64) -> CamStep {
    CamStep::Frame(match style {
        0 => 16_667,
        1 => r.range(1_000, 40_000) as u32,
        2 => *r.pick(&[0, 1, 500, 8_000, 16_667, 33_333, 120_000, 250_000]),
        _ => match r.below(12) {
            0 => 0,
            1 => r.range(250_001, 3_000_000) as u32,
            2 | 3 => r.range(100_000, 250_000) as u32,
            _ => r.range(100, 60_000) as u32,
        },
    })
}

pub fn generate(r: &mut Rng) -> CamPlan {
    let style = r.below(4);
    let scroll = r.pct(40);
    let focus = r.pct(30);
    let mut steps = Vec::new();
    if r.pct(70) {
        steps.push(*r.pick(&[CamStep::Grab(true), CamStep::Toggle]));
    }
    let mut total = 0;
    for _ in 0..r.range(20, 200) {
        let s = match r.below(30) {
            0..=2 => CamStep::Press(r.below(6) as u8),
            3 | 4 => CamStep::Release(r.below(6) as u8),
            5 => CamStep::Run(r.bool()),
            6 => CamStep::Grab(r.bool()),
            7 => CamStep::Toggle,
            8..=10 => {
                let n = *r.pick(&[5, 60, 900]);
                CamStep::Mouse(r.range(-n, n) as i16, r.range(-n, n) as i16)
            }
            11 if scroll => {
                let n = r.range(-8, 8);
                // The speed stays ordinary.
                if (total + n as i32).abs() > 60 {
                    continue;
                }
                total += n as i32;
                if r.bool() { CamStep::Scroll(n as i8) } else { CamStep::ScrollPixels((n * 4) as i8) }
            }
            12 if focus => *r.pick(&[CamStep::FocusLost, CamStep::FocusGained]),
            13 => CamStep::Other,
            _ => frame(r, style),
        };
        steps.push(s);
        // A release and a press, or the other way round, within one frame.
        if matches!(s, CamStep::Grab(_)) && r.pct(15) {
            let CamStep::Grab(b) = s else { unreachable!() };
            steps.push(CamStep::Grab(!b));
            if r.bool() {
                steps.push(CamStep::Grab(b));
            }
        }
    }
    let uptime = if r.pct(25) { *r.pick(&[600, 4_000, 90_000, 3_000_000]) } else { 0 };
    CamPlan { seed: r.seed(), uptime, steps }
}

impl CamPlan {
    pub fn simpler(&self) -> Vec<CamPlan> {
        let mut out = Vec::new();
        if self.uptime > 0 {
            out.push(CamPlan { uptime: 0, ..self.clone() });
        }
        for (i, s) in self.steps.iter().enumerate() {
            if let CamStep::Frame(us) = s
                && *us != 16_667
            {
                let mut q = self.clone();
                q.steps[i] = CamStep::Frame(16_667);
                out.push(q);
            }
        }
        out
    }
}
