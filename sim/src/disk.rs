//! Builds that store their products on a simulated disk, crash, and go on from there.

use std::{
    collections::BTreeMap,
    panic::{AssertUnwindSafe, catch_unwind, resume_unwind},
};

use bevy_rerecast::rerecast::{
    CompactHeightfield, DetailNavmesh, Heightfield, PolygonNavmesh, TriMesh, sim,
};
use serde::{Deserialize, Serialize, de::DeserializeOwned};

use crate::{
    cx::Cx,
    jobs::{BuildSpec, Job, STAGE_NAMES, encode, solo},
    rng::Rng,
    runner, util,
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Format {
    Bincode,
    BincodeFixed,
    Json,
    JsonPretty,
}

/// What goes wrong in one life of the building process.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Life {
    /// Dies at that switch point, counted from its start.
    DieAtPoint(u32),
    /// Dies after that many bytes of all its stores.
    DieAtByte { permille: u32, store: u8 },
    /// Ends at the end of that stage.
    DieAfterStage(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DiskPlan {
    pub seed: u32,
    pub spec: BuildSpec,
    pub format: Format,
    /// Stages after which there is a store, as bits.
    pub stores: u32,
    /// Size of one write.
    pub block: u32,
    /// Writes that are cut short, in percent; they are retried.
    pub short: u8,
    /// Stores that fail because the disk is full, in percent.
    pub full: u8,
    /// Stores whose end never arrives although the writer was told so, in percent.
    pub lost: u8,
    pub lives: Vec<Life>,
}

/// What survives a crash.
#[derive(Default)]
struct Disk {
    files: BTreeMap<u32, Vec<u8>>,
    next: u32,
}

/// The products that exist after a stage, as they are stored.
#[derive(Serialize, Deserialize)]
struct Stored {
    stage: u32,
    tri: Option<TriMesh>,
    hf: Option<Heightfield>,
    chf: Option<CompactHeightfield>,
    poly: Option<PolygonNavmesh>,
    detail: Option<DetailNavmesh>,
    navmesh: Option<bevy_rerecast::Navmesh>,
}

fn enc<T: Serialize>(f: Format, v: &T) -> Result<Vec<u8>, String> {
    match f {
        Format::Bincode => bincode::serde::encode_to_vec(v, bincode::config::standard())
            .map_err(|e| e.to_string()),
        Format::BincodeFixed => bincode::serde::encode_to_vec(v, bincode::config::legacy())
            .map_err(|e| e.to_string()),
        Format::Json => serde_json::to_vec(v).map_err(|e| e.to_string()),
        Format::JsonPretty => serde_json::to_vec_pretty(v).map_err(|e| e.to_string()),
    }
}

fn dec<T: DeserializeOwned>(f: Format, b: &[u8]) -> Result<T, String> {
    match f {
        Format::Bincode => bincode::serde::decode_from_slice(b, bincode::config::standard())
            .map(|x| x.0)
            .map_err(|e| e.to_string()),
        Format::BincodeFixed => bincode::serde::decode_from_slice(b, bincode::config::legacy())
            .map(|x| x.0)
            .map_err(|e| e.to_string()),
        Format::Json | Format::JsonPretty => serde_json::from_slice(b).map_err(|e| e.to_string()),
    }
}

/// A [`bevy_rerecast::Navmesh`] has no public fields; it is made from its stored form.
fn navmesh(p: &PolygonNavmesh, d: &DetailNavmesh) -> Result<bevy_rerecast::Navmesh, String> {
    let v = serde_json::json!({ "polygon": p, "detail": d });
    serde_json::from_value(v).map_err(|e| e.to_string())
}

/// The build as it was stored, if it is what it was.
fn loaded(s: Stored, whole: &[u64], cx: &mut Cx) -> Option<Job> {
    let mut j = Job {
        stage: s.stage as usize + 1,
        tri: s.tri,
        hf: s.hf,
        chf: s.chf,
        poly: s.poly,
        detail: s.detail,
        ..Default::default()
    };
    if let Some(n) = s.navmesh {
        // Both halves of the navmesh come out of its stored form.
        let v = serde_json::to_value(&n).ok();
        let part = |k: &str| v.as_ref().and_then(|v| v.get(k).cloned());
        j.poly = part("polygon").and_then(|v| serde_json::from_value(v).ok());
        j.detail = part("detail").and_then(|v| serde_json::from_value(v).ok());
    }
    // The hash of the stage that was loaded, to compare with.
    j.hashes = whole[..s.stage as usize].to_vec();
    j.note();
    cx.checks += 1;
    if j.hashes.last() != Some(&whole[s.stage as usize]) {
        cx.violate("store-differs", format!("what was stored after '{}' loads as something else", STAGE_NAMES[s.stage as usize]));
        return None;
    }
    Some(j)
}

struct Died;

struct LifeState {
    points: Option<u32>,
    /// Bytes of the given store that arrive.
    store: Option<(u8, u32)>,
    stage: Option<u8>,
    stores: u8,
}

pub fn run(p: &DiskPlan, cx: &mut Cx) {
    let mut rng = Rng::new(p.seed as u64);
    let whole = solo(&p.spec);
    if whole.last() == Some(&runner::PANICKED) {
        let at = STAGE_NAMES[(whole.len() - 1).min(STAGE_NAMES.len() - 1)];
        cx.violate("build-panic", format!("an undisturbed build panics in '{at}'"));
        return;
    }
    cx.log(format!("uninterrupted: {:x?}", whole.last()));
    let mut disk = Disk::default();
    // Files that were completely written, and for which stage.
    let mut complete: BTreeMap<u32, usize> = BTreeMap::new();
    let mut lives = p.lives.iter();
    loop {
        let life = lives.next();
        let mut st = LifeState { points: None, store: None, stage: None, stores: 0 };
        match life {
            Some(Life::DieAtPoint(n)) => st.points = Some(*n),
            Some(Life::DieAtByte { permille, store }) => st.store = Some((*store, *permille)),
            Some(Life::DieAfterStage(s)) => st.stage = Some(*s),
            None => {}
        }
        // Start-up: the newest store that loads.
        let mut job = None;
        let newest_complete = complete.iter().next_back().map(|(f, s)| (*f, *s));
        for (id, bytes) in disk.files.iter().rev() {
            cx.checks += 1;
            let r = catch_unwind(AssertUnwindSafe(|| dec::<Stored>(p.format, bytes)));
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    cx.violate("store-panic", format!("loading a store: {}", util::panic_text(e)));
                    return;
                }
            };
            match (r, complete.get(id)) {
                (Ok(s), Some(stage)) => {
                    if s.stage as usize != *stage {
                        cx.violate("store-differs", format!("the store of '{}' loads as another stage", STAGE_NAMES[*stage]));
                        return;
                    }
                    cx.log(format!("goes on from store {id}, after '{}'", STAGE_NAMES[*stage]));
                    cx.count("resumed");
                    job = Some(s);
                    break;
                }
                (Err(e), Some(stage)) => {
                    cx.violate("store-rejected", format!("the complete store of '{}' does not load: {e}", STAGE_NAMES[*stage]));
                    return;
                }
                (Ok(_), None) => {
                    cx.violate("store-torn-accepted", "a store that was cut short loads");
                    return;
                }
                (Err(_), None) => {
                    cx.log(format!("store {id} ({} bytes) is rejected", bytes.len()));
                    cx.count("cut store rejected");
                }
            }
        }
        if job.is_none() && newest_complete.is_some() {
            cx.violate("store-rejected", "a complete store was not found again");
            return;
        }
        let job = match job {
            None => Job::new(&p.spec),
            Some(s) => {
                let Some(j) = loaded(s, &whole, cx) else {
                    return;
                };
                j
            }
        };
        let done = one_life(p, cx, &mut rng, &mut disk, &mut complete, job, st, &whole);
        if cx.stop() {
            return;
        }
        match done {
            None => {
                cx.fault("process killed");
            }
            Some(job) => {
                cx.checks += 1;
                if job.hashes != whole {
                    let k = (0..whole.len()).find(|k| job.hashes.get(*k) != whole.get(*k)).unwrap_or(0);
                    cx.violate("resume-differs", format!("the resumed build differs at '{}'", STAGE_NAMES[k]));
                }
                cx.count(if job.error.is_some() { "build failed" } else { "build ok" });
                // Another process may start from any of the stores.
                for (id, stage) in &complete {
                    match catch_unwind(AssertUnwindSafe(|| dec::<Stored>(p.format, &disk.files[id]))) {
                        Ok(Ok(s)) if s.stage as usize == *stage => {
                            if loaded(s, &whole, cx).is_none() {
                                return;
                            }
                        }
                        Ok(Ok(_)) => cx.violate("store-differs", format!("the store of '{}' loads as another stage", STAGE_NAMES[*stage])),
                        Ok(Err(e)) => cx.violate("store-rejected", format!("the complete store of '{}' does not load: {e}", STAGE_NAMES[*stage])),
                        Err(e) => cx.violate("store-panic", format!("loading a store: {}", util::panic_text(e))),
                    }
                }
                return;
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn one_life(
    p: &DiskPlan,
    cx: &mut Cx,
    rng: &mut Rng,
    disk: &mut Disk,
    complete: &mut BTreeMap<u32, usize>,
    mut job: Job,
    mut st: LifeState,
    whole: &[u64],
) -> Option<Job> {
    let left = std::rc::Rc::new(std::cell::Cell::new(st.points));
    while !job.done() {
        let stage = job.stage;
        let l = left.clone();
        sim::set_point_hook(Some(Box::new(move || {
            if let Some(n) = l.get() {
                if n == 0 {
                    resume_unwind(Box::new(Died));
                }
                l.set(Some(n - 1));
            }
        })));
        let r = catch_unwind(AssertUnwindSafe(|| {
            job.step(&p.spec);
        }));
        sim::set_point_hook(None);
        if let Err(e) = r {
            if (*e).is::<Died>() {
                cx.log(format!("dies inside '{}'", STAGE_NAMES[stage]));
                cx.sched(&format!("in{stage}"));
            } else {
                cx.violate("resume-differs", format!("the resumed build panics in '{}': {}", STAGE_NAMES[stage], util::panic_text(e)));
            }
            return None;
        }
        job.note();
        cx.sim_us += 1000;
        let k = job.hashes.len() - 1;
        if whole.get(k) != Some(&job.hashes[k]) {
            cx.violate("resume-differs", format!("the resumed build differs at '{}'", STAGE_NAMES[stage]));
            return None;
        }
        if job.error.is_some() {
            return Some(job);
        }
        // Contours cannot be stored.
        if p.stores & (1 << stage) != 0 && job.contours.is_none() && !store(p, cx, rng, disk, complete, &job, stage, &mut st) {
            cx.log(format!("dies storing '{}'", STAGE_NAMES[stage]));
            cx.sched(&format!("st{stage}"));
            return None;
        }
        cx.state(&format!("{stage} {:?} {}", p.format, complete.len()));
        if st.stage == Some(stage as u8) {
            cx.log(format!("dies after '{}'", STAGE_NAMES[stage]));
            cx.sched(&format!("af{stage}"));
            return None;
        }
    }
    Some(job)
}

/// Writes a store; false if the process dies on it.
#[allow(clippy::too_many_arguments)]
fn store(
    p: &DiskPlan,
    cx: &mut Cx,
    rng: &mut Rng,
    disk: &mut Disk,
    complete: &mut BTreeMap<u32, usize>,
    job: &Job,
    stage: usize,
    st: &mut LifeState,
) -> bool {
    let mut s = Stored {
        stage: stage as u32,
        tri: job.tri.clone(),
        hf: job.hf.clone(),
        chf: job.chf.clone(),
        poly: job.poly.clone(),
        detail: job.detail.clone(),
        navmesh: None,
    };
    if let (Some(poly), Some(detail)) = (&job.poly, &job.detail)
        && job.chf.is_none()
        && rng.bool()
    {
        match navmesh(poly, detail) {
            Ok(n) => {
                s.navmesh = Some(n);
                s.poly = None;
                s.detail = None;
            }
            // Its stored form has other names: then the parts are stored.
            Err(_) => cx.count("navmesh not put together"),
        }
    }
    let bytes = match enc(p.format, &s) {
        Ok(b) => b,
        Err(e) => {
            cx.violate("store-rejected", format!("'{}' cannot be stored: {e}", STAGE_NAMES[stage]));
            return true;
        }
    };
    let id = disk.next;
    disk.next += 1;
    let nth = st.stores;
    st.stores += 1;
    let full = rng.pct(p.full as u64).then(|| rng.below(bytes.len() as u64) as usize);
    let lost = rng.pct(p.lost as u64).then(|| rng.below(bytes.len() as u64) as usize);
    let die = match st.store {
        Some((n, permille)) if n == nth => Some(((bytes.len() as u64 - 1) * permille as u64 / 1000) as usize),
        _ => None,
    };
    let file = disk.files.entry(id).or_default();
    let mut at = 0;
    while at < bytes.len() {
        let mut n = (p.block as usize).min(bytes.len() - at);
        if rng.pct(p.short as u64) && n > 1 {
            n = 1 + rng.idx(n - 1);
            cx.fault("short write");
        }
        if let Some(f) = full
            && at + n > f
        {
            cx.fault("disk full");
            cx.log(format!("no room for the store of '{}'", STAGE_NAMES[stage]));
            file.extend(&bytes[at..f.max(at)]);
            return true;
        }
        if let Some(d) = die
            && at + n > d
        {
            cx.fault("killed while storing");
            file.extend(&bytes[at..d.max(at)]);
            return false;
        }
        file.extend(&bytes[at..at + n]);
        at += n;
    }
    if let Some(l) = lost {
        cx.fault("end of the store lost");
        file.truncate(l);
        return true;
    }
    complete.insert(id, stage);
    cx.count("stored");
    cx.log(format!("store {id}: '{}', {} bytes", STAGE_NAMES[stage], bytes.len()));
    debug_assert!(!encode(&0u8).is_empty());
    true
}

impl DiskPlan {
    pub fn simpler(&self) -> Vec<DiskPlan> {
        let mut out = Vec::new();
        let mut add = |f: &dyn Fn(&mut DiskPlan)| {
            let mut q = self.clone();
            f(&mut q);
            out.push(q);
        };
        for s in self.spec.simpler() {
            add(&|q| q.spec = s.clone());
        }
        if self.short > 0 {
            add(&|q| q.short = 0);
        }
        if self.full > 0 {
            add(&|q| q.full = 0);
        }
        if self.lost > 0 {
            add(&|q| q.lost = 0);
        }
        if self.block < 1 << 20 {
            add(&|q| q.block = 1 << 20);
        }
        for k in 0..14 {
            if self.stores & (1 << k) != 0 {
                add(&|q| q.stores &= !(1 << k));
            }
        }
        out
    }
}

pub fn generate(r: &mut Rng) -> DiskPlan {
    let mut spec = BuildSpec::random(r);
    let format = *r.pick(&[Format::Bincode, Format::BincodeFixed, Format::Json, Format::JsonPretty]);
    if matches!(format, Format::Json | Format::JsonPretty) {
        spec.things = spec.things.min(3);
        // The format knows no numbers that are not finite.
        spec.odd = 0;
    }
    if matches!(format, Format::Bincode | Format::BincodeFixed) && r.below(100) == 0 {
        spec.things = crate::jobs::PLAIN + r.below(4) as u32;
        spec.odd = 0;
        // Nothing in its middle.
        spec.volumes = 0;
    }
    let q = *r.pick(&[0, 10, 30]);
    DiskPlan {
        seed: r.seed(),
        spec,
        format,
        stores: match r.below(3) {
            0 => u32::MAX,
            1 => 1 << r.below(14) | 1 << r.below(14),
            _ => r.seed(),
        },
        block: *r.pick(&[512, 4096, 65536]),
        short: q,
        full: *r.pick(&[0, 0, 10]),
        lost: *r.pick(&[0, 0, 15]),
        lives: (0..r.range(1, 6))
            .map(|_| match r.below(4) {
                0 => {
                    let n = *r.pick(&[50, 500, 3000]);
                    Life::DieAtPoint(r.below(n) as u32)
                }
                1 | 2 => Life::DieAtByte {
                    permille: match r.below(4) {
                        0 => 0,
                        1 => 1000,
                        _ => r.below(1001) as u32,
                    },
                    store: r.below(5) as u8,
                },
                _ => Life::DieAfterStage(r.below(14) as u8),
            })
            .collect(),
    }
}
