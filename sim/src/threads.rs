//! Several builds on several threads, one of which runs at a time.
//!
//! The threads are real; who runs, and for how many switch points, is decided by the run's seed.

use std::{
    any::Any,
    panic::{AssertUnwindSafe, catch_unwind, resume_unwind},
    sync::mpsc::{Receiver, RecvTimeoutError, Sender, channel},
    thread::JoinHandle,
    time::Duration,
};

use bevy_rerecast::rerecast::sim;
use serde::{Deserialize, Serialize};

use crate::{
    cx::Cx,
    jobs::{BuildSpec, Job, STAGE_NAMES},
    rng::Rng,
    runner, util,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Task {
    pub spec: BuildSpec,
    /// Abandoned by unwinding after this many switch points.
    pub cancel: Option<u32>,
    /// Waits until this many other builds have ended.
    pub after: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ThreadPlan {
    pub seed: u32,
    pub threads: u8,
    /// Switch points between two decisions, at most.
    pub burst: u32,
    /// Builds stay on their thread instead of moving on between stages.
    pub pinned: bool,
    /// A thread ends after an abandoned build, and another one takes its place.
    pub fresh_after_cancel: bool,
    pub tasks: Vec<Task>,
}

enum Cmd {
    Run {
        job: Box<Job>,
        spec: BuildSpec,
        points: u32,
        kill_in: Option<u32>,
    },
    Go {
        points: u32,
        kill_in: Option<u32>,
    },
}

enum Reply {
    Parked { used: u32 },
    Stage(Box<Job>, u32),
    Cancelled,
    Panicked(String),
}

struct Cancel;

struct Budget {
    points: u32,
    kill_in: Option<u32>,
    used: u32,
}

struct Thread {
    to: Sender<Cmd>,
    from: Receiver<Reply>,
    tid: String,
    handle: Option<JoinHandle<()>>,
}

impl Thread {
    /// The thread's next message, or none if it waits for something that another thread holds.
    fn reply(&self) -> Result<Option<Reply>, ()> {
        let mut asleep = 0;
        loop {
            match self.from.recv_timeout(Duration::from_millis(20)) {
                Ok(r) => return Ok(Some(r)),
                Err(RecvTimeoutError::Disconnected) => return Err(()),
                Err(RecvTimeoutError::Timeout) => {
                    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", self.tid))
                        .unwrap_or_default();
                    let state = s
                        .rsplit(')')
                        .next()
                        .unwrap_or("")
                        .trim_start()
                        .chars()
                        .next();
                    asleep = if state == Some('S') { asleep + 1 } else { 0 };
                    if asleep >= 4 {
                        return Ok(None);
                    }
                }
            }
        }
    }
}

fn thread_main(from: Receiver<Cmd>, to: Sender<Reply>) {
    util::init();
    let from = std::sync::Arc::new(std::sync::Mutex::new(from));
    loop {
        let cmd = from.lock().unwrap().recv();
        let Ok(Cmd::Run {
            mut job,
            spec,
            points,
            kill_in,
        }) = cmd
        else {
            return;
        };
        let budget = std::rc::Rc::new(std::cell::RefCell::new(Budget {
            points,
            kill_in,
            used: 0,
        }));
        let (b, f, t) = (budget.clone(), from.clone(), to.clone());
        sim::set_point_hook(Some(Box::new(move || {
            let mut b = b.borrow_mut();
            if b.kill_in == Some(0) {
                drop(b);
                resume_unwind(Box::new(Cancel));
            }
            if let Some(k) = &mut b.kill_in {
                *k -= 1;
            }
            b.used += 1;
            if b.points > 1 {
                b.points -= 1;
                return;
            }
            let used = std::mem::take(&mut b.used);
            if t.send(Reply::Parked { used }).is_err() {
                drop(b);
                resume_unwind(Box::new(Cancel));
            }
            match f.lock().unwrap().recv() {
                Ok(Cmd::Go { points, kill_in }) => {
                    b.points = points;
                    b.kill_in = kill_in;
                }
                _ => {
                    drop(b);
                    resume_unwind(Box::new(Cancel));
                }
            }
        })));
        let r = catch_unwind(AssertUnwindSafe(|| {
            job.step(&spec);
            job
        }));
        sim::set_point_hook(None);
        let used = budget.borrow().used;
        let reply = match r {
            Ok(mut job) => {
                job.note();
                Reply::Stage(job, used)
            }
            Err(p) if (*p).is::<Cancel>() => Reply::Cancelled,
            Err(p) => Reply::Panicked(util::panic_text(p as Box<dyn Any + Send>)),
        };
        if to.send(reply).is_err() {
            return;
        }
    }
}

fn spawn() -> Thread {
    let (to, from) = channel();
    let (back, replies) = channel();
    let (tid, its_tid) = channel();
    let handle = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let me = std::fs::read_link("/proc/thread-self").ok();
            let me = me.and_then(|p| p.file_name().map(|n| n.to_string_lossy().into_owned()));
            let _ = tid.send(me.unwrap_or_default());
            thread_main(from, back)
        })
        .expect("thread");
    let tid = its_tid.recv().unwrap_or_default();
    Thread {
        to,
        from: replies,
        tid,
        handle: Some(handle),
    }
}

impl Drop for Thread {
    fn drop(&mut self) {
        // The thread's next receive fails.
        let (to, _) = channel();
        self.to = to;
        if let Some(h) = self.handle.take() {
            let _ = h.join();
        }
    }
}

enum State {
    Waiting(Option<Box<Job>>),
    /// On that thread, in the middle of a stage.
    Inside(usize),
    /// On that thread, waiting for something that another build holds.
    Blocked(usize),
    Ended,
}

pub fn run(p: &ThreadPlan, cx: &mut Cx) {
    let mut rng = Rng::new(p.seed as u64);
    let mut refs: std::collections::BTreeMap<&BuildSpec, Vec<u64>> = Default::default();
    for t in &p.tasks {
        if !refs.contains_key(&t.spec) {
            let a = runner::solo(&t.spec);
            cx.log(format!("alone: {:x?}", a.last()));
            if rng.pct(20) {
                let b = runner::solo(&t.spec);
                cx.checks += 1;
                if a != b {
                    cx.violate(
                        "build-unrepeatable",
                        differs(&a, &b, "two builds in processes of their own"),
                    );
                }
            }
            refs.insert(&t.spec, a);
        }
    }
    let mut threads: Vec<Thread> = (0..p.threads.max(1)).map(|_| spawn()).collect();
    let mut busy: Vec<bool> = vec![false; threads.len()];
    let mut states: Vec<State> = p.tasks.iter().map(|_| State::Waiting(None)).collect();
    let mut left: Vec<Option<u32>> = p.tasks.iter().map(|t| t.cancel).collect();
    let mut home: Vec<Option<usize>> = vec![None; p.tasks.len()];
    let mut ended = 0usize;
    let mut last = usize::MAX;
    loop {
        if cx.stop() {
            break;
        }
        let free: Vec<usize> = (0..threads.len()).filter(|t| !busy[*t]).collect();
        let ready: Vec<usize> = (0..states.len())
            .filter(|i| match &states[*i] {
                State::Inside(_) => true,
                State::Ended | State::Blocked(_) => false,
                State::Waiting(_) => {
                    (p.tasks[*i].after as usize <= ended
                        || states
                            .iter()
                            .all(|s| matches!(s, State::Ended | State::Waiting(None))))
                        && match home[*i].filter(|_| p.pinned) {
                            Some(h) => !busy[h],
                            None => !free.is_empty(),
                        }
                }
            })
            .collect();
        // Blocked builds that can go on do so until their next switch point.
        let woken = (0..states.len()).find_map(|i| match states[i] {
            State::Blocked(t) => match threads[t].reply() {
                Ok(None) => None,
                Ok(Some(r)) => Some((i, t, Ok(r))),
                Err(()) => Some((i, t, Err(()))),
            },
            _ => None,
        });
        if ready.is_empty() && woken.is_none() {
            if states.iter().any(|s| matches!(s, State::Blocked(_))) {
                cx.violate(
                    "build-influenced",
                    "builds on different threads wait for each other forever",
                );
                // Their threads never end.
                threads.drain(..).for_each(std::mem::forget);
            }
            break;
        }
        let (i, th, reply) = if let Some((i, t, r)) = woken {
            states[i] = State::Inside(t);
            (i, t, r.map(Some))
        } else {
            let i = *rng.pick(&ready);
            let points = 1 + rng.below(p.burst.max(1) as u64) as u32;
            if last != i {
                last = i;
                cx.sched(&format!("{i}"));
            }
            let th = match &mut states[i] {
                State::Inside(t) => {
                    let _ = threads[*t].to.send(Cmd::Go {
                        points,
                        kill_in: left[i],
                    });
                    *t
                }
                State::Waiting(job) => {
                    let t = match home[i].filter(|_| p.pinned) {
                        Some(h) => h,
                        None => *rng.pick(&free),
                    };
                    if home[i].is_some_and(|h| h != t) {
                        cx.count("moved to another thread");
                    }
                    home[i] = Some(t);
                    let spec = p.tasks[i].spec.clone();
                    let job = job.take().unwrap_or_else(|| Box::new(Job::new(&spec)));
                    busy[t] = true;
                    if threads[t]
                        .to
                        .send(Cmd::Run {
                            job,
                            spec,
                            points,
                            kill_in: left[i],
                        })
                        .is_err()
                    {
                        cx.violate("process-abort", "a thread ended");
                        break;
                    }
                    states[i] = State::Inside(t);
                    t
                }
                State::Ended | State::Blocked(_) => unreachable!(),
            };
            (i, th, threads[th].reply())
        };
        let Ok(reply) = reply else {
            cx.violate("process-abort", "a thread ended");
            break;
        };
        let Some(reply) = reply else {
            cx.count("waited for another build");
            states[i] = State::Blocked(th);
            continue;
        };
        let mut took = |n: u32| {
            if let Some(k) = &mut left[i] {
                *k = k.saturating_sub(n);
            }
        };
        match reply {
            Reply::Parked { used } => {
                took(used);
                cx.sim_us += used as u64;
                cx.count("switch inside a stage");
            }
            Reply::Stage(job, used) => {
                took(used);
                busy[th] = false;
                let k = job.hashes.len() - 1;
                let want = refs[&p.tasks[i].spec].get(k).copied();
                cx.log(format!(
                    "build {i}, {} on thread {th}: {:x}",
                    STAGE_NAMES[job.stage - 1],
                    job.hashes[k]
                ));
                cx.state(&format!(
                    "{} {} {:?}",
                    job.stage,
                    job.error.is_some(),
                    states
                        .iter()
                        .map(|s| matches!(s, State::Inside(_)))
                        .collect::<Vec<_>>()
                ));
                cx.checks += 1;
                if want != Some(job.hashes[k]) {
                    cx.violate(
                        "build-influenced",
                        format!(
                            "build {i}: {} gave another result than when built alone{}",
                            STAGE_NAMES[job.stage - 1],
                            job.error
                                .as_ref()
                                .map(|e| format!(" ({e})"))
                                .unwrap_or_default()
                        ),
                    );
                }
                if job.done() {
                    cx.count(if job.error.is_some() {
                        "build failed"
                    } else {
                        "build ok"
                    });
                    states[i] = State::Ended;
                    ended += 1;
                } else {
                    states[i] = State::Waiting(Some(job));
                }
            }
            Reply::Cancelled => {
                busy[th] = false;
                cx.log(format!("build {i} abandoned on thread {th}"));
                cx.fault("build abandoned by unwinding");
                states[i] = State::Ended;
                ended += 1;
                if p.fresh_after_cancel {
                    threads[th] = spawn();
                    cx.fault("thread replaced");
                }
            }
            Reply::Panicked(e) => {
                busy[th] = false;
                cx.log(format!("build {i} panicked on thread {th}: {e}"));
                cx.checks += 1;
                // Alone it ends with this, too.
                if refs[&p.tasks[i].spec].last() != Some(&runner::PANICKED) {
                    cx.violate("build-influenced", format!("build {i} panicked: {e}"));
                }
                cx.fault("build that panics");
                states[i] = State::Ended;
                ended += 1;
            }
        }
    }
    // All of them first, as some may wait for others.
    for t in &mut threads {
        t.to = channel().0;
    }
}

impl ThreadPlan {
    pub fn simpler(&self) -> Vec<ThreadPlan> {
        let mut out = Vec::new();
        let mut add = |f: &dyn Fn(&mut ThreadPlan)| {
            let mut q = self.clone();
            f(&mut q);
            out.push(q);
        };
        if self.threads > 1 {
            add(&|q| q.threads -= 1);
        }
        if self.burst < 10_000 {
            add(&|q| q.burst = 10_000);
        }
        if !self.pinned {
            add(&|q| q.pinned = true);
        }
        if self.fresh_after_cancel {
            add(&|q| q.fresh_after_cancel = false);
        }
        for (i, t) in self.tasks.iter().enumerate() {
            if t.cancel.is_some() {
                add(&|q| q.tasks[i].cancel = None);
            }
            if t.after > 0 {
                add(&|q| q.tasks[i].after = 0);
            }
            for s in t.spec.simpler() {
                add(&|q| q.tasks[i].spec = s.clone());
            }
            if t.spec != self.tasks[0].spec {
                add(&|q| q.tasks[i].spec = q.tasks[0].spec.clone());
            }
        }
        out
    }
}

fn differs(a: &[u64], b: &[u64], what: &str) -> String {
    let k = (0..a.len().max(b.len()))
        .find(|k| a.get(*k) != b.get(*k))
        .unwrap_or(0);
    format!(
        "{what} differ from stage '{}' on",
        STAGE_NAMES.get(k).unwrap_or(&"?")
    )
}

pub fn generate(r: &mut Rng) -> ThreadPlan {
    let n = r.range(2, 6) as usize;
    let mut kinds: Vec<BuildSpec> = (0..r.range(1, 3)).map(|_| BuildSpec::random(r)).collect();
    if r.pct(40) {
        for _ in 0..r.range(1, 3) {
            let like = kinds[0].variant(r);
            kinds.push(like);
        }
    }
    let cancel = *r.pick(&[0, 20, 50]);
    ThreadPlan {
        seed: r.seed(),
        threads: r.range(1, 4) as u8,
        burst: *r.pick(&[1, 3, 10, 40, 200]),
        pinned: r.pct(40),
        fresh_after_cancel: r.pct(30),
        tasks: (0..n)
            .map(|_| Task {
                spec: if r.pct(70) {
                    r.pick(&kinds).clone()
                } else {
                    BuildSpec::random(r)
                },
                cancel: r.pct(cancel).then(|| {
                    let n = *r.pick(&[20, 200, 800]);
                    r.below(n) as u32
                }),
                after: if r.pct(30) { r.below(3) as u8 } else { 0 },
            })
            .collect(),
    }
}
