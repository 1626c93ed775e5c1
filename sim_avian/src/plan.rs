//! What a run does: generated from a seed, stored in replay files, and minimised.

use serde::{Deserialize, Serialize};

use crate::{
    cx::Cx,
    physics::{self, PhysPlan},
    rng::{Rng, mix},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Plan {
    Physics(PhysPlan),
}

pub struct Check {
    pub id: &'static str,
    pub title: &'static str,
    /// Violations that speak about this property.
    pub classes: &'static [&'static str],
    pub generate: fn(&mut Rng) -> Plan,
    /// Runs of the quick tier.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// Counters of which at least one must be there for a run to count as non-trivial.
    pub nontrivial: &'static [&'static str],
    pub real: &'static str,
    pub stubs: &'static str,
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C11",
        title: "physics backend",
        classes: &[
            "physics-missing", "physics-unwanted", "physics-placement", "physics-shape",
            "physics-refused", "physics-unanswered", "physics-panic",
        ],
        generate: |r| Plan::Physics(physics::generate(r)),
        quick: 1500,
        thorough: 60_000,
        rule: "a run spawns, moves, re-parents, re-shapes and removes bodies and colliders of all kinds at every point of the frame while physics runs, with requests between; it counts if a scene with a collider was served",
        nontrivial: &["served colliders"],
        real: "AvianRerecastPlugin, bevy_rerecast plugins, BRP method dispatch (RemotePlugin), codec, avian3d's physics, Bevy's ECS and transform propagation",
        stubs: "HTTP server (requests enter at the BRP mailbox), renderer (absent), clocks (manual), thread scheduling (single-threaded executors)",
    }]
}

pub fn check(id: &str) -> Option<Check> {
    checks().into_iter().find(|c| c.id == id)
}

pub fn generate(c: &Check, seed: u64, i: u64) -> Plan {
    let tag = crate::rng::hash_str(c.id);
    let mut r = Rng::new(mix(seed ^ tag).wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
    (c.generate)(&mut r)
}

impl Plan {
    pub fn run(&self, cx: &mut Cx) {
        let Plan::Physics(p) = self;
        physics::run(p, cx);
    }

    pub fn len(&self) -> usize {
        let Plan::Physics(p) = self;
        p.steps.len()
    }

    pub fn keep(&self, mask: &[bool]) -> Plan {
        let Plan::Physics(p) = self;
        let mut q = p.clone();
        q.steps = p.steps.iter().zip(mask).filter(|x| *x.1).map(|x| x.0.clone()).collect();
        Plan::Physics(q)
    }

    pub fn simpler(&self) -> Vec<Plan> {
        let Plan::Physics(p) = self;
        p.simpler().into_iter().map(Plan::Physics).collect()
    }
}
