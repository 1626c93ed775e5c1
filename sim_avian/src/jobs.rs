//! There are no builds in this simulation.

#[derive(serde::Serialize, serde::Deserialize)]
pub struct BuildSpec;

pub fn solo(_: &BuildSpec) -> Vec<u64> {
    Vec::new()
}
