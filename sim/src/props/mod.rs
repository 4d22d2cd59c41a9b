pub mod again;
pub mod apidb;
pub mod house;
pub mod iter;
pub mod keep;
pub mod knobs;
pub mod more;
pub mod read;
pub mod work;
pub mod write;

use crate::fw::Scenario;

pub fn all() -> Vec<&'static Scenario> {
    let mut v = Vec::new();
    v.extend(read::SCENARIOS.iter());
    v.extend(write::SCENARIOS.iter());
    v.extend(apidb::SCENARIOS.iter());
    v.extend(more::SCENARIOS.iter());
    v.extend(again::SCENARIOS.iter());
    v.extend(house::SCENARIOS.iter());
    v.extend(keep::SCENARIOS.iter());
    v.extend(iter::SCENARIOS.iter());
    v.extend(work::SCENARIOS.iter());
    v
}
