#![allow(static_mut_refs, dead_code, unused, clippy::all)]
pub const VERSION_CARGO_SEMVER: &str = env!("CARGO_PKG_VERSION");
#[path = "@REPO@/opsqueue/src/common/mod.rs"] pub mod common;
#[path = "@REPO@/opsqueue/src/db/mod.rs"] pub mod db;
#[path = "@REPO@/opsqueue/src/prometheus.rs"] pub mod prometheus;
#[path = "@REPO@/opsqueue/src/tracing.rs"] pub mod tracing;
pub mod consumer {
    #[path = "@REPO@/opsqueue/src/consumer/common.rs"] pub mod common;
    #[path = "@REPO@/opsqueue/src/consumer/strategy.rs"] pub mod strategy;
}
#[macro_use] pub mod st;
pub mod h_db;
pub mod h_read;
pub mod record;
