//! The real tokio's `sync`, with tasks and time from the harness' executor.
pub use real::{pin, sync};
pub use actix_rt::time;
pub mod task {
    pub use actix_rt::task::*;
    pub use actix_rt::spawn as spawn_local;
}
