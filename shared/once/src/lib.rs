//! Stands in for `once_cell`: the shared cells are the observable ones, the rest is the real crate.
pub use once_cell::*;

pub mod sync {
    pub use mc_std::sync::{LazyLock as Lazy, OnceLock as OnceCell};
    pub use once_cell::sync::OnceCell as RealOnceCell;
}
