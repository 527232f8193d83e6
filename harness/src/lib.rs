//! Shared machinery of the gfwx checks: the case generators, the independent models, the C++ oracle
//! and the runner (sharded proptest with replay files, coverage counters and a crash journal).
pub mod alloc;
pub mod content;
pub mod gen;
pub mod layout;
pub mod map;
pub mod model;
pub mod oracle;
pub mod run;

pub use run::{fail, Ctx, Obs, Res};

/// `ensure!(cond, "format", ...)`: return the failure text when the condition is false.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
