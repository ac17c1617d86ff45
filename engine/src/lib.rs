//! Choice-tape property engine, reference model and generators.
//! Nothing in this crate depends on rabe-bn.
pub mod big;
pub mod dict;
pub mod gen;
pub mod guided;
pub mod model;
pub mod run;
pub mod src;

pub use src::{Placed, Src, R};

/// `ensure!(cond, "fmt", ..)`: fail the case unless `cond`.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
