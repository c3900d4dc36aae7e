//! Contract runtime. Default: symbolic reals and proof obligations. Feature `conc`: plain f32 and sampled inputs,
//! used to replay a failed obligation on the code as it runs.
#[cfg(not(feature = "conc"))]
pub mod engine;
#[cfg(not(feature = "conc"))]
pub mod pool;
pub mod rat;
#[cfg(not(feature = "conc"))]
pub mod smt;
#[cfg(not(feature = "conc"))]
mod sym;
#[cfg(not(feature = "conc"))]
pub mod term;
#[cfg(not(feature = "conc"))]
pub use sym::*;

#[cfg(feature = "conc")]
mod conc;
#[cfg(feature = "conc")]
pub use conc::*;

pub mod hook;

pub struct Abort;

pub type Harness = (&'static str, fn());

/// `contracts!{ f, g, h }` defines main running the listed contract functions.
#[macro_export]
macro_rules! contracts {
    ($($f:path),* $(,)?) => {
        pub fn main() {
            $crate::run_all(&[$((stringify!($f), $f as fn())),*]);
        }
    };
}
