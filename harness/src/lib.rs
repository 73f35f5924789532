//! Monitors' shared library: `run` is the kernel, the rest are independent reference models.
pub mod run;
pub use run::*;
pub mod earthref;
pub mod daf;
pub mod docs;
pub mod seeds;
pub mod tle;
pub mod fakes;
pub mod frame_pairs;
pub mod kep;
pub mod la;
pub mod ode;
