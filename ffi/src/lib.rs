//! The monitor kernel of ../harness, compiled against the default-feature siderust under ASan.
#[path = "../../harness/src/run.rs"]
pub mod run;
pub use run::*;
#[path = "../../harness/src/daf.rs"]
pub mod daf;
#[path = "../../harness/src/kep.rs"]
pub mod kep;
#[path = "../../harness/src/la.rs"]
pub mod la;
#[path = "../../harness/src/tle.rs"]
pub mod tle;
