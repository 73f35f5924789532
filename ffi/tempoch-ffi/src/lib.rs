//! Stand-in for the git-only `tempoch-ffi` crate (not available offline). siderust-ffi only uses
//! this plain C struct: a half-open period in Modified Julian Days.
#[repr(C)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct TempochPeriodMjd {
    pub start_mjd: f64,
    pub end_mjd: f64,
}
