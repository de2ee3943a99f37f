//! Monitors for the native eigenvalue binding.
pub mod native;
pub mod spectra;
