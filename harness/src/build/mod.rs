//! Reference encoders for every supported container, independent of the crate under test.
pub mod bmff;
pub mod ebml;
pub mod jpeg;
pub mod png;
pub mod raf;
pub mod reshape;
pub mod tiff;
