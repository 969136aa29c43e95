//! Generators and reference computations shared by the finite element checks.
//! Nothing here uses fenris algorithms: meshes are built by hand, only the final conversion creates fenris types.
pub mod kinds;
pub mod oracle;
pub mod raw;
pub mod slices;
pub mod synth;
pub mod view;
pub use kinds::*;
pub use raw::*;
