pub mod bits; pub mod entropy; pub mod headers; pub mod modular;
pub mod frame;
pub mod tables;
pub mod qtables;
pub mod icc;
