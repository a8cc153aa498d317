pub mod batch;
pub mod bits;
pub mod emit;
pub mod engines;
pub mod gen;
pub mod json;
pub mod model;
pub mod resolve;
pub mod schema;
pub mod tape;
pub mod vt;
