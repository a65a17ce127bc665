//! Reference model, history generator, lockstep executor and judges. See DESIGN.md.
pub mod exec;
pub mod gen;
pub mod hist;
pub mod model;
pub mod props;
pub mod real;
pub mod reflect;
pub mod schema;
pub mod shrink;

use std::sync::Arc;

/// What the machinery has for one schema
pub struct Entry {
  pub schema: Arc<schema::Schema>,
  pub mk: fn() -> Box<dyn real::Real>,
  pub reflect: reflect::ReflectFn,
  pub threads: fn(u64, usize, usize) -> Result<u64, String>,
}
