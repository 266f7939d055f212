//! Runtime monitors for rowcol: shared machinery.
#[macro_use]
pub extern crate rowcol;
pub use num;
pub mod rng;
pub mod mon;
#[macro_use]
pub mod ops;
pub mod fault;
pub mod field;
pub mod elems;
pub mod iterdrive;
#[macro_use]
pub mod shapes;
pub mod model;
pub mod sym;
pub mod linalg;
pub mod catalog;
#[macro_use]
pub mod soup;

pub use mon::{catches, last_panic, panics, Case, Mon};
pub use rng::{hash_str, mix, Rng};
