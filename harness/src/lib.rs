pub mod engine;
pub mod exec;
#[macro_use]
pub mod hist;
pub mod bulk;
pub mod dict;
pub mod gens;
pub mod pairs;
pub mod probe;
pub mod sched;
pub mod words;
