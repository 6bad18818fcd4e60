pub mod cal;
pub mod engine;
pub mod gens;
pub mod http;
pub mod models;
pub mod perf;
pub mod world;
