//! Property-based tests of mofmt

pub mod accept;
pub mod alloc;
pub mod checks;
pub mod cli;
pub mod dict;
pub mod driver;
pub mod engine;
pub mod entry;
pub mod gen;
pub mod grammar;
pub mod history;
pub mod layout;
pub mod lexcheck;
pub mod lexis;
pub mod model;
pub mod relate;
pub mod src;
pub mod style;
pub mod supervise;
pub mod sut;
pub mod total;
pub mod watch;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
