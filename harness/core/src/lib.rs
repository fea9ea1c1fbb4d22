pub mod ast;
pub mod checks;
pub mod dbg;
pub mod r#gen;
pub mod model;
pub mod runner;
pub mod tape;
