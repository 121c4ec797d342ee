//! Shared machinery of the checks: property engine, grammar model, generators.
pub mod gen;
pub mod gjson;
pub mod gram;
pub mod interp;
pub mod json;
pub mod layout;
pub mod prop;
pub mod sample;
pub mod stage;
