//! Various useful code snippets
pub mod data_helpers;
pub mod path_helpers;
pub mod plot;
pub mod test;
pub mod token_model;
