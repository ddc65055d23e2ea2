pub mod dec;
pub mod values;
pub mod ledger;
pub mod logs;
pub mod maps;
pub mod tree;
pub mod source;
pub mod select;
pub mod ids;
pub mod config;
mod tails;

pub use tails::now_and_then_longer;
