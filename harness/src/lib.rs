pub mod sx;
pub mod model;
pub mod gen;
pub mod syn;
pub mod json;
pub mod robust;
pub mod layout;
pub mod meta;
pub mod lsp;
pub mod say;
pub mod hist;
pub mod shape;
pub mod tdg;
#[cfg(feature = "ext")]
pub mod cli;
pub mod entries;
pub use entries::run;
