pub mod engine;
pub mod ev;
pub mod gen;
pub mod lsp;
pub mod mix;
pub mod progs;
pub mod props;
pub mod synt;
