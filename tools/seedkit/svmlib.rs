pub mod big;
pub mod tok;
pub mod vm;
