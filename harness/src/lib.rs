#![no_std]
extern crate alloc;
pub mod entries;
pub mod ev;
pub mod lex;
pub mod oracle;
mod reserved;
pub mod rt;
pub mod walk;
