//! Harnesses for cddl-cat: see DESIGN.md.
pub mod gen;
pub mod real;
pub mod recog;
pub mod refi;
pub mod sym;
pub mod val;
#[macro_use]
pub mod table;
pub mod p_api;
pub mod p_err;
pub mod p_ast;
pub mod p_msg;
pub mod p_ivt;
pub mod p_hand;
pub mod p_size;
pub mod p_arr;
pub mod p_name;
pub mod p_choice;
pub mod p_map;
pub mod p_lit;
pub mod p_data;
pub mod p_regex;
pub mod p_layout;
pub mod p_text;
pub mod p_parse;
pub mod p_scalar;

pub use table::{entries, Entry};
