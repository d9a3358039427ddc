#![allow(dead_code, unused, non_snake_case)]
pub mod std_model;
pub mod types;
pub mod prods;
pub mod lexing;
pub mod stream;
pub mod making;
pub mod grammar;
