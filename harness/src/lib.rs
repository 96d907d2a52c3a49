//! Symbolic entry points; compiled to LLVM IR together with /repo's crate and executed by symex.
#![allow(dead_code)]
mod h;
