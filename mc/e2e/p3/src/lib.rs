//! A part of the generated code (see mc/compiler/src/e2e.rs).
#![allow(unused)]
use mc_e2e_conv::*;
include!(concat!(env!("MC_E2E_DIR"), "/part3.rs"));
