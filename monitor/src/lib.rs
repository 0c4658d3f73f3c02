//! Monitors of ethabi: see DESIGN.md.

pub mod dict;
pub mod gen;
pub mod keccak;
pub mod model;
pub mod mon;
pub mod p_access;
pub mod p_call;
pub mod p_cli;
pub mod p_codec;
pub mod p_derive;
pub mod p_event;
pub mod p_json;
pub mod p_state;
pub mod p_text;
pub mod p_types;
pub mod props;
pub mod rng;
pub mod run;
