#![allow(dead_code, unused_imports)]
mod drv;
mod target;
pub mod engine {
    pub struct EnginePanic(pub String);
    thread_local!(pub static SEASONING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
}
use drv::*;
use gdbstub::common::*;
use gdbstub::stub::*;
use target::*;

