//! Executes operation sequences on flatdata and records what can be observed.
//!
//! fdh run IN OUT: IN has one JSON object per line; `{"op":"reset","d":<domain>,...}` starts a new
//! sequence.  OUT gets one observation per line.
#![allow(bare_trait_objects)]
#[macro_use]
extern crate flatdata;

mod json;
mod lay;
#[macro_use]
mod layouts;
mod guard;
mod heap;
mod m_codec;
mod m_ext;
mod m_iter;
mod m_storage;
mod m_struct;
mod m_vec;
mod m_view;
mod m_wide;
mod sys;

use json::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Machine {
    fn step(&mut self, op: &J) -> J;
}

struct Nothing;
impl Machine for Nothing {
    fn step(&mut self, _: &J) -> J {
        tool_error("first operation has to be a reset")
    }
}

fn new_machine(op: &J, scratch: &str) -> Box<dyn Machine> {
    match op.st("d") {
        "codec" => Box::new(m_codec::Codec::new()),
        "struct" => Box::new(m_struct::Structs::new()),
        "vec" => m_vec::new(op),
        "ext" => m_ext::new(op, scratch),
        "view" => m_view::new(op),
        "wide" => m_wide::new(op),
        "iter" => m_iter::new(op),
        "storage" => Box::new(m_storage::Storages::new(op, scratch)),
        x => tool_error(&format!("unknown domain {}", x)),
    }
}

/// Runs code of the library, result of a panic is None.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 || args[1] != "run" {
        tool_error("usage: fdh run IN OUT");
    }
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::fs::File::open(&args[2]).unwrap_or_else(|e| tool_error(&e.to_string()));
    let mut out = std::fs::File::create(&args[3]).unwrap_or_else(|e| tool_error(&e.to_string()));
    let scratch = std::env::var("FDH_SCRATCH").unwrap_or_else(|_| tool_error("FDH_SCRATCH not set"));
    let mut machine: Box<dyn Machine> = Box::new(Nothing);
    let mut count = 0;
    for line in std::io::BufReader::new(input).lines() {
        let line = line.unwrap_or_else(|e| tool_error(&e.to_string()));
        let op = parse(&line);
        let obs = if op.st("op") == "reset" {
            // dropping open writers panics, which is not of interest here
            guarded(|| machine = Box::new(Nothing));
            let dir = format!("{}/{}", scratch, count);
            count += 1;
            machine = new_machine(&op, &dir);
            kind("ok")
        } else if op.st("op") == "heapstart" {
            heap::start();
            kind("ok")
        } else if op.st("op") == "heap" {
            obj(vec![("k", s("heap")), ("mib", i(heap::used() >> 20))])
        } else {
            guarded(|| machine.step(&op)).unwrap_or_else(|| kind("panic"))
        };
        // one write per line: a crash loses nothing
        out.write_all(format!("{}\n", obs).as_bytes()).unwrap_or_else(|e| tool_error(&e.to_string()));
    }
    guarded(|| machine = Box::new(Nothing));
    std::process::exit(0);
}
