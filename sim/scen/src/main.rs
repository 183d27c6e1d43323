//! Simulation scenarios for the libraries of logjuicer-rust.
mod cache;
mod cli;
mod conc;
mod crawl;
mod dataset;
mod gen;
mod lines;
mod memory;
mod proc;
mod remote;
mod report;
mod robust;
mod save;
mod show;
mod tree;
mod web;
mod wire;
mod zuul;

use simcore::*;

#[global_allocator]
static METER: Meter = Meter;

fn prewarm() {
    // compile the tokenizer's regular expressions once, before any simulated process is forked
    let _ = logreduce_tokenizer::process("prewarm 2022-01-01 10:00:00 | some words 1234 here");
}

static PROPS: &[Property] = &[lines::C01, lines::C02, proc::C03, proc::C04, report::C05, report::C06, save::C07, cli::C08, crawl::C09, crawl::C10, cache::C11, cache::C12, zuul::C13, remote::C14, robust::C15, show::C16, dataset::C17, cache::C18, memory::C19, conc::C20];

fn main() {
    simcore::main(PROPS, prewarm)
}
