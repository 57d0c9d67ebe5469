//! Known findings (listed in /verif/known-findings.txt) and texts for the evidence.

use crate::props::{self, Stats};
use crate::sys;

pub const ASSUMPTIONS: &[&str] = &[
    "the reference decoder and validator in sim/world agree with the WebAssembly 1.0 specification",
    "streams nested deeper than 1200 blocks (20000 for C18 and C20) or declaring more than 100000 locals are outside the explored space; those nested deeper than 100 are given a 256 MB stack and are not printed",
    "scheduling points are byte requests, allocations and validated instructions; preemption between two of them is not explored",
    "x86-64 Linux, one build configuration",
];

pub fn rule(prop: &str) -> (&'static str, &'static str) {
    match prop {
        "C02" => ("stream from a seeded producer (valid, rule-breaking or damaged in transit); non-trivial: it decodes, so validation is reached; distinct by content", "instruction kinds met in valid and in invalid functions plus distinct reasons of rejection"),
        "C03" => ("every cut position of each image up to 1000 bytes (250 sampled cuts beyond that); non-trivial: the prefix is accepted or gets beyond the preamble; distinct by content", "distinct (element kind, section, instruction, first defect)"),
        "C04" => ("sequence of elements on one stream whose peer falls silent after the last needed byte; all non-trivial; distinct by content and number of elements", "distinct (element kind, ends in a defect)"),
        "C05" => ("stream x delivery; non-trivial: beyond the preamble; distinct by content and delivery", "distinct (element kind, section, instruction, first defect)"),
        "C06" => ("set of streams, tasks and a schedule; non-trivial: at least one switch between two unfinished or finishing threads; distinct by streams and interleaving", "distinct interleavings: hash of the sequence of (step number, thread switched to)"),
        "C07" => ("stream x way the work ends; non-trivial: beyond the preamble; distinct by content", "distinct (element kind, section, instruction, first defect)"),
        "C08" => ("stream with forged lengths; non-trivial: beyond the preamble; distinct by content", "distinct (element kind, magnitude of peak memory) and (element kind, section, instruction, first defect)"),
        "C10" => ("file content x naming x results of system calls; non-trivial: the program reached the file or met a fault; distinct by all of them", "distinct (kind of target, fault kinds that fired, verdict)"),
        "C11" => ("file content x results of write calls; non-trivial: a dump was attempted; distinct by content and results", "distinct (fault kinds that fired, position class, verdict)"),
        "C13" => ("module rich in imports and exports; non-trivial: valid with a non-empty interface; distinct by content", "distinct (kind of export, number of imports, position of export)"),
        "C16" => ("stream x byte at which the source fails hard (every byte of streams up to 150 bytes, 60 sampled ones beyond); non-trivial: the failure fired inside the decoding; distinct by content and position", "distinct (element kind, would have decoded)"),
        "C17" => ("file content x naming x surroundings x results of system calls; all non-trivial; distinct by all of them", "distinct (kind of target, fault kinds that fired, verdict)"),
        "C18" => ("module, often with tall operand stacks, deep blocks, wide types, many locals or huge declared limits; non-trivial: it decodes; distinct by content", "distinct (magnitude of peak memory, magnitude of the module, nesting)"),
        "C19" => ("pair of copies of a module or of a smaller element; non-trivial: both decode; distinct by both contents", "distinct (same, position of the first difference)"),
        "C20" => ("module of 5 kB to 2 MB made of very many things of one or two kinds, often damaged; non-trivial: all; distinct by content", "distinct (step, magnitude of allocated volume, magnitude of work warranted)"),
        "C21" => ("file content x naming x surroundings x results of system calls, executed twice; all non-trivial; distinct by all of them", "distinct (kind of target, fault kinds that fired, verdict)"),
        "C22" => ("file content x naming x results of system calls; all non-trivial; distinct by all of them", "distinct (kind of target, fault kinds that fired, verdict)"),
        "C23" => ("stream, often very long or deeply nested; non-trivial: accepted, or rejected beyond the preamble; distinct by content", "distinct (element kind, step, stack used in KiB)"),
        "C24" => ("set of modules, the threads that decode, use and drop them, and a schedule; all non-trivial; distinct by streams and interleaving", "distinct (consecutive pieces of work, number of switches)"),
        "C25" => ("arguments x file content x results of system calls; all non-trivial; distinct by all of them", "distinct (kind of target, fault kinds that fired, verdict)"),
        _ => ("stream as it arrives after faults; non-trivial: accepted, or rejected beyond the preamble; distinct by content", "distinct (element kind, section, instruction, first defect)"),
    }
}

fn nested(n: usize) -> Vec<u8> {
    let mut body = vec![0u8];
    for _ in 0..n { body.extend([0x02, 0x40]); }
    body.extend(std::iter::repeat(0x0B).take(n + 1));
    one_function(body)
}

fn many_locals(n: u32) -> Vec<u8> {
    let mut body = vec![1u8];
    body.extend(leb(n as u64));
    body.extend([0x7F, 0x0B]);
    one_function(body)
}

fn leb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 { o.push(b); return o; }
        o.push(b | 0x80);
    }
}

fn one_function(body: Vec<u8>) -> Vec<u8> {
    let mut v = b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\0".to_vec();
    let mut code = vec![1u8];
    code.extend(leb(body.len() as u64));
    code.extend(body);
    v.push(10);
    v.extend(leb(code.len() as u64));
    v.extend(code);
    v
}

/// Does the named input still show the finding?
fn shows(input: &str) -> bool {
    let run = |f: fn() -> props::Fail| {
        let (out, end) = sys::isolated(60, || {
            crate::runner::silence();
            match crate::runner::on_stack(crate::runner::USUAL, || f()) { Some(m) => m.into_bytes(), None => b"OK".to_vec() }
        });
        !(matches!(end, sys::Ended::Exit(0)) && out == b"OK")
    };
    match input {
        "blocks-nested-100000" => run(|| props::c09_stream(0, &nested(100_000), false, &mut Stats::default())),
        "locals-16777216-in-one-run" => run(|| props::c08_stream(0, &many_locals(1 << 24), 0, &mut Stats::default())),
        "print-to-unwritable-descriptor" => crate::cli::ebadf_claims_success(),
        _ => false,
    }
}

/// Prints a line for each listed finding of the property that still shows.
pub fn demonstrate(prop: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", super::root())).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let mut w = line.splitn(4, ' ');
        if w.next() != Some("known:") || w.next() != Some(&format!("property={}", prop)) { continue; }
        let input = w.next().unwrap_or("").trim_start_matches("input=");
        let what = w.next().unwrap_or("");
        if shows(input) {
            println!("KNOWN-FINDING: property={} {} (input {})", prop, what, input);
            out.push(format!("{}: {}", input, what));
        }
    }
    out
}
