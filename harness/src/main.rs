//! Adapter between the TLA+ specification and the real library.
//!
//! Executes JSONL scripts of public API calls and writes down what every call returned. It judges
//! nothing: the specification (TLC) decides which observations are allowed.
mod alloc;
mod io_fakes;
mod ops;
mod project;

use serde_json::{json, Value};
use std::{
    fs::File,
    io::{BufRead, BufReader, BufWriter, Write},
};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (input, output, skip) = (&args[1], &args[2], args[3].parse::<usize>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let reader = BufReader::with_capacity(1 << 20, File::open(input).unwrap());
    let mut out = BufWriter::new(
        std::fs::OpenOptions::new().create(true).append(true).open(output).unwrap(),
    );
    for line in reader.lines().skip(skip) {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let res = ops::run_case(&case);
        serde_json::to_writer(&mut out, &json!({"id": case["id"], "out": res})).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
