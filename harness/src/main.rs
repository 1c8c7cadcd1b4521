//! harness run IN OUT [START]: executes the cases of IN (one JSON object per
//! line) from case START against the library and appends to OUT each case with
//! its observations under "o".

mod docs;
mod input;
mod obs;
mod output;
mod robust;
mod source;

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::Duration;

/// A case that takes longer than this hangs.
const LIMIT: Duration = Duration::from_secs(10);

fn execute(case: &Value) -> Vec<Value> {
    match case["mode"].as_str().unwrap_or("") {
        "scan" | "parse" | "load" => input::read(case),
        "history" => input::history(case),
        "emit" => output::emit(case),
        "emits" => output::emits(case),
        "round" => output::round(case),
        "docs" => docs::history(case),
        "robust" => robust::run(case),
        "reload" => docs::reload(case),
        other => panic!("unknown mode {other}"),
    }
}

fn guarded(case: &Value) -> Vec<Value> {
    obs::clear();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(case))) {
        Ok(o) => o,
        Err(_) => {
            let mut o = obs::take();
            o.push(obs::bare("PANIC"));
            o
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 || args[1] != "run" {
        eprintln!("usage: harness run IN OUT [START]");
        std::process::exit(2);
    }
    let start: usize = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    if std::env::var_os("HARNESS_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let input = BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&args[3]).unwrap();
    let mut out = BufWriter::new(out);

    let (to_worker, cases) = channel::<Value>();
    let (results, from_worker) = channel::<Vec<Value>>();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for case in cases {
                let o = guarded(&case);
                if results.send(o).is_err() {
                    return;
                }
            }
        })
        .unwrap();

    for line in input.lines().skip(start) {
        let line = line.unwrap();
        let mut case: Value = serde_json::from_str(&line).unwrap();
        to_worker.send(case.clone()).unwrap();
        let (o, stuck) = match from_worker.recv_timeout(LIMIT) {
            Ok(o) => (o, false),
            Err(RecvTimeoutError::Timeout) => (vec![obs::bare("HANG")], true),
            Err(e) => panic!("worker died: {e}"),
        };
        case["o"] = json!(o);
        serde_json::to_writer(&mut out, &case).unwrap();
        out.write_all(b"\n").unwrap();
        if stuck {
            out.flush().unwrap();
            // The driver resumes after this case.
            std::process::exit(3);
        }
    }
    out.flush().unwrap();
}
