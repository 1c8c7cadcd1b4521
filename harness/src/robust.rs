//! Arbitrary input and arbitrary calls: only classes of results are reported.

use crate::input::Reading;
use crate::obs;
use crate::source::Source;
use libyaml_safer::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs of results of the same class: how many, of how many parts.
#[derive(Default)]
struct Runs(Vec<(&'static str, usize, usize)>);

impl Runs {
    fn add(&mut self, class: &'static str, parts: usize) {
        match self.0.last_mut() {
            Some(last) if last.0 == class => {
                last.1 += 1;
                last.2 += parts;
            }
            _ => self.0.push((class, 1, parts)),
        }
    }

    fn steps(self) -> Vec<Value> {
        self.0.into_iter().map(|(k, n, p)| obs::step(k, json!([]), json!([]), json!([n, p]))).collect()
    }
}

enum Object {
    Scanner(Scanner<Source>),
    Parser(Parser<Source>),
}

fn token(r: Result<Token>) -> (&'static str, usize) {
    match r {
        Ok(t) if matches!(t.data, TokenData::StreamEnd) => ("Z", 1),
        Ok(_) => ("T", 1),
        Err(_) => ("E", 1),
    }
}

fn event(r: Result<Event>) -> (&'static str, usize) {
    match r {
        Ok(e) if matches!(e.data, EventData::StreamEnd) => ("Z", 1),
        Ok(_) => ("T", 1),
        Err(_) => ("E", 1),
    }
}

fn document(r: &Result<Document>) -> (&'static str, usize) {
    match r {
        Ok(d) if d.nodes.is_empty() => ("Z", 1),
        Ok(d) => ("T", d.nodes.len()),
        Err(_) => ("E", 1),
    }
}

fn operate(o: &mut Object, op: &str, emitter: &mut Emitter, runs: &mut Runs) -> &'static str {
    let (class, parts) = match (o, op) {
        (Object::Scanner(s), "n") => s.next().map_or(("N", 0), token),
        (Object::Scanner(s), _) => token(Scanner::scan(s)),
        (Object::Parser(p), "n") => p.next().map_or(("N", 0), event),
        (Object::Parser(p), "l") => document(&Document::load(p)),
        (Object::Parser(p), "d") => {
            let d = Document::load(p);
            let c = document(&d);
            runs.add(c.0, c.1);
            if let Ok(d) = d {
                runs.add(if d.dump(emitter).is_ok() { "D" } else { "F" }, 1);
            }
            return c.0;
        }
        (Object::Parser(p), _) => event(p.parse()),
    };
    runs.add(class, parts);
    class
}

fn session(o: &mut Object, case: &Value, runs: &mut Runs) {
    match o {
        Object::Scanner(s) => s.begin(case),
        Object::Parser(p) => p.begin(case),
    }
    let mut text = Vec::new();
    let mut emitter = Emitter::new();
    emitter.set_output(&mut text);
    let cap = case["b"].as_array().map_or(0, |a| a.len()) * 8 + 64;
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let count = op[1].as_i64().unwrap();
        if count >= 0 {
            (0..count).for_each(|_| {
                operate(o, name, &mut emitter, runs);
            });
        } else {
            // To the end
            let over = (0..cap).any(|_| matches!(operate(o, name, &mut emitter, runs), "Z" | "E" | "N"));
            if !over {
                runs.add("RUNAWAY", 0);
            }
        }
    }
}

pub fn run(case: &Value) -> Vec<Value> {
    let sessions = case["sessions"].as_array().unwrap();
    let mut o = if sessions[0]["mode"] == "scan" { Object::Scanner(Scanner::new()) } else { Object::Parser(Parser::new()) };
    let mut all = vec![];
    for (i, s) in sessions.iter().enumerate() {
        if i > 0 {
            match &mut o {
                Object::Scanner(s) => s.reset(),
                Object::Parser(p) => p.reset(),
            }
        }
        let mut runs = Runs::default();
        let ok = catch_unwind(AssertUnwindSafe(|| session(&mut o, s, &mut runs))).is_ok();
        if !ok {
            runs.add("PANIC", 0);
        }
        all.push(Value::Array(runs.steps()));
        if !ok {
            break;
        }
    }
    all
}
