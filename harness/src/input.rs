//! Scanning, parsing and loading.

use crate::obs::{self, push};
use crate::source::{failure, Source};
use libyaml_safer::*;
use serde_json::Value;
use std::io::BufRead;

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|b| b.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|b| b.as_i64().unwrap()).collect()).unwrap_or_default()
}

pub fn enc(v: &Value) -> Encoding {
    match v.as_i64().unwrap_or(0) {
        1 => Encoding::Utf8,
        2 => Encoding::Utf16Le,
        3 => Encoding::Utf16Be,
        _ => Encoding::Any,
    }
}

pub fn source(case: &Value) -> Source {
    let b = bytes(&case["b"]);
    let cut = case["cut"].as_i64().unwrap_or(-1);
    let ch = ints(&case["ch"]);
    if cut >= 0 {
        Source::new(b[..cut as usize].to_vec(), ch, Some(failure(case["ek"].as_str().unwrap_or(""))))
    } else {
        Source::new(b, ch, None)
    }
}

/// More steps than any input of this size can call for.
fn cap(case: &Value) -> usize {
    case["b"].as_array().map_or(0, |a| a.len()) * 8 + 64
}

/// An object that reads, and that can be reset and used again.
pub trait Reading {
    fn begin(&mut self, case: &Value);
    fn reset(&mut self);
    /// One operation; whether it reported the end or an error.
    fn operate(&mut self, op: &str) -> bool;
}

/// The ways there are to set something up take turns.
fn turn(case: &Value) -> u64 {
    case["id"].as_u64().unwrap_or(0) % 4
}

/// How input is given: as a source of bytes, or as a string.
trait Given: BufRead + Sized {
    fn to_scanner(s: &mut Scanner<Self>, case: &Value);
    fn to_parser(p: &mut Parser<Self>, case: &Value);
}

impl Given for Source {
    fn to_scanner(s: &mut Scanner<Self>, case: &Value) {
        s.set_input(source(case))
    }
    fn to_parser(p: &mut Parser<Self>, case: &Value) {
        p.set_input(source(case))
    }
}

type Bytes = &'static mut &'static [u8];

fn leaked(case: &Value) -> Bytes {
    Box::leak(Box::new(&*Vec::leak(bytes(&case["b"]))))
}

impl Given for Bytes {
    fn to_scanner(s: &mut Scanner<Self>, case: &Value) {
        s.set_input_string(leaked(case))
    }
    fn to_parser(p: &mut Parser<Self>, case: &Value) {
        p.set_input_string(leaked(case))
    }
}

fn delivered<T>(r: Result<T>, show: impl Fn(&T) -> (Value, bool)) -> bool {
    match r {
        Ok(t) => {
            let (v, end) = show(&t);
            push(v);
            end
        }
        Err(e) => {
            push(obs::error(e));
            true
        }
    }
}

fn show_token(t: &Token) -> (Value, bool) {
    (obs::token(t), matches!(t.data, TokenData::StreamEnd))
}

fn show_event(e: &Event) -> (Value, bool) {
    (obs::event(e), matches!(e.data, EventData::StreamEnd))
}

fn nothing() -> bool {
    push(obs::bare("NOTHING"));
    true
}

impl<R: Given> Reading for Scanner<R> {
    fn begin(&mut self, case: &Value) {
        let e = enc(&case["enc"]);
        let first = turn(case) / 2 == 1;
        if first && e != Encoding::Any {
            self.set_encoding(e);
        }
        R::to_scanner(self, case);
        if !first && e != Encoding::Any {
            self.set_encoding(e);
        }
    }
    fn reset(&mut self) {
        Scanner::reset(self)
    }
    fn operate(&mut self, op: &str) -> bool {
        match op {
            "n" => match self.next() {
                Some(r) => delivered(r, show_token),
                None => nothing(),
            },
            _ => delivered(Scanner::scan(self), show_token),
        }
    }
}

impl<R: Given> Reading for Parser<R> {
    fn begin(&mut self, case: &Value) {
        let e = enc(&case["enc"]);
        let first = turn(case) / 2 == 1;
        if first && e != Encoding::Any {
            self.set_encoding(e);
        }
        R::to_parser(self, case);
        if !first && e != Encoding::Any {
            self.set_encoding(e);
        }
    }
    fn reset(&mut self) {
        Parser::reset(self)
    }
    fn operate(&mut self, op: &str) -> bool {
        match op {
            "n" => match self.next() {
                Some(r) => delivered(r, show_event),
                None => nothing(),
            },
            "l" => match Document::load(self) {
                Ok(d) => {
                    obs::document(&d).into_iter().for_each(push);
                    d.nodes.is_empty()
                }
                Err(e) => {
                    push(obs::error(e));
                    true
                }
            },
            _ => delivered(self.parse(), show_event),
        }
    }
}

/// The operations of a session, or, if it has none, those it takes to reach the end.
fn drive(r: &mut dyn Reading, case: &Value) {
    r.begin(case);
    let none = vec![];
    let ops = case["ops"].as_array().unwrap_or(&none);
    if !ops.is_empty() {
        for op in ops {
            r.operate(op.as_str().unwrap());
        }
        return;
    }
    let op = if case["mode"] == "load" { "l" } else { "s" };
    for _ in 0..cap(case) {
        if r.operate(op) {
            return;
        }
    }
    push(obs::bare("RUNAWAY"));
}

fn reader(mode: &Value, turn: u64) -> Box<dyn Reading> {
    match (mode == "scan", turn) {
        (true, 0) => Box::new(Scanner::<Source>::default()),
        (true, _) => Box::new(Scanner::<Source>::new()),
        (false, 0) => Box::new(Parser::<Source>::default()),
        (false, _) => Box::new(Parser::<Source>::new()),
    }
}

fn string_reader(mode: &Value, turn: u64) -> Box<dyn Reading> {
    match (mode == "scan", turn) {
        (true, 1) => Box::new(Scanner::<Bytes>::default()),
        (true, _) => Box::new(Scanner::<Bytes>::new()),
        (false, 1) => Box::new(Parser::<Bytes>::default()),
        (false, _) => Box::new(Parser::<Bytes>::new()),
    }
}

pub fn read(case: &Value) -> Vec<Value> {
    let plain = case["cut"].as_i64().unwrap_or(-1) < 0 && ints(&case["ch"]).is_empty();
    let t = turn(case);
    let mut r = if plain && t % 2 == 1 { string_reader(&case["mode"], t) } else { reader(&case["mode"], t) };
    drive(&mut *r, case);
    obs::take()
}

/// Sessions of one object, with a reset between them; a list of observations for each.
pub fn history(case: &Value) -> Vec<Value> {
    let sessions = case["sessions"].as_array().unwrap();
    let mut r = reader(&sessions[0]["mode"], turn(case));
    let mut all = vec![];
    for (i, s) in sessions.iter().enumerate() {
        if i > 0 {
            r.reset();
        }
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(&mut *r, s))).is_ok();
        let mut o = obs::take();
        if !ok {
            o.push(obs::bare("PANIC"));
        }
        all.push(Value::Array(o));
        if !ok {
            break;
        }
    }
    all
}
