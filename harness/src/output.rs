//! Emitting: events into a sink that is watched, and that may fail.

use crate::docs;
use crate::input::ints;
use crate::obs::{self, push};
use crate::source::failure;
use libyaml_safer::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

#[derive(Default)]
pub struct Tape {
    pub data: Vec<u8>,
    pub seen: usize,
    pub failures: i64,
}

impl Tape {
    /// What has arrived since the last call, and how often writing failed.
    pub fn news(&mut self) -> (Value, i64) {
        let v = json!(self.data[self.seen..].to_vec());
        self.seen = self.data.len();
        (v, std::mem::take(&mut self.failures))
    }
}

pub struct Sink {
    pub tape: Rc<RefCell<Tape>>,
    /// Bytes accepted before every write fails; negative: no limit.
    lim: i64,
    /// Most bytes accepted by one write; 0: no limit.
    short: i64,
    /// Every so many writes are interrupted; 0: none.
    intr: i64,
    /// The write calls that fail.
    failat: Vec<i64>,
    kind: io::ErrorKind,
    calls: i64,
    interrupted: bool,
}

impl Sink {
    pub fn new(cfg: &Value) -> Sink {
        Sink {
            tape: Default::default(),
            lim: cfg["lim"].as_i64().unwrap_or(-1),
            short: cfg["short"].as_i64().unwrap_or(0),
            intr: cfg["intr"].as_i64().unwrap_or(0),
            failat: ints(&cfg["failat"]),
            kind: failure(cfg["ek"].as_str().unwrap_or("")),
            calls: 0,
            interrupted: false,
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.intr > 0 && !self.interrupted && self.calls % self.intr == 0 {
            self.interrupted = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        self.calls += 1;
        let mut tape = self.tape.borrow_mut();
        if self.failat.contains(&self.calls) {
            tape.failures += 1;
            return Err(io::Error::new(self.kind, "sink failed"));
        }
        let mut n = buf.len();
        if self.short > 0 {
            n = n.min(self.short as usize);
        }
        if self.lim >= 0 {
            let room = (self.lim as usize).saturating_sub(tape.data.len());
            if room == 0 && n > 0 {
                tape.failures += 1;
                return Err(io::Error::new(self.kind, "sink failed"));
            }
            n = n.min(room);
        }
        tape.data.extend(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn text(v: &Value) -> String {
    v.as_array()
        .map(|a| a.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect())
        .unwrap_or_default()
}

pub fn opt(v: &Value) -> Option<String> {
    v.as_array().and_then(|a| a.first()).map(text)
}

pub fn encoding(v: i64) -> Encoding {
    match v {
        1 => Encoding::Utf8,
        2 => Encoding::Utf16Le,
        3 => Encoding::Utf16Be,
        _ => Encoding::Any,
    }
}

pub fn scalar_style(v: i64) -> ScalarStyle {
    match v {
        1 => ScalarStyle::Plain,
        2 => ScalarStyle::SingleQuoted,
        3 => ScalarStyle::DoubleQuoted,
        4 => ScalarStyle::Literal,
        5 => ScalarStyle::Folded,
        _ => ScalarStyle::Any,
    }
}

pub fn seq_style(v: i64) -> SequenceStyle {
    match v {
        1 => SequenceStyle::Block,
        2 => SequenceStyle::Flow,
        _ => SequenceStyle::Any,
    }
}

pub fn map_style(v: i64) -> MappingStyle {
    match v {
        1 => MappingStyle::Block,
        2 => MappingStyle::Flow,
        _ => MappingStyle::Any,
    }
}

/// Directives cannot be constructed, only parsed; their fields can be changed.
pub fn directives(n: &[i64], s: &[Value]) -> (Option<VersionDirective>, Vec<TagDirective>) {
    let mut bytes: &[u8] = b"%YAML 1.1\n%TAG ! x\n---\n";
    let mut p = Parser::new();
    p.set_input_string(&mut bytes);
    p.parse().expect("stream start");
    let (version, tag) = match p.parse().expect("document start").data {
        EventData::DocumentStart {
            version_directive: Some(v),
            mut tag_directives,
            ..
        } => (v, tag_directives.remove(0)),
        _ => unreachable!(),
    };
    let mut v = None;
    if n[0] == 1 {
        let mut d = version;
        d.major = n[1] as i32;
        d.minor = n[2] as i32;
        v = Some(d);
    }
    let mut tags = vec![];
    for pair in s.chunks(2) {
        let mut t = tag.clone();
        t.handle = text(&pair[0]);
        t.prefix = text(&pair[1]);
        tags.push(t);
    }
    (v, tags)
}

pub fn event(op: &Value) -> Event {
    let n = ints(&op["n"]);
    let empty = vec![];
    let s = op["s"].as_array().unwrap_or(&empty);
    match op["k"].as_str().unwrap() {
        "SS" => Event::stream_start(encoding(n[0])),
        "SE" => Event::stream_end(),
        "DOC" => {
            let (v, tags) = directives(&n[1..], s);
            Event::document_start(v, &tags, n[0] == 1)
        }
        "DOCE" => Event::document_end(n[0] == 1),
        "ALIAS" => Event::alias(&text(&s[0])),
        "SCALAR" => Event::scalar(
            opt(&s[0]).as_deref(),
            opt(&s[1]).as_deref(),
            &text(&s[2]),
            n[0] == 1,
            n[1] == 1,
            scalar_style(n[2]),
        ),
        "SEQ" => Event::sequence_start(opt(&s[0]).as_deref(), opt(&s[1]).as_deref(), n[0] == 1, seq_style(n[1])),
        "MAP" => Event::mapping_start(opt(&s[0]).as_deref(), opt(&s[1]).as_deref(), n[0] == 1, map_style(n[1])),
        "SEQE" => Event::sequence_end(),
        "MAPE" => Event::mapping_end(),
        other => panic!("unknown event {other}"),
    }
}

pub const UNSET: i64 = -99;

pub fn configure(e: &mut Emitter, cfg: &Value) {
    let get = |k: &str| cfg[k].as_i64().unwrap_or(0);
    if get("can") == 1 {
        e.set_canonical(true);
    }
    if get("ind") != UNSET {
        e.set_indent(get("ind") as i32);
    }
    if get("wid") != UNSET {
        e.set_width(get("wid") as i32);
    }
    if get("uni") == 1 {
        e.set_unicode(true);
    }
    match get("br") {
        1 => e.set_break(Break::Cr),
        2 => e.set_break(Break::Ln),
        3 => e.set_break(Break::CrLn),
        _ => {}
    }
    if get("enc") != 0 {
        e.set_encoding(encoding(get("enc")));
    }
}

/// Changes one setting, at any time.
fn set(e: &mut Emitter, n: &[i64]) {
    match n[0] {
        1 => e.set_canonical(n[1] == 1),
        2 => e.set_indent(n[1] as i32),
        3 => e.set_width(n[1] as i32),
        4 => e.set_unicode(n[1] == 1),
        _ => e.set_break(match n[1] {
            1 => Break::Cr,
            2 => Break::Ln,
            3 => Break::CrLn,
            _ => Break::Any,
        }),
    }
}

fn perform(e: &mut Emitter, op: &Value) -> Result<()> {
    match op["k"].as_str().unwrap() {
        "FLUSH" => e.flush(),
        "OPEN" => e.open(),
        "CLOSE" => e.close(),
        "SET" => {
            set(e, &ints(&op["n"]));
            Ok(())
        }
        "DUMP" => docs::build(&op["doc"]).dump(e),
        _ => e.emit(event(op)),
    }
}

fn result(r: Result<()>, news: (Value, i64)) -> Value {
    let mut v = match r {
        Ok(()) => obs::bare("OK"),
        Err(e) => obs::error(e),
    };
    v["s"] = news.0;
    v["n"] = json!([news.1]);
    v
}

/// Performs the operations of one session up to its first error; whether there was none.
/// Performs operations whatever comes of them.
fn anything(e: &mut Emitter, case: &Value, mut news: impl FnMut() -> (Value, i64)) -> bool {
    // Opening what is open, and closing what is not, is not allowed
    let mut opened = Some(false);
    for op in case["ops"].as_array().unwrap() {
        let k = op["k"].as_str().unwrap();
        if (k == "OPEN" && opened != Some(false)) || (k == "CLOSE" && opened != Some(true)) {
            push(obs::bare("SKIP"));
            continue;
        }
        let r = perform(e, op);
        match (k, r.is_ok()) {
            ("OPEN" | "DUMP", true) => opened = Some(true),
            ("DUMP", false) if opened == Some(false) => opened = None,
            _ => {}
        }
        let mut v = result(r, news());
        v["s"] = json!([]);
        push(v);
    }
    true
}

fn session(e: &mut Emitter, case: &Value, mut news: impl FnMut() -> (Value, i64)) -> bool {
    if case["cfg"]["wild"].as_i64() == Some(1) {
        return anything(e, case, news);
    }
    for op in case["ops"].as_array().unwrap() {
        let r = perform(e, op);
        let stop = r.as_ref().is_err_and(|x| x.kind() != ErrorKind::Io || op["k"] != "FLUSH");
        push(result(r, news()));
        if stop {
            return false;
        }
    }
    true
}

/// Sessions of one emitter, with a reset between them; a list of observations for each.
fn sessions(all: &[Value]) -> Vec<Value> {
    let mut sinks: Vec<Sink> = all.iter().map(|s| Sink::new(&s["cfg"])).collect();
    let tapes: Vec<_> = sinks.iter().map(|s| s.tape.clone()).collect();
    let mut strings: Vec<Vec<u8>> = all.iter().map(|_| b"left over".to_vec()).collect();
    let mut seen: Vec<(Vec<Value>, bool)> = vec![];
    {
        let mut e = if all.len() % 2 == 0 || all[0]["id"].as_u64().unwrap_or(0) % 2 == 1 { Emitter::default() } else { Emitter::new() };
        for (((i, s), sink), string) in all.iter().enumerate().zip(sinks.iter_mut()).zip(strings.iter_mut()) {
            if i > 0 {
                e.reset();
            }
            let str = s["cfg"]["str"].as_i64() == Some(1);
            configure(&mut e, &s["cfg"]);
            if str {
                e.set_output_string(string);
            } else {
                e.set_output(sink);
            }
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if str {
                    session(&mut e, s, || (json!([]), 0))
                } else {
                    session(&mut e, s, || tapes[i].borrow_mut().news())
                }
            }));
            let mut o = obs::take();
            if ok.is_err() {
                o.push(obs::bare("PANIC"));
            }
            seen.push((o, str && matches!(ok, Ok(true))));
            if ok.is_err() {
                break;
            }
        }
    }
    seen.into_iter()
        .zip(strings)
        .map(|((mut o, whole), out)| {
            if whole {
                o.push(obs::step("OUT", json!([]), json!(out), json!([])));
            }
            Value::Array(o)
        })
        .collect()
}

pub fn emit(case: &Value) -> Vec<Value> {
    match sessions(std::slice::from_ref(case)).pop() {
        Some(Value::Array(o)) => o,
        _ => vec![],
    }
}

pub fn emits(case: &Value) -> Vec<Value> {
    sessions(case["sessions"].as_array().unwrap())
}

/// Emits the events and parses the text.
pub fn round(case: &Value) -> Vec<Value> {
    let cfg = &case["cfg"];
    let mut sink = Sink::new(cfg);
    let tape = sink.tape.clone();
    {
        let mut e = Emitter::new();
        configure(&mut e, cfg);
        e.set_output(&mut sink);
        for op in case["ops"].as_array().unwrap() {
            if let Err(x) = perform(&mut e, op) {
                push(obs::error(x));
                return obs::take();
            }
        }
    }
    let text = tape.borrow().data.clone();
    let limit = text.len() * 8 + 64;
    let mut input = text.as_slice();
    push(obs::step("TEXT", json!([]), json!(text), json!([])));
    let mut p = Parser::new();
    p.set_input(&mut input);
    for _ in 0..limit {
        match p.parse() {
            Ok(e) => {
                push(obs::event(&e));
                if let EventData::StreamEnd = e.data {
                    return obs::take();
                }
            }
            Err(e) => {
                push(obs::error(e));
                return obs::take();
            }
        }
    }
    push(obs::bare("RUNAWAY"));
    obs::take()
}
