//! Observations: every result of the library as a JSON step of the same shape
//! (k kind, m marks, s strings, n numbers, x error strings), see Chars.tla.

use libyaml_safer::*;
use serde_json::{json, Value};
use std::cell::RefCell;

thread_local! {
    /// The observations of the current case.
    static STEPS: RefCell<Vec<Value>> = const { RefCell::new(Vec::new()) };
}

pub fn clear() {
    STEPS.with(|s| s.borrow_mut().clear());
}

pub fn push(v: Value) {
    STEPS.with(|s| s.borrow_mut().push(v));
}

pub fn take() -> Vec<Value> {
    STEPS.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

pub fn chars(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn opt(s: &Option<String>) -> Value {
    match s {
        Some(s) => json!([chars(s)]),
        None => json!([]),
    }
}

pub fn step(k: &str, m: Value, s: Value, n: Value) -> Value {
    json!({"k": k, "m": m, "s": s, "n": n, "x": []})
}

pub fn bare(k: &str) -> Value {
    step(k, json!([]), json!([]), json!([]))
}

pub fn marks(a: &Mark, b: &Mark) -> Value {
    json!([a.index, a.line, a.column, b.index, b.line, b.column])
}

pub fn scalar_style(s: ScalarStyle) -> i64 {
    match s {
        ScalarStyle::Any => 0,
        ScalarStyle::Plain => 1,
        ScalarStyle::SingleQuoted => 2,
        ScalarStyle::DoubleQuoted => 3,
        ScalarStyle::Literal => 4,
        ScalarStyle::Folded => 5,
        _ => 99,
    }
}

pub fn seq_style(s: SequenceStyle) -> i64 {
    match s {
        SequenceStyle::Any => 0,
        SequenceStyle::Block => 1,
        SequenceStyle::Flow => 2,
        _ => 99,
    }
}

pub fn map_style(s: MappingStyle) -> i64 {
    match s {
        MappingStyle::Any => 0,
        MappingStyle::Block => 1,
        MappingStyle::Flow => 2,
        _ => 99,
    }
}

pub fn encoding(e: Encoding) -> i64 {
    match e {
        Encoding::Any => 0,
        Encoding::Utf8 => 1,
        Encoding::Utf16Le => 2,
        Encoding::Utf16Be => 3,
        _ => 99,
    }
}

pub fn token(t: &Token) -> Value {
    let m = marks(&t.start_mark, &t.end_mark);
    let (k, s, n) = match &t.data {
        TokenData::StreamStart { encoding: e } => ("SS", json!([]), json!([encoding(*e)])),
        TokenData::StreamEnd => ("SE", json!([]), json!([])),
        TokenData::VersionDirective { major, minor } => ("VD", json!([]), json!([major, minor])),
        TokenData::TagDirective { handle, prefix } => {
            ("TD", json!([chars(handle), chars(prefix)]), json!([]))
        }
        TokenData::DocumentStart => ("DS", json!([]), json!([])),
        TokenData::DocumentEnd => ("DE", json!([]), json!([])),
        TokenData::BlockSequenceStart => ("BSS", json!([]), json!([])),
        TokenData::BlockMappingStart => ("BMS", json!([]), json!([])),
        TokenData::BlockEnd => ("BE", json!([]), json!([])),
        TokenData::FlowSequenceStart => ("FSS", json!([]), json!([])),
        TokenData::FlowSequenceEnd => ("FSE", json!([]), json!([])),
        TokenData::FlowMappingStart => ("FMS", json!([]), json!([])),
        TokenData::FlowMappingEnd => ("FME", json!([]), json!([])),
        TokenData::BlockEntry => ("BEN", json!([]), json!([])),
        TokenData::FlowEntry => ("FEN", json!([]), json!([])),
        TokenData::Key => ("KEY", json!([]), json!([])),
        TokenData::Value => ("VAL", json!([]), json!([])),
        TokenData::Alias { value } => ("ALI", json!([chars(value)]), json!([])),
        TokenData::Anchor { value } => ("ANC", json!([chars(value)]), json!([])),
        TokenData::Tag { handle, suffix } => {
            ("TAG", json!([chars(handle), chars(suffix)]), json!([]))
        }
        TokenData::Scalar { value, style } => {
            ("SC", json!([chars(value)]), json!([scalar_style(*style)]))
        }
    };
    step(k, m, s, n)
}

fn b(v: bool) -> i64 {
    v as i64
}

pub fn version(v: &Option<VersionDirective>) -> [i64; 3] {
    match v {
        Some(v) => [1, v.major as i64, v.minor as i64],
        None => [0, 0, 0],
    }
}

pub fn tags(tags: &[TagDirective]) -> Value {
    let mut s = vec![];
    for t in tags {
        s.push(chars(&t.handle));
        s.push(chars(&t.prefix));
    }
    Value::Array(s)
}

pub fn event(e: &Event) -> Value {
    let m = marks(&e.start_mark, &e.end_mark);
    let (k, s, n) = match &e.data {
        EventData::StreamStart { encoding: e } => ("SS", json!([]), json!([encoding(*e)])),
        EventData::StreamEnd => ("SE", json!([]), json!([])),
        EventData::DocumentStart {
            version_directive,
            tag_directives,
            implicit,
        } => {
            let v = version(version_directive);
            (
                "DOC",
                tags(tag_directives),
                json!([b(*implicit), v[0], v[1], v[2]]),
            )
        }
        EventData::DocumentEnd { implicit } => ("DOCE", json!([]), json!([b(*implicit)])),
        EventData::Alias { anchor } => ("ALIAS", json!([chars(anchor)]), json!([])),
        EventData::Scalar {
            anchor,
            tag,
            value,
            plain_implicit,
            quoted_implicit,
            style,
        } => (
            "SCALAR",
            json!([opt(anchor), opt(tag), chars(value)]),
            json!([b(*plain_implicit), b(*quoted_implicit), scalar_style(*style)]),
        ),
        EventData::SequenceStart {
            anchor,
            tag,
            implicit,
            style,
        } => (
            "SEQ",
            json!([opt(anchor), opt(tag)]),
            json!([b(*implicit), seq_style(*style)]),
        ),
        EventData::SequenceEnd => ("SEQE", json!([]), json!([])),
        EventData::MappingStart {
            anchor,
            tag,
            implicit,
            style,
        } => (
            "MAP",
            json!([opt(anchor), opt(tag)]),
            json!([b(*implicit), map_style(*style)]),
        ),
        EventData::MappingEnd => ("MAPE", json!([]), json!([])),
    };
    step(k, m, s, n)
}

pub fn node(n: &Node) -> Value {
    let m = marks(&n.start_mark, &n.end_mark);
    match &n.data {
        NodeData::NoNode => step("NONODE", m, json!([]), json!([])),
        NodeData::Scalar { value, style } => step(
            "NS",
            m,
            json!([opt(&n.tag), chars(value)]),
            json!([scalar_style(*style)]),
        ),
        NodeData::Sequence { items, style } => {
            let mut v = vec![json!(seq_style(*style))];
            v.extend(items.iter().map(|i| json!(i)));
            step("NQ", m, json!([opt(&n.tag)]), Value::Array(v))
        }
        NodeData::Mapping { pairs, style } => {
            let mut v = vec![json!(map_style(*style))];
            for p in pairs {
                v.push(json!(p.key));
                v.push(json!(p.value));
            }
            step("NM", m, json!([opt(&n.tag)]), Value::Array(v))
        }
    }
}

pub fn document(d: &Document) -> Vec<Value> {
    let v = version(&d.version_directive);
    let mut out = vec![step(
        "DOCUMENT",
        marks(&d.start_mark, &d.end_mark),
        tags(&d.tag_directives),
        json!([b(d.start_implicit), b(d.end_implicit), v[0], v[1], v[2], d.nodes.len()]),
    )];
    out.extend(d.nodes.iter().map(node));
    out
}

/// The text of a reader error carries what has no accessor: offset and value.
fn reader_numbers(text: &str) -> Value {
    let mut nums = vec![];
    if let Some(at) = text.rfind("(offset ") {
        let rest = text[at + 8..].trim_end_matches(')');
        for part in rest.split(", value ") {
            nums.push(part.parse::<i64>().map(|v| json!(v)).unwrap_or(json!(part)));
        }
    }
    Value::Array(nums)
}

/// The payload of an error that was injected.
fn injected(e: &std::io::Error) -> String {
    let says = e.get_ref().map(|p| p.to_string()).unwrap_or_default();
    if says == "source failed" || says == "sink failed" {
        says
    } else {
        String::new()
    }
}

fn inner(e: &Error) -> Option<&std::io::Error> {
    std::error::Error::source(e).and_then(|s| s.downcast_ref::<std::io::Error>())
}

/// How the error reads: see ErrorText.tla.
fn reading(e: Error) -> Value {
    let text = e.to_string();
    let io = inner(&e).map(|s| (s.kind(), s.to_string()));
    let mut flags = String::new();
    for (there, flag) in [
        (e.problem_mark().is_some(), 'p'),
        (e.context_mark().is_some(), 'c'),
        (e.context().is_some(), 'x'),
        (std::error::Error::source(&e).is_some(), 's'),
    ] {
        if there {
            flags.push(flag);
        }
    }
    let says = io.as_ref().map(|i| i.1.clone()).unwrap_or_default();
    let kind = e.kind();
    match std::io::Error::try_from(e) {
        Ok(i) if io == Some((i.kind(), i.to_string())) => flags.push('i'),
        Err(e) if e.kind() == kind && e.to_string() == text => flags.push('o'),
        _ => flags.push('?'),
    }
    json!([text, says, flags])
}

pub fn error(e: Error) -> Value {
    let kind = format!("{:?}", e.kind());
    let z = Mark::default();
    let (m, n, x) = match e.kind() {
        ErrorKind::Reader => (json!([]), reader_numbers(&e.to_string()), [e.problem().to_owned(), String::new()]),
        ErrorKind::Io => {
            let what = inner(&e).map(|s| [format!("{:?}", s.kind()), injected(s)]).unwrap_or_default();
            (json!([]), json!([]), what)
        }
        ErrorKind::Emitter => (json!([]), json!([]), [e.problem().to_owned(), String::new()]),
        _ => (
            marks(&e.context_mark().unwrap_or(z), &e.problem_mark().unwrap_or(z)),
            json!([]),
            [e.problem().to_owned(), e.context().unwrap_or("").to_owned()],
        ),
    };
    json!({"k": "ERR", "m": m, "s": [], "n": n, "x": [kind, x[0], x[1]], "d": reading(e)})
}
