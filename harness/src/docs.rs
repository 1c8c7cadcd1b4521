//! Documents: made, looked at, dumped and loaded.

use crate::input::{self, ints};
use crate::obs::{self, push};
use crate::output::{self, opt, text};
use libyaml_safer::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn new(n: &[i64], s: &Value) -> Document {
    let (version, tags) = output::directives(&n[2..], s.as_array().unwrap());
    Document::new(version, &tags, n[0] == 1, n[1] == 1)
}

/// The document with this header and table of nodes.
pub fn build(steps: &Value) -> Document {
    let steps = steps.as_array().unwrap();
    let mut d = new(&ints(&steps[0]["n"]), &steps[0]["s"]);
    for s in &steps[1..] {
        let tag = opt(&s["s"][0]);
        let style = ints(&s["n"])[0];
        let id = match s["k"].as_str().unwrap() {
            "NS" => d.add_scalar(tag.as_deref(), &text(&s["s"][1]), output::scalar_style(style)),
            "NQ" => d.add_sequence(tag.as_deref(), output::seq_style(style)),
            _ => d.add_mapping(tag.as_deref(), output::map_style(style)),
        };
        if tag.is_none() {
            d.get_node_mut(id).unwrap().tag = None;
        }
    }
    for (i, s) in steps[1..].iter().enumerate() {
        let refs = &ints(&s["n"])[1..];
        match s["k"].as_str().unwrap() {
            "NS" => {}
            "NQ" => refs.iter().for_each(|r| d.append_sequence_item(i as i32 + 1, *r as i32)),
            _ => refs.chunks(2).for_each(|p| d.yaml_document_append_mapping_pair(i as i32 + 1, p[0] as i32, p[1] as i32)),
        }
    }
    d
}

fn show(n: Option<&Node>) {
    push(n.map(obs::node).unwrap_or_else(|| obs::bare("NOTHING")));
}

fn id(i: i32) {
    push(obs::step("ID", json!([]), json!([]), json!([i])));
}

fn perform(ds: &mut Vec<Document>, op: &Value) {
    let n = ints(&op["n"]);
    let s = &op["s"];
    let i = op["d"].as_u64().unwrap_or(1) as usize - 1;
    let at = |k: usize| n[k] as i32;
    let ok = || push(obs::bare("OK"));
    match op["k"].as_str().unwrap() {
        "NEW" => {
            ds.push(new(&n, s));
            ok();
        }
        "LOAD" => {
            let b = input::bytes(&op["b"]);
            let mut p = Parser::new();
            let mut b = b.as_slice();
            p.set_input(&mut b);
            match Document::load(&mut p) {
                Ok(d) => {
                    obs::document(&d).into_iter().for_each(push);
                    ds.push(d);
                }
                Err(e) => push(obs::error(e)),
            }
        }
        "CLONE" => {
            let d = ds[i].clone();
            ds.push(d);
            ok();
        }
        "SC" => id(ds[i].add_scalar(opt(&s[0]).as_deref(), &text(&s[1]), output::scalar_style(n[0]))),
        "SQ" => id(ds[i].add_sequence(opt(&s[0]).as_deref(), output::seq_style(n[0]))),
        "MP" => id(ds[i].add_mapping(opt(&s[0]).as_deref(), output::map_style(n[0]))),
        "AI" => {
            ds[i].append_sequence_item(at(0), at(1));
            ok();
        }
        "AP" => {
            ds[i].yaml_document_append_mapping_pair(at(0), at(1), at(2));
            ok();
        }
        "GET" => show(ds[i].get_node(at(0))),
        "GETM" => show(ds[i].get_node_mut(at(0)).map(|n| &*n)),
        "ROOT" => show(ds[i].get_root_node().map(|n| &*n)),
        "SET" => {
            let node = if n[0] == 0 { ds[i].get_root_node() } else { ds[i].get_node_mut(at(0)) };
            match node {
                Some(node) => {
                    node.tag = opt(&s[0]);
                    node.data = NodeData::Scalar { value: text(&s[1]), style: output::scalar_style(n[1]) };
                    ok();
                }
                None => push(obs::bare("NOTHING")),
            }
        }
        "ALL" => obs::document(&ds[i]).into_iter().for_each(push),
        other => panic!("unknown operation {other}"),
    }
}

/// A history of operations on documents.
pub fn history(case: &Value) -> Vec<Value> {
    let mut ds = vec![];
    for op in case["ops"].as_array().unwrap() {
        if catch_unwind(AssertUnwindSafe(|| perform(&mut ds, op))).is_err() {
            push(obs::bare("PANIC"));
        }
    }
    obs::take()
}

fn load_all(b: &[u8]) -> std::result::Result<Vec<Document>, Error> {
    let mut b = b;
    let mut p = Parser::new();
    p.set_input(&mut b);
    let mut ds = vec![];
    loop {
        let d = Document::load(&mut p)?;
        if d.nodes.is_empty() {
            return Ok(ds);
        }
        ds.push(d);
    }
}

/// Dumps documents (built, or loaded from a text) as one stream, and loads that.
pub fn reload(case: &Value) -> Vec<Value> {
    let mut ds: Vec<Document> = case["docs"].as_array().unwrap().iter().map(build).collect();
    if !input::bytes(&case["b"]).is_empty() {
        match load_all(&input::bytes(&case["b"])) {
            Ok(d) => ds = d,
            // Not what this is about
            Err(_) => ds.clear(),
        }
    }
    for d in &ds {
        obs::document(d).into_iter().for_each(push);
    }
    push(obs::bare("DUMP"));
    let cfg = &case["cfg"];
    let mut sink = output::Sink::new(cfg);
    let tape = sink.tape.clone();
    let mut e = Emitter::new();
    output::configure(&mut e, cfg);
    e.set_output(&mut sink);
    let r = e.open().and_then(|()| ds.into_iter().try_for_each(|d| d.dump(&mut e))).and_then(|()| e.close());
    if let Err(x) = r {
        push(obs::error(x));
        return obs::take();
    }
    let text = tape.borrow().data.clone();
    push(obs::step("TEXT", json!([]), json!(text), json!([])));
    match load_all(&text) {
        Ok(ds) => ds.iter().for_each(|d| obs::document(d).into_iter().for_each(push)),
        Err(e) => push(obs::error(e)),
    }
    obs::take()
}
