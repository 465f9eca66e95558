//! The recorder: reads one case per line, runs the real library on it and writes one event per
//! line (the case and everything observed). It never judges: that is done by the specification.
//!
//! harness CASES EVENTS FROM   - cases FROM.. of the file CASES, appended to EVENTS
//! A case that runs longer than LIMIT ends the process with status 3 (the caller skips it).
mod dynser;
mod node;

use dynser::{canonical, Ty, Val};
use node::*;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use yaml_subset::yaml::deserializer::{from_yaml, from_yaml_str};
use yaml_subset::yaml::serializer::YamlSerializer;
use yaml_subset::yaml::*;
use yaml_subset::YamlPath;

const LIMIT: Duration = Duration::from_secs(20);

// ------------------------------------------------------------- observations

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn none() -> Node {
    nd("none", "", vec![])
}

fn split(s: &str) -> Vec<&str> {
    s.split('\n').collect()
}

fn bad(st: &str) -> Value {
    json!({"st": st, "n": none(), "line": 0, "col": 0, "msg": false})
}

fn parse_text(text: &str) -> (Value, Option<Document>) {
    match guard(|| parse_yaml_file(text)) {
        None => (bad("panic"), None),
        Some(Err(e)) => match guard(|| (e.location(), e.to_string())) {
            None => (bad("panic"), None),
            Some(((line, col), msg)) => {
                (json!({"st": "err", "n": none(), "line": line, "col": col, "msg": !msg.is_empty()}), None)
            }
        },
        Some(Ok(d)) => (json!({"st": "ok", "n": from_doc(&d), "line": 0, "col": 0, "msg": false}), Some(d)),
    }
}

fn format_doc(d: &Document) -> (Value, Option<String>) {
    match guard(|| d.format()) {
        None => (json!({"st": "panic", "lines": []}), None),
        Some(Err(_)) => (json!({"st": "err", "lines": []}), None),
        Some(Ok(s)) => (json!({"st": "ok", "lines": split(&s)}), Some(s)),
    }
}

/// Format, read back, format again.
fn round_trip(d: &Document) -> Value {
    let (fmt, text) = format_doc(d);
    let (re, d2) = text.map_or((bad("no"), None), |t| parse_text(&t));
    let (fmt2, _) = d2.as_ref().map_or((json!({"st": "no", "lines": []}), None), format_doc);
    json!({"fmt": fmt, "re": re, "fmt2": fmt2})
}

fn as_document(n: &Node) -> Document {
    if n.t == "doc" {
        to_doc(n)
    } else {
        Document { leading_comments: vec![], items: vec![DocumentData::Yaml(to_yaml(n))] }
    }
}

fn root(d: &Document) -> Option<Yaml> {
    d.items.iter().find_map(|i| match i {
        DocumentData::Yaml(y) => Some(y.clone()),
        _ => None,
    })
}

// -------------------------------------------------------------------- paths

#[derive(Serialize, Deserialize, Clone)]
struct Cond {
    f: String,
    v: String,
}
#[derive(Serialize, Deserialize, Clone)]
struct Seg {
    t: String,
    k: String,
    ns: Vec<String>,
    cs: Vec<Cond>,
}

/// The path made of the given parts, without going through the text of a path.
fn to_path(segs: &[Seg]) -> YamlPath {
    macro_rules! conditions {
        ($cs:expr) => {{
            let mut out = match "|f=v".parse::<YamlPath>() {
                Ok(YamlPath::Root(cs)) => cs,
                _ => panic!("case: conditions"),
            };
            let one = out.pop().expect("case: condition");
            for c in $cs {
                let mut x = one.clone();
                x.field = c.f.clone();
                x.value = c.v.clone();
                out.push(x);
            }
            out
        }};
    }
    let s = &segs[0];
    let rest = if segs.len() > 1 { Some(Box::new(to_path(&segs[1..]))) } else { None };
    match s.t.as_str() {
        "root" => YamlPath::Root(conditions!(&s.cs)),
        "key" => YamlPath::Key(s.k.clone(), conditions!(&s.cs), rest),
        "all" => YamlPath::AllIndexes(conditions!(&s.cs), rest),
        _ => YamlPath::Indexes(s.ns.iter().map(|n| n.parse().expect("case: index")).collect(), conditions!(&s.cs), rest),
    }
}

fn from_path(p: &YamlPath) -> Vec<Seg> {
    macro_rules! conds {
        ($cs:expr) => {
            $cs.iter().map(|c| Cond { f: c.field.clone(), v: c.value.clone() }).collect()
        };
    }
    let seg = |t: &str, k: &str, ns: Vec<String>, cs: Vec<Cond>| Seg { t: t.into(), k: k.into(), ns, cs };
    let (s, rest) = match p {
        YamlPath::Root(cs) => (seg("root", "", vec![], conds!(cs)), &None),
        YamlPath::Key(k, cs, r) => (seg("key", k, vec![], conds!(cs)), r),
        YamlPath::AllIndexes(cs, r) => (seg("all", "", vec![], conds!(cs)), r),
        YamlPath::Indexes(ns, cs, r) => (seg("idx", "", ns.iter().map(|n| n.to_string()).collect(), conds!(cs)), r),
    };
    let mut out = vec![s];
    if let Some(r) = rest {
        out.extend(from_path(r));
    }
    out
}

fn parse_path(text: &str) -> (Value, Option<YamlPath>) {
    match guard(|| text.parse::<YamlPath>().ok()) {
        None => (json!({"st": "panic", "path": []}), None),
        Some(None) => (json!({"st": "err", "path": []}), None),
        Some(Some(p)) => (json!({"st": "ok", "path": from_path(&p)}), Some(p)),
    }
}

// -------------------------------------------------------------------- edits

#[derive(Serialize, Deserialize, Clone)]
struct Op {
    op: String,
    via: String,        // "text": read the path from its text, "api": put it together
    pt: String,
    path: Vec<Seg>,
    val: Node,
    al: String,
    ow: bool,
    name: String,
    fields: Vec<String>,
    sel: String,
    new: String,
    keeps: Vec<String>,
}

fn apply<T: YamlInsert>(t: &mut T, op: &Op, path: &YamlPath) -> (usize, Vec<Node>, usize) {
    let value = || AliasedYaml { alias: if op.al.is_empty() { None } else { Some(op.al.clone()) }, value: to_yaml(&op.val) };
    match op.op.as_str() {
        "find" => (0, t.find_values(path).0.iter().map(from_yaml_node).collect(), 0),
        "insert" => (t.insert_into_hash(path, &value(), op.ow), vec![], 0),
        "insertcall" => {
            let calls = Cell::new(0);
            let r = t.insert_into_hash_by_call(
                path,
                || {
                    calls.set(calls.get() + 1);
                    value()
                },
                op.ow,
            );
            (r, vec![], calls.get())
        }
        "remove" => (t.remove_from_hash(path), vec![], 0),
        "rename" => (t.rename_field(path, op.name.clone()), vec![], 0),
        "toobj" => (t.to_object(path, op.name.clone()), vec![], 0),
        "mvsub" => (t.move_to_subfield(path, op.name.clone(), op.fields.clone()), vec![], 0),
        "mvmap" => (
            t.move_to_map_with_field_as_key(path, op.name.clone(), op.sel.clone(), op.new.clone(), op.keeps.clone()),
            vec![],
            0,
        ),
        x => panic!("case: operation {x}"),
    }
}

/// Runs the operations one after another; the event holds the tree after each.
fn edit(case: &Value) -> Value {
    let n: Node = field(case, "doc");
    let steps: Vec<Op> = field(case, "steps");
    let text = case["src"].as_str() == Some("text");
    let mut doc = if text {
        let lines: Vec<String> = field(case, "lines");
        match parse_text(&lines.join("\n")) {
            (_, Some(d)) => Some(d),
            (p, None) => return json!({"p": p, "obs": [], "rt": {}}),
        }
    } else if n.t == "doc" {
        Some(to_doc(&n))
    } else {
        None
    };
    let first = doc.as_ref().map_or(none(), from_doc);
    let mut yaml = if doc.is_none() { Some(to_yaml(&n)) } else { None };
    let mut obs = vec![];
    for op in &steps {
        let path = if op.via == "text" { parse_path(&op.pt).1 } else { Some(to_path(&op.path)) };
        let Some(path) = path else {
            obs.push(json!({"st": "badpath", "r": 0, "calls": 0, "n": none(), "out": []}));
            break;
        };
        let got = guard(|| match (&mut doc, &mut yaml) {
            (Some(d), _) => apply(d, op, &path),
            (_, Some(y)) => apply(y, op, &path),
            _ => panic!("case: no tree"),
        });
        match got {
            Some((r, out, calls)) => {
                let now = match (&doc, &yaml) {
                    (Some(d), _) => from_doc(d),
                    (_, Some(y)) => from_yaml_node(y),
                    _ => none(),
                };
                obs.push(json!({"st": "ok", "r": r, "calls": calls, "n": now, "out": out}));
            }
            None => {
                obs.push(json!({"st": "panic", "r": 0, "calls": 0, "n": none(), "out": []}));
                break;
            }
        }
    }
    let last = match (doc, yaml) {
        (Some(d), _) => d,
        (_, Some(y)) => Document { leading_comments: vec![], items: vec![DocumentData::Yaml(y)] },
        _ => unreachable!(),
    };
    let rt = if case["rt"].as_bool() == Some(true) { round_trip(&last) } else { json!({}) };
    json!({"p": {"st": "ok", "n": first, "line": 0, "col": 0, "msg": false}, "obs": obs, "rt": rt})
}

fn from_yaml_node(y: &Yaml) -> Node {
    node::from_yaml(y)
}

// -------------------------------------------------------------------- serde

thread_local! {
    static SCHEMA: RefCell<Node> = RefCell::new(nd("any", "", vec![]));
}
/// A type whose schema is the current one.
struct Dyn(Node);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let schema = SCHEMA.with(|s| s.borrow().clone());
        Ty(&schema).deserialize(d).map(Dyn)
    }
}

fn read(schema: &Node, f: impl FnOnce() -> Result<Dyn, YamlDeserializeError>) -> Value {
    SCHEMA.with(|s| *s.borrow_mut() = schema.clone());
    match guard(f) {
        None => json!({"st": "panic", "v": none(), "msg": false}),
        Some(Err(e)) => json!({"st": "err", "v": none(), "msg": !e.to_string().is_empty()}),
        Some(Ok(d)) => json!({"st": "ok", "v": d.0, "msg": false}),
    }
}
use yaml_subset::yaml::deserializer::YamlDeserializeError;

fn any() -> Node {
    nd("any", "", vec![])
}

fn serde_case(case: &Value) -> Value {
    let (schema, value): (Node, Node) = (field(case, "schema"), field(case, "value"));
    let no = || json!({"st": "no", "v": none(), "msg": false});
    let tree = match guard(|| Val(&schema, &value).serialize(YamlSerializer::new())) {
        None => return json!({"sent": canonical(&schema, &value), "tree": bad("panic"), "back": no(), "fmt": {"st": "no", "lines": []}, "text": no(), "any": no(), "anytext": no()}),
        Some(Err(_)) => return json!({"sent": canonical(&schema, &value), "tree": bad("err"), "back": no(), "fmt": {"st": "no", "lines": []}, "text": no(), "any": no(), "anytext": no()}),
        Some(Ok(y)) => y,
    };
    let back = read(&schema, || from_yaml(tree.clone()));
    let any_mem = read(&any(), || from_yaml(tree.clone()));
    let pretty = guard(|| Document { leading_comments: vec![], items: vec![DocumentData::Yaml(tree.clone().pretty())] });
    let (fmt, text) = match &pretty {
        Some(d) => format_doc(d),
        None => (json!({"st": "panic", "lines": []}), None),
    };
    let (from_text, any_text) = match &text {
        Some(t) => (read(&schema, || from_yaml_str(t)), read(&any(), || from_yaml_str(t))),
        None => (no(), no()),
    };
    json!({"sent": canonical(&schema, &value), "tree": {"st": "ok", "n": from_yaml_node(&tree)}, "back": back,
           "fmt": fmt, "text": from_text, "any": any_mem, "anytext": any_text})
}

fn de_case(case: &Value) -> Value {
    let schemas: Vec<Node> = field(case, "schemas");
    let n: Node = field(case, "doc");
    let lines: Vec<String> = field(case, "lines");
    let text = lines.join("\n");
    let got: Vec<Value> = schemas
        .iter()
        .map(|s| {
            if case["src"].as_str() == Some("text") {
                read(s, || from_yaml_str(&text))
            } else {
                read(s, || from_yaml(to_yaml(&n)))
            }
        })
        .collect();
    json!({ "got": got })
}

// ------------------------------------------------------------------- others

fn pretty_case(case: &Value) -> Value {
    let d = if case["src"].as_str() == Some("value") {
        let (schema, value): (Node, Node) = (field(case, "schema"), field(case, "value"));
        match guard(|| Val(&schema, &value).serialize(YamlSerializer::new()).ok()) {
            Some(Some(y)) => Document { leading_comments: vec![], items: vec![DocumentData::Yaml(y)] },
            _ => Document { leading_comments: vec![], items: vec![DocumentData::Yaml(Yaml::UnquotedString("~".into()))] },
        }
    } else {
        let n: Node = field(case, "doc");
        as_document(&n)
    };
    let mut r = pretty_document(&d);
    r["doc"] = json!(from_doc(&d));
    r
}

fn pretty_document(d: &Document) -> Value {
    let dump = |d: &Document| match root(d) {
        Some(y) => read(&any(), || from_yaml(y)),
        None => json!({"st": "no", "v": none(), "msg": false}),
    };
    let no_fmt = || json!({"st": "no", "lines": []});
    let no_any = || json!({"st": "no", "v": none(), "msg": false});
    let Some(p) = guard(|| d.clone().pretty()) else {
        return json!({"p": bad("panic"), "fmt": no_fmt(), "re": bad("no"), "p2": bad("no"), "fmt2": no_fmt(), "p3": bad("no"), "fmt3": no_fmt(), "any0": no_any(), "any1": no_any(), "any2": no_any()});
    };
    let node_of = |d: &Option<Document>| match d {
        Some(d) => json!({"st": "ok", "n": from_doc(d), "line": 0, "col": 0, "msg": false}),
        None => bad("panic"),
    };
    let (fmt, text) = format_doc(&p);
    let (re, d2) = text.map_or((bad("no"), None), |t| parse_text(&t));
    let p2 = guard(|| p.clone().pretty());
    let fmt2 = p2.as_ref().map_or(no_fmt(), |d| format_doc(d).0);
    let p3 = d2.as_ref().and_then(|d| guard(|| d.clone().pretty()));
    let fmt3 = p3.as_ref().map_or(no_fmt(), |d| format_doc(d).0);
    let (any0, any1) = (dump(d), dump(&p));
    let any2 = d2.as_ref().map_or(no_any(), dump);
    json!({"p": node_of(&Some(p)), "fmt": fmt, "re": re, "p2": node_of(&p2), "fmt2": fmt2, "p3": node_of(&p3), "fmt3": fmt3,
           "any0": any0, "any1": any1, "any2": any2})
}

fn aliased_node(a: &AliasedYaml) -> Node {
    Node { t: "el".into(), s: String::new(), k: String::new(), a: a.alias.clone().unwrap_or_default(), c: vec![from_yaml_node(&a.value)] }
}

fn visit_case(case: &Value) -> Value {
    let n: Node = field(case, "doc");
    let y = to_yaml(&n);
    let visited = guard(|| {
        let mut out: Vec<Node> = vec![];
        y.visit_yaml(&mut |a: &AliasedYaml| out.push(aliased_node(a)));
        out
    });
    let mapped = guard(|| {
        let mut seen: Vec<Node> = vec![];
        let r = y.clone().map_yaml(&mut |x: Yaml| {
            seen.push(from_yaml_node(&x));
            Yaml::InlineArray(vec![Yaml::UnquotedString(format!("n{}", seen.len())), x])
        });
        (seen, from_yaml_node(&r))
    });
    let same = guard(|| from_yaml_node(&y.clone().map_yaml(&mut |x: Yaml| x)));
    let ok = visited.is_some() && mapped.is_some() && same.is_some();
    let (seen, result) = mapped.unwrap_or((vec![], none()));
    json!({"st": if ok {"ok"} else {"panic"}, "visited": visited.unwrap_or_default(), "seen": seen, "result": result, "same": same.unwrap_or(none())})
}

fn scalar_case(case: &Value) -> Value {
    let n: Node = field(case, "doc");
    let y = to_yaml(&n);
    let s = guard(|| y.as_string());
    let de = guard(|| from_yaml::<String>(y.clone()).ok());
    let pair = |x: Option<Option<String>>| match x {
        None => json!({"st": "panic", "s": ""}),
        Some(None) => json!({"st": "none", "s": ""}),
        Some(Some(s)) => json!({"st": "ok", "s": s}),
    };
    let (a, b) = (pair(s), pair(de));
    let e = pair(guard(|| AliasedYaml { alias: Some("x".into()), value: y }.as_string()));
    json!({"str": a, "de": b, "al": e})
}

fn field<T: for<'de> Deserialize<'de>>(case: &Value, name: &str) -> T {
    serde_json::from_value(case[name].clone()).unwrap_or_else(|e| {
        eprintln!("case: field {name}: {e}");
        std::process::exit(2)
    })
}

fn run(case: &Value) -> Value {
    match case["f"].as_str().unwrap_or("") {
        "text" => {
            let lines: Vec<String> = field(case, "lines");
            let text = lines.join(if case["eol"].as_str() == Some("crlf") { "\r\n" } else { "\n" });
            let (p, d) = parse_text(&text);
            let rt = match &d {
                Some(d) => round_trip(d),
                None => json!({"fmt": {"st": "no", "lines": []}, "re": bad("no"), "fmt2": {"st": "no", "lines": []}}),
            };
            json!({"p": p, "rt": rt})
        }
        "format" => json!({"rt": round_trip(&as_document(&field(case, "doc")))}),
        "path" => {
            let text: String = field(case, "text");
            let got = parse_path(&text).0;
            json!({ "got": got })
        }
        "append" => {
            let (p, q): (Vec<Seg>, Vec<Seg>) = (field(case, "p"), field(case, "q"));
            let got = guard(|| {
                let mut path = to_path(&p);
                path.insert(to_path(&q));
                from_path(&path)
            });
            let joined: String = field(case, "joined");
            json!({"got": match got { Some(p) => json!({"st": "ok", "path": p}), None => json!({"st": "panic", "path": []}) }, "joined": parse_path(&joined).0})
        }
        "edit" => edit(case),
        "serde" => serde_case(case),
        "de" => de_case(case),
        "pretty" => pretty_case(case),
        "visit" => visit_case(case),
        "scalar" => scalar_case(case),
        x => {
            eprintln!("case: family {x}");
            std::process::exit(2)
        }
    }
}

// JSON of any depth: the worker has a big stack
fn read_json(text: &str) -> serde_json::Result<Value> {
    let mut d = serde_json::Deserializer::from_str(text);
    d.disable_recursion_limit();
    let value = Value::deserialize(&mut d)?;
    d.end()?;
    Ok(value)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (cases, events, from) = (args[1].clone(), args[2].clone(), args[3].parse::<usize>().unwrap());
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<String>().cloned().unwrap_or_default();
        if msg.starts_with("case: ") {
            eprintln!("{msg}");
            std::process::exit(2);
        }
    }));
    // the number of the running case times two, plus one while it runs
    let clock = Arc::new(AtomicU64::new(0));
    let watch = clock.clone();
    let worker = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let input = std::io::BufReader::new(std::fs::File::open(&cases).expect("cases"));
            let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(&events).expect("events"));
            for (i, line) in input.lines().enumerate().skip(from) {
                let line = line.expect("line");
                let mut case: Value = read_json(&line).expect("case json");
                if let Value::String(s) = &case {
                    case = read_json(s).expect("case json in a string");
                }
                clock.store(2 * i as u64 + 1, Ordering::SeqCst);
                // A marker first, so that what was recorded so far is not lost in a crash
                out.flush().expect("flush");
                let got = run(&case);
                clock.store(2 * i as u64 + 2, Ordering::SeqCst);
                if let (Value::Object(c), Value::Object(g)) = (&mut case, got) {
                    c.insert("ended".into(), json!("ok"));
                    c.insert("o".into(), Value::Object(g));
                }
                writeln!(out, "{}", case).expect("write");
            }
            out.flush().expect("flush");
        })
        .expect("thread");
    let (mut seen, mut since) = (0, Instant::now());
    while !worker.is_finished() {
        std::thread::sleep(Duration::from_millis(5));
        let now = watch.load(Ordering::SeqCst);
        if now != seen {
            seen = now;
            since = Instant::now();
        } else if now % 2 == 1 && since.elapsed() > LIMIT {
            std::process::exit(3);
        }
    }
    if worker.join().is_err() {
        std::process::exit(2);
    }
}
