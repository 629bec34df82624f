//! Conformance driver: runs cases (JSON lines on stdin) against the real `stuart_core` and
//! reports only observable results (JSON lines on stdout).
//!
//! Usage: vharness SCRATCH_DIR

use serde_json::{json, Map, Value as J};
use stuart_core::error::{Error, FsError, ProcessError, TracebackError};
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawArgument, RawFunction};
use stuart_core::plugins::{NodeParser, NodeProcessor, Plugin};
use stuart_core::process::{ProcessOutput, Scope};
use stuart_core::{Config, Environment, Node, Stuart};

use std::cell::RefCell;
use std::fs;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

thread_local! {
    static UNDER_TEST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PROBES: RefCell<Vec<J>> = RefCell::new(Vec::new());
}

// ---------------------------------------------------------------------------------------------
// Plugins

/// What a harness function does: `probe` records the values of its arguments, `tag` outputs who it
/// is and the arguments it was given, `bind` adds a variable to the innermost block, `fail` fails.
#[derive(Debug, Clone)]
struct Spec {
    name: String,
    mode: String,
    label: String,
}

struct Parser(Spec);

#[derive(Debug, Clone)]
struct Func {
    spec: Spec,
    args: Vec<RawArgument>,
    named: Vec<(String, RawArgument)>,
}

impl FunctionParser for Parser {
    fn name(&self) -> &str {
        &self.0.name
    }
    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        if self.0.mode == "badparse" {
            return Err(ParseError::InvalidArgument);
        }
        Ok(Box::new(Func {
            spec: self.0.clone(),
            args: raw.positional_args,
            named: raw.named_args,
        }))
    }
}

fn arg(a: &RawArgument) -> J {
    match a {
        RawArgument::Variable(v) => json!({"t": "var", "s": v}),
        RawArgument::String(v) => json!({"t": "str", "s": v}),
        RawArgument::Ident(v) => json!({"t": "id", "s": v}),
        RawArgument::Integer(v) => json!({"t": "int", "s": v.to_string()}),
    }
}

/// Encodes a template value so that the specification can read it back.
fn enc(v: &humphrey_json_value::Value) -> J {
    use humphrey_json_value::Value as V;
    match v {
        V::Null => json!({"t": "z"}),
        V::Bool(b) => json!({"t": "b", "b": b}),
        V::Number(n) => json!({"t": "n", "n": n}),
        V::String(s) => json!({"t": "s", "s": s}),
        V::Array(a) => json!({"t": "a", "a": a.iter().map(enc).collect::<Vec<_>>()}),
        V::Object(o) => {
            json!({"t": "o", "o": o.iter().map(|(k, v)| json!([k, enc(v)])).collect::<Vec<_>>()})
        }
    }
}

mod humphrey_json_value {
    pub use humphrey_json::Value;
}

impl Function for Func {
    fn name(&self) -> &str {
        &self.spec.name
    }
    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let token = scope.tokens.current().unwrap().clone();
        match self.spec.mode.as_str() {
            "probe" => {
                let id = match &self.args[0] {
                    RawArgument::String(s) => s.clone(),
                    RawArgument::Integer(i) => i.to_string(),
                    _ => String::new(),
                };
                let values: Vec<J> = self.args[1..]
                    .iter()
                    .map(|a| match a {
                        RawArgument::Variable(n) => match scope.get_variable(n) {
                            Some(v) => enc(&v),
                            None => json!({"t": "u"}),
                        },
                        other => arg(other),
                    })
                    .collect();
                PROBES.with(|p| p.borrow_mut().push(json!([id, values])));
                Ok(())
            }
            "fail" => Err(token.traceback(ProcessError::StackError)),
            "bind" => {
                if let (RawArgument::Variable(n), RawArgument::String(v)) =
                    (&self.args[0], &self.args[1])
                {
                    scope.stack.last_mut().unwrap().add_variable(
                        n,
                        humphrey_json_value::Value::String(v.clone()),
                    );
                }
                Ok(())
            }
            "args" => {
                let a: Vec<J> = self.args.iter().map(arg).collect();
                let n: Vec<J> = self
                    .named
                    .iter()
                    .map(|(k, v)| json!([k, arg(v)]))
                    .collect();
                let path = token.path.to_string_lossy().to_string();
                let path = path.split_once("/content/").map(|p| p.1.to_string());
                PROBES.with(|p| p.borrow_mut().push(json!([path, [a, n]])));
                Ok(())
            }
            _ => scope
                .output(&self.spec.label)
                .map_err(|e| token.traceback(e)),
        }
    }
}

struct NParser {
    label: String,
    exts: Vec<&'static str>,
    mode: String,
}
struct NProc {
    label: String,
    mode: String,
    contents: Vec<u8>,
    path: PathBuf,
}

impl NodeParser for NParser {
    fn extensions(&self) -> Vec<&'static str> {
        self.exts.clone()
    }
    fn parse(&self, contents: &[u8], path: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        if self.mode == "badparse" {
            return Err("cannot parse".into());
        }
        Ok(Box::new(NProc {
            label: self.label.clone(),
            mode: self.mode.clone(),
            contents: contents.to_vec(),
            path: path.to_path_buf(),
        }))
    }
}

impl NodeProcessor for NProc {
    fn process(&self, _: &Stuart, _: Environment) -> Result<ProcessOutput, String> {
        let stem = self.path.file_stem().unwrap().to_string_lossy().to_string();
        let mut contents = format!("[{}]", self.label).into_bytes();
        contents.extend_from_slice(&self.contents);
        match self.mode.as_str() {
            "fail" => Err("cannot process".into()),
            "rename" => Ok(ProcessOutput {
                new_contents: Some(contents),
                new_name: Some(format!("{}.{}", stem, self.label)),
            }),
            "html" | "json" => Ok(ProcessOutput {
                new_contents: Some(contents),
                new_name: Some(format!("{}.{}", stem, self.mode)),
            }),
            "name" => Ok(ProcessOutput {
                new_contents: None,
                new_name: Some(format!("{}.{}", stem, self.label)),
            }),
            "contents" => Ok(ProcessOutput {
                new_contents: Some(contents),
                new_name: None,
            }),
            _ => Ok(ProcessOutput::default()),
        }
    }
}

fn strs(v: &J) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

fn plugins(case: &J) -> Vec<Plugin> {
    let mut result = vec![];
    for p in case["plugins"].as_array().unwrap_or(&vec![]) {
        let name = p["name"].as_str().unwrap().to_string();
        let functions = p["functions"]
            .as_array()
            .unwrap_or(&vec![])
            .iter()
            .map(|f| {
                Box::new(Parser(Spec {
                    name: f["name"].as_str().unwrap().to_string(),
                    mode: f["mode"].as_str().unwrap_or("tag").to_string(),
                    label: match f["as"].as_str() {
                        Some(label) => label.to_string(),
                        None => format!("<{}.{}>", name, f["name"].as_str().unwrap()),
                    },
                })) as Box<dyn FunctionParser>
            })
            .collect();
        let parsers = p["parsers"]
            .as_array()
            .unwrap_or(&vec![])
            .iter()
            .map(|f| {
                Box::new(NParser {
                    label: f["as"].as_str().unwrap_or(&name).to_string(),
                    exts: strs(&f["exts"])
                        .into_iter()
                        .map(|s| &*Box::leak(s.into_boxed_str()))
                        .collect(),
                    mode: f["mode"].as_str().unwrap_or("").to_string(),
                }) as Box<dyn NodeParser>
            })
            .collect();
        result.push(Plugin {
            name,
            version: "1".into(),
            functions,
            parsers,
        });
    }
    result
}

// ---------------------------------------------------------------------------------------------
// Files

fn bytes(v: &J) -> Vec<u8> {
    if let Some(s) = v["s"].as_str() {
        s.as_bytes().to_vec()
    } else if let Some(x) = v["x"].as_str() {
        (0..x.len() / 2)
            .map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap())
            .collect()
    } else {
        vec![]
    }
}

fn unbytes(b: Vec<u8>) -> J {
    match String::from_utf8(b) {
        Ok(s) => json!({ "s": s }),
        Err(e) => {
            let x: String = e.into_bytes().iter().map(|b| format!("{:02x}", b)).collect();
            json!({ "x": x })
        }
    }
}

fn apply(root: &Path, f: &J) {
    let path = root.join(f["p"].as_str().unwrap());
    if f["rm"].as_bool() == Some(true) {
        if path.is_dir() {
            fs::remove_dir_all(&path).unwrap();
        } else if path.exists() {
            fs::remove_file(&path).unwrap();
        }
        return;
    }
    if f["dir"].as_bool() == Some(true) {
        fs::create_dir_all(&path).unwrap();
        return;
    }
    if path.is_dir() {
        fs::remove_dir_all(&path).unwrap();
    }
    let parent = path.parent().unwrap();
    if fs::create_dir_all(parent).is_err() {
        // A file stands where a directory is needed.
        let mut p = parent.to_path_buf();
        while p.starts_with(root) {
            if p.is_file() {
                fs::remove_file(&p).unwrap();
            }
            p = p.parent().unwrap().to_path_buf();
        }
        fs::create_dir_all(parent).unwrap();
    }
    fs::write(&path, bytes(f)).unwrap();
}

fn snapshot(root: &Path, dir: &Path, out: &mut Vec<J>) {
    let mut entries: Vec<_> = match fs::read_dir(dir) {
        Ok(d) => d.flatten().map(|e| e.path()).collect(),
        Err(_) => return,
    };
    entries.sort();
    for p in entries {
        if p.is_dir() {
            snapshot(root, &p, out);
        } else {
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let mut o = unbytes(fs::read(&p).unwrap_or_default());
            o["p"] = J::String(rel);
            out.push(o);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Cases

fn trace<T: Clone + std::fmt::Debug>(k: &str, root: &Path, e: &TracebackError<T>) -> J {
    let rel = |p: &Path| {
        let r = root.canonicalize().unwrap_or(root.to_path_buf());
        p.strip_prefix(&r)
            .unwrap_or(p)
            .to_string_lossy()
            .to_string()
    };
    json!({"ok": false, "err": k, "file": rel(&e.path), "line": e.line, "kind": format!("{:?}", e.kind)})
}

fn result(root: &Path, r: Result<(), Error>) -> J {
    match r {
        Ok(()) => json!({"ok": true}),
        Err(Error::Parse(e)) => trace("parse", root, &e),
        Err(Error::Process(e)) => trace("process", root, &e),
        Err(Error::Plugin(s)) => json!({"ok": false, "err": "plugin", "kind": s}),
        Err(Error::Fs(FsError::Conflict(a, b))) => {
            json!({"ok": false, "err": "conflict", "kind": format!("{:?} {:?}", a, b)})
        }
        Err(e) => json!({"ok": false, "err": "other", "kind": format!("{:?}", e)}),
    }
}

fn config(c: &J) -> Config {
    let mut config = Config::default();
    if let Some(n) = c["name"].as_str() {
        config.name = n.to_string();
    }
    if let Some(n) = c["author"].as_str() {
        config.author = Some(n.to_string());
    }
    if let Some(b) = c["strip"].as_bool() {
        config.strip_extensions = b;
    }
    if let Some(b) = c["data"].as_bool() {
        config.save_data_files = b;
    }
    if let Some(b) = c["meta"].as_bool() {
        config.save_metadata = b;
    }
    config
}

fn run(root: &Path, case: &J) -> J {
    let empty = vec![];
    fs::create_dir_all(root.join("content")).unwrap();
    for f in case["files"].as_array().unwrap_or(&empty) {
        apply(root, f);
    }

    let default_steps = vec![json!({"op": "build"}), json!({"op": "save"}), json!({"op": "snap"})];
    let steps = case["steps"].as_array().unwrap_or(&default_steps);
    let env = case["env"].as_str().unwrap_or("testing").to_string();

    let fresh = || {
        Stuart::new(root.join("content"))
            .with_config(config(&case["config"]))
            .with_plugins(plugins(case))
    };
    let mut stuart = fresh();

    let mut results = vec![];
    for step in steps {
        PROBES.with(|p| p.borrow_mut().clear());
        let op = step["op"].as_str().unwrap();
        UNDER_TEST.with(|u| u.set(!matches!(op, "files" | "snap")));
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            "fresh" => {
                stuart = fresh();
                json!({"ok": true})
            }
            "files" => {
                for f in step["files"].as_array().unwrap_or(&empty) {
                    apply(root, f);
                }
                json!({"ok": true})
            }
            "build" => result(root, stuart.build(env.clone())),
            "merge" => {
                let dir = root.join(step["dir"].as_str().unwrap());
                match Node::new(dir, false) {
                    Ok(n) => result(root, stuart.merge_output(n)),
                    Err(e) => result(root, Err(e)),
                }
            }
            "save" => result(
                root,
                stuart.save(root.join(step["to"].as_str().unwrap_or("dist"))),
            ),
            "meta" => result(
                root,
                stuart.save_metadata(root.join(step["to"].as_str().unwrap_or("metadata.json"))),
            ),
            // What the specification takes as given: the rendering of markdown (CommonMark with
            // every extension of the library).
            "markdown" => {
                let html: Vec<String> = strs(&step["texts"])
                    .iter()
                    .map(|t| {
                        let mut s = String::new();
                        let parser =
                            pulldown_cmark::Parser::new_ext(t, pulldown_cmark::Options::all());
                        pulldown_cmark::html::push_html(&mut s, parser);
                        s
                    })
                    .collect();
                json!({"ok": true, "html": html})
            }
            "snap" => {
                let dir = root.join(step["dir"].as_str().unwrap_or("dist"));
                let mut out = vec![];
                snapshot(&dir, &dir, &mut out);
                json!({"ok": true, "files": out})
            }
            _ => panic!("unknown op"),
        }));
        UNDER_TEST.with(|u| u.set(false));
        let mut r = match r {
            Ok(r) => r,
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"ok": false, "err": "panic", "kind": msg})
            }
        };
        let probes = PROBES.with(|p| p.borrow().clone());
        if !probes.is_empty() {
            r["probes"] = J::Array(probes);
        }
        let failed = r["ok"] == false;
        results.push(r);
        // By default a failing step ends the case, as it does for the command line.
        if failed && case["continue"].as_bool() != Some(true) {
            break;
        }
    }
    let mut m = Map::new();
    m.insert("id".into(), case["id"].clone());
    m.insert("steps".into(), J::Array(results));
    J::Object(m)
}

fn main() {
    let scratch = PathBuf::from(std::env::args().nth(1).expect("scratch directory"));
    // Panics of the code under test are data; those of this program are errors of it.
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !UNDER_TEST.with(|u| u.get()) {
            eprint!("harness: ");
            hook(info)
        }
    }));
    // Make sure that nothing of the caller's environment reaches the templates by accident.
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout().lock();
    for (n, line) in stdin.lock().lines().enumerate() {
        let line = line.unwrap();
        let case: J = serde_json::from_str(&line).expect("case");
        let root = scratch.join(format!("c{}", n));
        fs::create_dir_all(&root).unwrap();
        let r = run(&root, &case);
        fs::remove_dir_all(&root).ok();
        writeln!(stdout, "{}", r).unwrap();
        stdout.flush().unwrap();
    }
}
