//! A native plugin.  Its name k is written into copies of the file; it has two functions, `only_k`
//! and `who`, which output `[k]`, and `show($v)`, which outputs everything of a variable.

use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawFunction};
use stuart_core::plugins::Plugin;
use stuart_core::process::{ProcessError, Scope};
use stuart_core::TracebackError;

use humphrey_json::Value;

use std::ffi::{c_char, c_int, c_void, CStr};

#[repr(C)]
struct DlInfo {
    name: *const c_char,
    base: *const c_void,
    symbol: *const c_char,
    address: *const c_void,
}

extern "C" {
    fn dladdr(address: *const c_void, info: *mut DlInfo) -> c_int;
}

/// The name of this copy of the plugin, which is written into the file.
#[no_mangle]
#[used]
pub static VPLUGIN_NAME: [u8; 32] = *b"VPLUGIN-NAME:...................";

fn id() -> String {
    let name = unsafe { std::ptr::read_volatile(&VPLUGIN_NAME) };
    String::from_utf8_lossy(&name[13..]).trim_end_matches('.').to_string()
}

/// Leaves a trace of the plugin having been loaded next to its file.
fn trace() {
    let mut info = DlInfo { name: std::ptr::null(), base: std::ptr::null(), symbol: std::ptr::null(), address: std::ptr::null() };
    unsafe {
        assert!(dladdr(trace as *const c_void, &mut info) != 0);
        let path = CStr::from_ptr(info.name).to_string_lossy().to_string();
        std::fs::write(path + ".loaded", "").ok();
    }
}

struct Parser(String, String);

#[derive(Debug)]
struct Func(String, String);

impl FunctionParser for Parser {
    fn name(&self) -> &str {
        &self.0
    }
    fn parse(&self, _: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        Ok(Box::new(Func(self.0.clone(), self.1.clone())))
    }
}

impl Function for Func {
    fn name(&self) -> &str {
        &self.0
    }
    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let token = scope.tokens.current().unwrap().clone();
        scope.output(format!("[{}]", self.1)).map_err(|e| token.traceback(e))
    }
}

struct ShowParser;

#[derive(Debug)]
struct Show(String);

impl FunctionParser for ShowParser {
    fn name(&self) -> &str {
        "show"
    }
    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        let name = raw.positional_args.first().and_then(|a| a.as_variable());
        Ok(Box::new(Show(name.ok_or(ParseError::InvalidArgument)?.to_string())))
    }
}

fn shown(v: &Value) -> String {
    match v {
        Value::Null => "z".into(),
        Value::Bool(b) => if *b { "t" } else { "f" }.into(),
        Value::Number(n) => format!("#{}", n),
        Value::String(s) => format!("'{}'", s),
        Value::Array(a) => format!("[{}]", a.iter().map(|v| shown(v) + ",").collect::<String>()),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{},", k, shown(v))).collect::<String>()),
    }
}

impl Function for Show {
    fn name(&self) -> &str {
        "show"
    }
    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let token = scope.tokens.current().unwrap().clone();
        let text = scope.get_variable(&self.0).map_or("u".to_string(), |v| shown(&v));
        scope.output(text).map_err(|e| token.traceback(e))
    }
}

#[no_mangle]
pub extern "C" fn _stuart_plugin_init() -> *mut Plugin {
    trace();
    let id = id();
    let function = |name: String| Box::new(Parser(name, id.clone())) as Box<dyn FunctionParser>;
    let plugin = Plugin {
        name: id.clone(),
        version: "1".into(),
        functions: vec![function(format!("only_{}", id)), function("who".into()), Box::new(ShowParser)],
        parsers: vec![],
    };
    Box::into_raw(Box::new(plugin))
}
