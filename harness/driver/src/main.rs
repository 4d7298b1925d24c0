//! Line-oriented execution server around the *real* json_typegen_shared library.
//!
//! One JSON request per line on stdin, one JSON reply per line on stdout.
//! Every request runs the library entry point under a monitor that records
//! panics (message and location), heap usage (peak live bytes, number of
//! allocations) and CPU time.  Stack overflow / abort kills the process, which
//! the orchestrator observes and attributes to the request in flight.
use json_typegen_shared::codegen;
#[cfg(feature = "option-parsing")]
use json_typegen_shared::{codegen_from_macro, codegen_from_macro_input, parse};
use json_typegen_shared::{ImportStyle, Options, OutputMode, StringTransform};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(live, Relaxed);
    COUNT.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
            add(n);
        }
        q
    }
}

#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

// The settings as a library user writes them, independent of the names used in options blocks
fn output_mode(s: &str) -> OutputMode {
    match s {
        "rust" => OutputMode::Rust,
        "typescript" => OutputMode::Typescript,
        "typescript/typealias" => OutputMode::TypescriptTypeAlias,
        "kotlin" | "kotlin/jackson" => OutputMode::KotlinJackson,
        "kotlin/kotlinx" => OutputMode::KotlinKotlinx,
        "python" => OutputMode::PythonPydantic,
        "json_schema" => OutputMode::JsonSchema,
        "zod" => OutputMode::ZodSchema,
        "shape" => OutputMode::Shape,
        _ => panic!("driver: output_mode"),
    }
}

fn import_style(s: &str) -> ImportStyle {
    match s {
        "add_imports" => ImportStyle::AddImports,
        "assume_existing" => ImportStyle::AssumeExisting,
        "qualified_paths" => ImportStyle::QualifiedPaths,
        _ => panic!("driver: import_style"),
    }
}

fn transform(s: &str) -> StringTransform {
    match s.to_lowercase().replace(['-', '_'], "").as_str() {
        "lowercase" => StringTransform::LowerCase,
        "uppercase" => StringTransform::UpperCase,
        "pascalcase" => StringTransform::PascalCase,
        "camelcase" => StringTransform::CamelCase,
        "snakecase" => StringTransform::SnakeCase,
        "screamingsnakecase" => StringTransform::ScreamingSnakeCase,
        "kebabcase" => StringTransform::KebabCase,
        "screamingkebabcase" => StringTransform::ScreamingKebabCase,
        _ => panic!("driver: property_name_format"),
    }
}

fn set_options(req: &Value) -> Result<Options, String> {
    let mut o = match req.get("options").and_then(|v| v.as_str()) {
        #[cfg(feature = "option-parsing")]
        Some(block) => parse::options(block)?,
        #[cfg(not(feature = "option-parsing"))]
        Some(_) => return Err("driver: no option-parsing".into()),
        None => Options::default(),
    };
    // direct (programmatic) settings, as a build script would do
    if let Some(set) = req.get("set").and_then(|v| v.as_object()) {
        for (k, v) in set {
            let s = v.as_str().unwrap_or("");
            match k.as_str() {
                "output_mode" => o.output_mode = output_mode(s),
                "import_style" => o.import_style = import_style(s),
                "property_name_format" => o.property_name_format = Some(transform(s)),
                "derives" => o.derives = s.into(),
                "unwrap" => o.unwrap = s.into(),
                "type_visibility" => o.type_visibility = s.into(),
                "field_visibility" => o.field_visibility = v.as_str().map(|x| x.into()),
                "deny_unknown_fields" => o.deny_unknown_fields = v.as_bool().unwrap(),
                "use_default_for_missing_fields" => {
                    o.use_default_for_missing_fields = v.as_bool().unwrap()
                }
                "collect_additional" => o.collect_additional = v.as_bool().unwrap(),
                "infer_map_threshold" => o.infer_map_threshold = v.as_u64().map(|x| x as usize),
                _ => return Err(format!("driver: unknown setting {}", k)),
            }
        }
    }
    Ok(o)
}

fn err_text(e: &dyn std::error::Error) -> String {
    json_typegen_shared::internal_util::display_error_with_causes(e)
}

/// The structure for the model's notation: [kind, ...]
#[cfg(feature = "from-shape")]
fn shape(v: &Value) -> json_typegen_shared::Shape {
    use json_typegen_shared::Shape::*;
    let inner = || Box::new(shape(&v[1]));
    match v[0].as_str().unwrap() {
        "bottom" => Bottom,
        "any" => Any,
        "null" => Null,
        "bool" => Bool,
        "str" => StringT,
        "int" => Integer,
        "float" => Floating,
        "opaque" => Opaque(v[1].as_str().unwrap().to_string()),
        "nullable" => Nullable(inner()),
        "optional" => Optional(inner()),
        "list" => VecT { elem_type: inner() },
        "map" => MapT { val_type: inner() },
        "tuple" => Tuple(
            v[1].as_array().unwrap().iter().map(shape).collect(),
            v[2].as_u64().unwrap(),
        ),
        "struct" => {
            let mut fields = linked_hash_map::LinkedHashMap::new();
            for f in v[1].as_array().unwrap() {
                fields.insert(f[0].as_str().unwrap().to_string(), shape(&f[1]));
            }
            Struct { fields }
        }
        _ => panic!("driver: shape"),
    }
}

fn run(req: &Value) -> Value {
    let op = req["op"].as_str().unwrap_or("codegen");
    let input_owned;
    let input = if let Some(r) = req.get("repeat") {
        // {pre, unit, sep, n, post}: big inputs without shipping them through the pipe
        let mut s = r["pre"].as_str().unwrap().to_string();
        let n = r["n"].as_u64().unwrap();
        for i in 0..n {
            if i > 0 {
                s += r["sep"].as_str().unwrap();
            }
            s += r["unit"].as_str().unwrap();
        }
        s += r["post"].as_str().unwrap();
        input_owned = s;
        input_owned.as_str()
    } else {
        req["input"].as_str().unwrap_or("")
    };
    let name = req["name"].as_str().unwrap_or("Root");
    match op {
        "codegen" => {
            let o = match set_options(req) {
                Ok(o) => o,
                Err(e) => return json!({"err": e, "stage": "options"}),
            };
            match codegen(name, input, o) {
                Ok(s) => json!({"ok": s}),
                Err(e) => json!({"err": err_text(&e), "stage": "codegen"}),
            }
        }
        #[cfg(feature = "option-parsing")]
        "macro" => match codegen_from_macro(input) {
            Ok(s) => json!({"ok": s}),
            Err(e) => json!({"err": err_text(&e), "stage": "macro"}),
        },
        #[cfg(feature = "option-parsing")]
        "macro_input" => match codegen_from_macro_input(input) {
            Ok(s) => json!({"ok": s}),
            Err(e) => json!({"err": err_text(&e), "stage": "macro"}),
        },
        #[cfg(feature = "from-shape")]
        "from_shape" => {
            let o = match set_options(req) {
                Ok(o) => o,
                Err(e) => return json!({"err": e, "stage": "options"}),
            };
            match json_typegen_shared::codegen_from_shape(name, &shape(&req["shape"]), o) {
                Ok(s) => json!({"ok": s}),
                Err(e) => json!({"err": err_text(&e), "stage": "codegen"}),
            }
        }
        "optdebug" => match set_options(req) {
            Ok(o) => json!({"ok": format!("{:?}", o)}),
            Err(e) => json!({"err": e, "stage": "options"}),
        },
        #[cfg(feature = "option-parsing")]
        "options" => match parse::options(input) {
            Ok(o) => json!({"ok": format!("{:?}", o)}),
            Err(e) => json!({"err": e, "stage": "options"}),
        },
        "threads" => {
            // the same list of jobs, on several threads at once, each in a different order
            let jobs: Vec<Value> = req["jobs"].as_array().unwrap().clone();
            let n = req["threads"].as_u64().unwrap() as usize;
            let jobs = std::sync::Arc::new(jobs);
            let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let jobs = jobs.clone();
                    let b = barrier.clone();
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn(move || {
                            b.wait();
                            let k = jobs.len();
                            let mut out = vec![Value::Null; k];
                            for i in 0..k {
                                let j = (i * (2 * t + 1) + t * 7) % k;
                                let j = if out[j].is_null() {
                                    j
                                } else {
                                    (0..k).find(|x| out[*x].is_null()).unwrap()
                                };
                                out[j] = run(&jobs[j]);
                            }
                            out
                        })
                        .unwrap()
                })
                .collect();
            let res: Vec<Value> = hs
                .into_iter()
                .map(|h| match h.join() {
                    Ok(v) => Value::Array(v),
                    Err(_) => json!("panicked"),
                })
                .collect();
            json!({"ok": res})
        }
        _ => json!({"err": "driver: unknown op", "stage": "driver"}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", msg, loc));
    }));
    // Requests run on the main thread: the stack is the 8 MiB a CLI user gets.
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut line = String::new();
    let mut lock = stdin.lock();
    loop {
        line.clear();
        if lock.read_line(&mut line).unwrap() == 0 {
            return;
        }
        let req: Value = serde_json::from_str(&line).expect("driver request");
        let base = LIVE.load(Relaxed);
        PEAK.store(base, Relaxed);
        let c0 = COUNT.load(Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&req)));
        let peak = PEAK.load(Relaxed).saturating_sub(base);
        let allocs = COUNT.load(Relaxed) - c0;
        let mut reply = match r {
            Ok(v) => v,
            Err(_) => json!({"panic": LAST_PANIC.with(|p| p.borrow().clone())}),
        };
        reply["peak"] = json!(peak);
        reply["allocs"] = json!(allocs);
        serde_json::to_writer(&mut out, &reply).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
