//! Line-JSON server around the real `run` function of the wasm wrapper, with
//! the feature set the web interface is built with (no file or network access).
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut lock = stdin.lock();
    let mut out = std::io::stdout();
    let mut line = String::new();
    loop {
        line.clear();
        if lock.read_line(&mut line).unwrap() == 0 {
            return;
        }
        let req: Value = serde_json::from_str(&line).expect("driver request");
        let r = std::panic::catch_unwind(|| {
            json_typegen_wasm::run(
                req["name"].as_str().unwrap(),
                req["input"].as_str().unwrap(),
                req["options"].as_str().unwrap(),
            )
        });
        let reply = match r {
            Ok(s) => json!({"ok": s}),
            Err(e) => {
                let m = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                json!({"panic": m})
            }
        };
        writeln!(out, "{}", reply).unwrap();
        out.flush().unwrap();
    }
}
