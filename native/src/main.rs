//! Native replay: the harnesses compiled against the same /repo sources, with the unknowns read
//! from the command line.  Line protocol on stdout: `OBS v`, then one of `OK`, `ASSERT code`,
//! `PANIC message`, `PANIC-ALLOWED message`, `ASSUME`, `UNKNOWN-HARNESS`.
#![allow(unused_imports, dead_code, unused_macros)]
#[path = "../../harness/src/all.rs"]
mod all;
mod sym;
use all::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    sym::start(a.get(2).map(|s| s.as_str()).unwrap_or(""));
    let name = a.get(1).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = m.replace('\n', " ");
        if sym::panic_allowed() {
            sym::say(&format!("PANIC-ALLOWED {} at {}", m, l));
            sym::quit(0);
        }
        sym::say(&format!("PANIC {} at {}", m, l));
        sym::quit(1);
    }));
    let f = all::find(&name);
    match f {
        Some(f) => {
            f();
            sym::say("OK");
            sym::quit(0);
        }
        None => {
            sym::say("UNKNOWN-HARNESS");
            sym::quit(2);
        }
    }
}
