mod common;
mod net;
#[cfg(any(feature = "c04", feature = "c05", feature = "c12", feature = "c22", feature = "c10", feature = "c11"))]
mod framing;
#[cfg(any(feature = "c14", feature = "c19", feature = "c18", feature = "c20"))]
mod h2net;
use common::*;
use serde_json::Value;

macro_rules! props {
    ($($f:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $f)] mod $m;)*
        fn run(id: &str, cx: &mut Cx) -> bool {
            match id {
                $(#[cfg(feature = $f)] $f => { $m::run(cx); true })*
                _ => false,
            }
        }
        fn one(id: &str, case: &Value) -> Option<Res> {
            match id {
                $(#[cfg(feature = $f)] $f => Some(guarded($m::one, case)),)*
                _ => None,
            }
        }
    };
}
props! { "c01" c01, "c02" c02, "c03" c03, "c07" c07, "c08" c08, "c09" c09, "c06" c06, "c16" c16, "c13" c13, "c17" c17, "c21" c21, "c19" c19, "c20" c20, "c18" c18, "c15" c15, "c14" c14, "c04" c04, "c05" c05, "c22" c22, "c12" c12, "c11" c11, "c10" c10, "c33" c33, "c34" c34 }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "run" => {
            // run <id> <tier> <seed> <out.json> <replay_dir>
            let id = a[2].to_lowercase();
            *OUT.lock().unwrap() = a[5].clone();
            let mut cx = Cx::new(&a[2], a[3] == "thorough", a[4].parse().unwrap_or(1), &a[6]);
            if !run(&id, &mut cx) {
                eprintln!("unknown property {}", id);
                std::process::exit(2);
            }
            std::fs::write(&a[5], serde_json::to_string_pretty(&cx.report()).unwrap()).unwrap();
            std::process::exit(if cx.violations.is_empty() { 0 } else { 1 });
        }
        "replay" => {
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = doc["property"].as_str().unwrap_or("").to_lowercase();
            match one(&id, &doc["case"]) {
                Some(Ok(_)) => println!("holds on this case"),
                Some(Err(w)) => { println!("violated: {}", w); std::process::exit(1) }
                None => std::process::exit(2),
            }
        }
        _ => std::process::exit(2),
    }
}
