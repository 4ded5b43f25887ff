//! kpy NAME [tries] v1,v2,...   the binding and the Rust function side by side
use kpy::src::{Replay, Skip};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
static LAST: Mutex<String> = Mutex::new(String::new());
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = &a[1];
    let tries: u64 = a[2].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        *LAST.lock().unwrap() = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default());
    }));
    for t in 0..tries {
        let mut r = Replay { list: vec![], pos: 0, seed: t * 977 + 13 };
        match catch_unwind(AssertUnwindSafe(|| kpy::run(name, &mut r))) {
            Ok(true) => {}
            Ok(false) => {
                println!("UNKNOWN {name}");
                std::process::exit(2)
            }
            Err(p) if p.is::<Skip>() => {}
            Err(_) => {
                println!("CONFIRMED {name} try={t}: {}", LAST.lock().unwrap());
                std::process::exit(1)
            }
        }
    }
    println!("NOT-CONFIRMED {name}");
}
