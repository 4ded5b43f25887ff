//! kanix NAME [tries] v1,v2,...   replay a counterexample of a harness on real floats
//! With KANIX_HEAP set, a run that allocates is the failure looked for, and panics are not.
use kanix::src::{Replay, Skip, heap};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::Ordering::Relaxed;
#[global_allocator]
static GLOBAL: heap::Counting = heap::Counting;
static LAST: Mutex<String> = Mutex::new(String::new());
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = &a[1];
    let tries: u64 = a[2].parse().unwrap();
    let list: Vec<u64> = a.get(3).map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    std::panic::set_hook(Box::new(|i| {
        heap::ARMED.store(false, Relaxed);
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        *LAST.lock().unwrap() = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default());
    }));
    let heap_mode = std::env::var_os("KANIX_HEAP").is_some();
    for t in 0..tries {
        for f in 0..2 {
            // first every choice as recorded, then only the float classes, then free
            let mut r = Replay { list: list.clone(), pos: 0, pin: t % 4 != 3, seed: t * 977 + 13, log: vec![] };
            heap::COUNT.store(0, Relaxed);
            heap::ARMED.store(true, Relaxed);
            let e = catch_unwind(AssertUnwindSafe(|| if f == 0 { kanix::run::<f64>(name, &mut r) } else { kanix::run::<f32>(name, &mut r) }));
            heap::ARMED.store(false, Relaxed);
            let count = heap::COUNT.load(Relaxed);
            match e {
                Ok(true) if heap_mode && count > 0 => {
                    println!("CONFIRMED {name} type={} choices=[{}]: {count} heap allocations", if f == 0 { "f64" } else { "f32" }, r.log.join(", "));
                    std::process::exit(1)
                }
                Ok(true) => {}
                Err(_) if heap_mode => {}
                Ok(false) => {
                    println!("UNKNOWN {name}");
                    std::process::exit(2)
                }
                Err(p) if p.is::<Skip>() => {}
                Err(_) => {
                    println!("CONFIRMED {name} type={} choices=[{}]: {}", if f == 0 { "f64" } else { "f32" }, r.log.join(", "), LAST.lock().unwrap());
                    std::process::exit(1)
                }
            }
        }
    }
    println!("NOT-CONFIRMED {name}");
}
