use kit::nd::*;
use kit::{registry, Entry, Kind};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

fn run_one(e: &Entry, s: &mut Src) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| (e.f)(s))) {
        Ok(()) => Ok(true),
        Err(p) => {
            if p.is::<Discard>() { return Ok(false); }
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
            Err(m)
        }
    }
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}
/// run `kit run PROP SEED MILLIS [contract]`  | `kit replay PROP CONTRACT d,d,d`
fn main() {
    let a: Vec<String> = std::env::args().collect();
    static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    let _ = &LAST;
    std::panic::set_hook(Box::new(|i| { *LAST.lock().unwrap_or_else(|e| e.into_inner()) = format!("{}", i); }));
    let prop = &a[2];
    if a[1] == "replay" {
        let e = registry().into_iter().find(|e| e.prop == prop && e.name == a[3]).expect("no such contract");
        let d: Vec<u64> = a[4].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let mut s = Src::replay(d);
        match run_one(&e, &mut s) {
            Ok(v) => { println!("{{\"contract\":\"{}\",\"holds\":true,\"in_precondition\":{}}}", e.name, v); }
            Err(_) => { println!("{{\"contract\":\"{}\",\"holds\":false,\"message\":\"{}\"}}", e.name, esc(&LAST.lock().unwrap())); std::process::exit(1); }
        }
        return;
    }
    let seed: u64 = a[3].parse().unwrap();
    let ms: u128 = a[4].parse().unwrap();
    let only = a.get(5);
    let mut bad = false;
    for e in registry().into_iter().filter(|e| e.prop == prop && only.map_or(true, |o| o == e.name)) {
        let t0 = Instant::now();
        let (mut n, mut d, mut complete, mut stopped) = (0u64, 0u64, false, false);
        let mut fail: Option<(Vec<u64>, String)> = None;
        let mut go = |s: &mut Src, n: &mut u64, d: &mut u64| -> bool {
            match run_one(&e, s) {
                Ok(true) => { *n += 1; true }
                Ok(false) => { *d += 1; true }
                Err(_) => { fail = Some((s.draws[..s.pos.min(s.draws.len())].to_vec(), LAST.lock().unwrap_or_else(|e| e.into_inner()).clone())); false }
            }
        };
        match e.kind {
            Kind::Enum | Kind::EnumFull => {
                let mut s = Src::odometer();
                let cap = if e.kind == Kind::EnumFull { 120_000 } else { ms };
                loop {
                    s.reset();
                    if !go(&mut s, &mut n, &mut d) { break; }
                    if !s.advance() { complete = true; break; }
                    if n % 64 == 0 && t0.elapsed().as_millis() > cap { stopped = true; break; }
                }
            }
            Kind::Fuzz => stopped = true,
        }
        // fuzzed contracts, and what enumeration did not reach in its time: random inputs
        if stopped && e.kind != Kind::EnumFull {
                let mut i = 0u64; let t0 = Instant::now();
                loop {
                    let mut s = Src::random(seed.wrapping_mul(1_000_003).wrapping_add(i));
                    if !go(&mut s, &mut n, &mut d) { break; }
                    i += 1;
                    if i % 64 == 0 && t0.elapsed().as_millis() > ms { break; }
                    if i > 5_000_000 { break; }
                }
        }
        let st = match &fail {
            None => format!("\"holds\":true"),
            Some((dr, m)) => { bad = true; format!("\"holds\":false,\"draws\":\"{}\",\"message\":\"{}\"", dr.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), esc(m)) }
        };
        println!("{{\"prop\":\"{}\",\"contract\":\"{}\",\"covers\":\"{}\",\"kind\":\"{:?}\",\"evaluations\":{},\"discarded\":{},\"complete\":{},{}}}", e.prop, e.name, esc(e.covers), e.kind, n, d, complete, st);
        std::io::stdout().flush().unwrap();
    }
    std::process::exit(if bad { 1 } else { 0 });
}
