//! Bounded oracle harness: runs the real library against brute-force oracles.
//! It validates the trusted base of the proofs and searches for concrete failing inputs.
//! usage: gbh run PROP SECONDS SEED WORKDIR | gbh replay FILE | gbh list
#![allow(non_snake_case, dead_code, unused_imports)]
mod base;
mod props1;
mod props2;
mod props3;
use base::*;
use std::io::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
    match a[1].as_str() {
        "run" => {
            let (prop, secs, seed, dir) = (a[2].clone(), a[3].parse::<f64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].clone());
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let mut ctx = Ctx::new(&prop, secs, seed, &dir);
                watchdog();
                generate(&prop, &mut ctx);
                ctx.finish();
            }).unwrap();
            h.join().unwrap();
        }
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let line = t.lines().find(|l| l.starts_with("case: ")).expect("no case line")[6..].to_string();
            let c = Case::parse(&line);
            watchdog();
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || match exec(&c) { Ok(()) => { println!("OK: the case passes"); 0 } Err(e) => { println!("FAIL: {e}"); 1 } }).unwrap();
            std::process::exit(h.join().unwrap());
        }
        // distinct non-trivial cases over several processes
        "count" => { let mut all = std::collections::HashSet::new(); for f in &a[2..] { for x in std::fs::read(f).unwrap_or_default().chunks_exact(8) { all.insert(u64::from_le_bytes(x.try_into().unwrap())); } } println!("{}", all.len()); }
        _ => std::process::exit(2),
    }
}
pub fn generate(prop: &str, ctx: &mut Ctx) {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" => props1::generate(prop, ctx),
        "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C19" | "C20" | "C21" => props2::generate(prop, ctx),
        _ => props3::generate(prop, ctx),
    }
}
pub fn run_case(c: &Case) -> R {
    match c.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" => props1::run(c),
        "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C19" | "C20" | "C21" => props2::run(c),
        _ => props3::run(c),
    }
}
