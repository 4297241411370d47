//! native replay:  replay <harness> <hex>      one model, human readable
//!                 replay --batch < lines of "<harness> <hex>"  ->  one JSON line each
use std::io::BufRead;
use std::panic::catch_unwind;
use vharness::sx::imp::{Stop, ST};

fn run(name: &str, hex: &str) -> String {
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    let f = match vharness::lookup(name) {
        Some(f) => f,
        None => return r#"{"outcome":"unknown-harness"}"#.to_string(),
    };
    let name = name.to_string();
    let _ = &name;
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            ST.with(|s| s.borrow_mut().bytes = bytes);
            let r = catch_unwind(|| f());
            let (o, msg) = match r {
                Ok(()) => ("ok", String::new()),
                Err(e) => match e.downcast::<Stop>() {
                    Ok(s) => match *s {
                        Stop::Pruned(w) => ("pruned", w.to_string()),
                        Stop::Fail(w) => ("fail", w.to_string()),
                    },
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                        ("panic", m.unwrap_or_default())
                    }
                },
            };
            ST.with(|s| {
                let s = s.borrow();
                serde_json::json!({"outcome": o, "msg": msg, "digest": format!("{:016x}", s.h), "used": s.pos, "notes": s.out}).to_string()
            })
        })
        .unwrap();
    h.join().unwrap_or_else(|_| r#"{"outcome":"crash"}"#.to_string())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--batch" {
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let (n, h) = l.split_once(' ').unwrap_or((&l, ""));
            // a fresh process each: harnesses may use global state
            let o = std::process::Command::new(std::env::current_exe().unwrap()).args([n, h.trim()]).output().unwrap();
            let o = String::from_utf8_lossy(&o.stdout).trim().to_string();
            println!("{}", if o.is_empty() { r#"{"outcome":"crash"}"#.to_string() } else { o });
        }
    } else if a.len() >= 2 {
        let r = run(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or(""));
        println!("{r}");
        if r.contains(r#""outcome":"fail""#) || r.contains(r#""outcome":"panic""#) {
            std::process::exit(1);
        }
    }
}
