mod ctrsrv;
mod mathsrv;
mod uintsrv;
mod svc;
use std::io::{BufRead, Write};
use std::sync::{atomic::{AtomicU64, Ordering::SeqCst}, Mutex};
static BUF: Mutex<String> = Mutex::new(String::new());
static LINE: AtomicU64 = AtomicU64::new(0);
fn flush(b: &mut String) { let mut o = std::io::stdout().lock(); o.write_all(b.as_bytes()).unwrap(); o.flush().unwrap(); b.clear() }
/// seconds of processor time the main thread has used (0 where the system does not tell)
fn used() -> u64 { std::fs::read_to_string("/proc/self/schedstat").ok().and_then(|s| s.split_whitespace().next()?.parse::<u64>().ok()).unwrap_or(0) / 1_000_000_000 }
/// one call that has used 15 s of processor time does not come back: say so and stop
fn watchdog() {
    let (mut line, mut since) = (0, used());
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let l = LINE.load(SeqCst);
        if l != line { line = l; since = used(); }
        else if used() > since + 15 { let mut b = BUF.lock().unwrap(); if LINE.load(SeqCst) == line { b.push_str("hang\n"); flush(&mut b); std::process::exit(0) } }
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { if std::env::var("VX_PANIC").is_ok() { eprintln!("{i}") } }));
    match args.get(1).map(|s| s.as_str()) {
        Some("math") => {
            std::thread::spawn(watchdog);
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap(); if l == "." { flush(&mut BUF.lock().unwrap()); continue }
                let r = std::panic::catch_unwind(|| { let mut a = mathsrv::Args(l.split_whitespace()); let n = a.s(); mathsrv::call(n, &mut a) });
                use std::fmt::Write;
                let mut out = BUF.lock().unwrap(); LINE.fetch_add(1, SeqCst); let out = &mut *out;
                match r { Ok(Some(s)) => writeln!(out, "ok {s}"), Ok(None) => writeln!(out, "err"), Err(e) => { let m = e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or(""); writeln!(out, "{}", if m.starts_with("range:") { "bad" } else { "panic" }) } }.unwrap();
            }
        }
        Some("svc") => {
            let mut s = svc::Server::new();
            let mut inp = std::io::stdin().lock(); let mut l = String::new();
            std::thread::spawn(watchdog);
            while { l.clear(); inp.read_line(&mut l).unwrap_or(0) > 0 } {
                let t = l.trim(); if t == "." { flush(&mut BUF.lock().unwrap()); continue }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.line(t)));
                let mut buf = BUF.lock().unwrap(); LINE.fetch_add(1, SeqCst);
                buf.push_str(&r.unwrap_or_else(|_| "bad".into())); buf.push('\n');
            }
        }
        _ => { eprintln!("usage: replay math | ..."); std::process::exit(2) }
    }
}
