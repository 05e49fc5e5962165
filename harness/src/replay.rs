//! Runs harnesses natively on concrete inputs: `NAME PARAM HEX` per line of standard input; one result line each.
use scxh::sym::imp::{Assumed, Failed, Run, RUN};
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--list").unwrap_or(false) {
        let mut first = true;
        print!("[");
        for h in scxh::table() {
            if !first { print!(",") }
            first = false;
            print!("{{\"name\":{:?},\"property\":{:?},\"params\":{},\"deep_params\":{},\"covers\":{:?},\"bounds\":{:?},\"own\":{:?}}}", h.name, h.property, h.params, h.deep_params, h.covers, h.bounds, h.own);
        }
        println!("]");
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{m} at {at}").replace('\n', " "));
    }));
    std::thread::Builder::new().stack_size(256 << 20).spawn(go).unwrap().join().unwrap();
}
thread_local! { static LAST: std::cell::RefCell<String> = Default::default(); }
fn go() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split(' ');
        let (n, p, x) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap_or(""));
        let h = scxh::table().into_iter().find(|h| h.name == n).expect("harness");
        let f = h.run;
        RUN.with(|r| *r.borrow_mut() = Run { input: unhex(x), param: p.parse().unwrap(), ..Default::default() });
        let res = std::panic::catch_unwind(|| f());
        let out = RUN.with(|r| hex(&r.borrow().out));
        let s = match res {
            Ok(()) => format!("OK {out}"),
            Err(e) if e.is::<Assumed>() => "ASSUMED".to_string(),
            Err(e) if e.is::<Failed>() => format!("FAIL {}", e.downcast_ref::<Failed>().unwrap().0),
            Err(_) => format!("PANIC {}", LAST.with(|l| l.borrow().clone())),
        };
        println!("{s}");
        std::io::stdout().flush().unwrap();
    }
}
