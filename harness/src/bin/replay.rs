//! Runs harnesses natively. Lines on stdin: `<harness> <hex input>`; one result line each:
//! `ok <obs,...>` | `assumed` | `assert <msg>` | `panic <location: msg>` | `unknown`
use std::io::{BufRead, Write};
use std::panic;

fn main() {
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    panic::set_hook(Box::new(move |i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        *l2.lock().unwrap() = format!("{loc}: {}", m.replace('\n', " "));
    }));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split(' ');
        let (h, x) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
        let input: Vec<u8> = (0..x.len() / 2)
            .map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        let res = match rvh::find(h) {
            None => "unknown".to_string(),
            Some(f) => {
                rvh::sx::RUN.with(|r| {
                    *r.borrow_mut() = Default::default();
                    r.borrow_mut().input = input;
                });
                let r = panic::catch_unwind(|| f());
                rvh::sx::RUN.with(|run| {
                    let run = run.borrow();
                    if let Some(m) = run.failed {
                        format!("assert {m}")
                    } else if run.assumed {
                        "assumed".to_string()
                    } else if r.is_err() {
                        format!("panic {}", last.lock().unwrap())
                    } else {
                        format!(
                            "ok {}",
                            run.obs
                                .iter()
                                .map(|v| v.to_string())
                                .collect::<Vec<_>>()
                                .join(",")
                        )
                    }
                })
            }
        };
        let mut o = out.lock();
        writeln!(o, "{res}").unwrap();
        o.flush().unwrap();
    }
}
