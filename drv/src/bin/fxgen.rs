//! Runs the library on specifications. stdin lines: `mode in out`; mode: gen | derive | multi
//! answers `ok`, `err <msg>` or `panic <msg>`; generated text goes to `out`.
use std::io::{BufRead, Write};
fn clean(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\r' { ' ' } else { c }).take(300).collect()
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let p: Vec<&str> = line.split(' ').collect();
            let text = String::from_utf8_lossy(&std::fs::read(p[1]).unwrap()).into_owned();
            let r = std::panic::catch_unwind(|| {
                let g = match p[0] {
                    "derive" => fastxdr::Generator::default().with_derive("#[derive(Debug, Clone, PartialEq)]"),
                    _ => fastxdr::Generator::default(),
                };
                let r = g.generate(&text).map_err(|e| e.to_string());
                if p[0] == "multi" {
                    // interleave with other calls on the same value; every call must agree
                    let _ = g.generate("struct other { opaque x<>; };");
                    let s = g.generate(&text).map_err(|e| e.to_string());
                    if s.is_ok() != r.is_ok() || (r.is_ok() && s != r) {
                        return Err("DIFFERS between calls on one Generator".to_string());
                    }
                    let t = fastxdr::Generator::default().generate(&text).map_err(|e| e.to_string());
                    if t.is_ok() != r.is_ok() || (r.is_ok() && t != r) {
                        return Err("DIFFERS between two Generators".to_string());
                    }
                }
                r
            });
            let msg = match r {
                Ok(Ok(s)) => {
                    if p[2] != "-" { std::fs::write(p[2], s).unwrap(); }
                    "ok".to_string()
                }
                Ok(Err(e)) => format!("err {}", clean(&e)),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("panic {}", clean(&m))
                }
            };
            println!("{}", msg);
            std::io::stdout().flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
}
