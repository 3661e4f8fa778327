//! Drives the library entry point: one request per line `main\tinc\tinc..`, one answer per line.
use std::io::{BufRead, Write};
use std::path::PathBuf;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut parts = line.split('\t').map(PathBuf::from);
        let main = parts.next().unwrap();
        let incs: Vec<PathBuf> = parts.collect();
        // A small stack keeps runaway recursion from hiding behind a large one; 8 MiB is what a main thread has.
        let r = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || match idlc::Language::Rust.generate(&incs, &main) {
                Ok(d) => format!("OK {}", d.len()),
                Err(e) => format!("ERR {}", one_line(&e.to_string())),
            })
            .unwrap()
            .join()
            .unwrap_or_else(|e| {
                let what = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                    .unwrap_or_default();
                format!("PANIC {}", one_line(&what))
            });
        println!("{r}");
        std::io::stdout().flush().unwrap();
    }
}

/// Messages quote the input, which may hold any kind of line break.
fn one_line(message: &str) -> String {
    message.chars().map(|c| if c.is_control() { ' ' } else { c }).collect()
}
