// runs one scripted scenario on the program: ends with 0 when it goes as it should
#![allow(dead_code, unused_imports, clippy::all)]
mod abi;
mod ext;
mod focus;
mod gen;
mod model;
mod params;
mod predict;
mod progs;
mod rng;
mod svm;
mod world;
mod demo;
mod kit;

fn main() {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let mut out = unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(keep)
    };
    svm::install();
    let r = std::panic::catch_unwind(demo::run).unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        Err(format!("panic: {}", m.unwrap_or_default()))
    });
    match r {
        Ok(()) => {
            let _ = writeln!(out, "as it should be");
        }
        Err(e) => {
            let _ = writeln!(out, "BROKEN: {e}");
            std::process::exit(1);
        }
    }
}
