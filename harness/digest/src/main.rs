//! Answers requests for digests, one a line, until its input ends.
#![allow(unexpected_cfgs)]
mod digest;
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let run = || {
        let out = std::io::stdout();
        for line in std::io::stdin().lock().lines() {
            let q: digest::Req = serde_json::from_str(&line.expect("line")).expect("request");
            let r = serde_json::to_string(&digest::digest(&q)).expect("answer");
            let mut out = out.lock();
            writeln!(out, "{}{r}", digest::MARK).expect("write");
            out.flush().expect("flush");
        }
    };
    std::thread::Builder::new().stack_size(8 << 20).spawn(run).expect("spawn").join().expect("join");
}
