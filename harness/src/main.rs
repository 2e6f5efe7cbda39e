//! Runs the real code on inputs given on stdin and reports what it did.
//!
//! Request:  `MODE LEN1 LEN2 …\n` then the payloads.
//! Response: any number of parts `TAG LEN\n` + payload, then `E 0\n`.
//! A panic of the code under test is data: part `P` with its message.

mod dom;
mod pdfapi;
mod plain;
mod render;

use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub struct Out {
    pub parts: Vec<(char, Vec<u8>)>,
}

impl Out {
    pub fn line(&mut self, s: impl Into<String>) {
        self.parts.push(('L', s.into().into_bytes()))
    }
    pub fn blob(&mut self, b: Vec<u8>) {
        self.parts.push(('B', b))
    }
}

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn guarded<R>(out: &mut Out, f: impl FnOnce(&mut Out) -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(|| f(out))) {
        Ok(r) => Some(r),
        Err(_) => {
            let message = PANIC.lock().map(|m| m.clone()).unwrap_or_default();
            out.parts.push(('P', message.into_bytes()));
            None
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut m) = PANIC.lock() {
            *m = format!("{}", info);
        }
    }));
    let stdin = io::stdin();
    let mut stdin = stdin.lock();
    let stdout = io::stdout();
    let mut stdout = stdout.lock();
    let mut state = pdfapi::State::default();
    loop {
        let mut header = String::new();
        if stdin.read_line(&mut header).unwrap() == 0 {
            return;
        }
        let mut words = header.split_whitespace();
        let mode = words.next().unwrap().to_owned();
        let mut payloads = Vec::new();
        for len in words {
            let mut buf = vec![0; len.parse().unwrap()];
            stdin.read_exact(&mut buf).unwrap();
            payloads.push(buf);
        }
        let mut out = Out { parts: Vec::new() };
        guarded(&mut out, |out| match &*mode {
            "html" => render::html(&payloads, out),
            "xml" => render::xml(&payloads, out),
            "twice" => render::twice(&payloads, out),
            "dom" => dom::html(&payloads, out),
            "domxml" => dom::xml(&payloads, out),
            "pdf" => pdfapi::run(&mut state, &payloads, out),
            "font" => pdfapi::font(&mut state, &payloads, out),
            "fontmap" => pdfapi::fontmap(&payloads, out),
            #[cfg(victor_verif)]
            "serialize" => {
                let kind = String::from_utf8(payloads[0].clone()).unwrap();
                for p in &payloads[1..] {
                    out.blob(victor::pdf::verif_serialize(&kind, p))
                }
            }
            #[cfg(not(victor_verif))]
            "serialize" => out.line("unavailable"),
            "breaks" => plain::breaks(&payloads, out),
            "plain" => plain::run(&mut state, &payloads, out),
            _ => panic!("unknown mode {}", mode),
        });
        for (tag, payload) in &out.parts {
            write!(stdout, "{} {}\n", tag, payload.len()).unwrap();
            stdout.write_all(payload).unwrap();
        }
        stdout.write_all(b"E 0\n").unwrap();
        stdout.flush().unwrap();
    }
}
