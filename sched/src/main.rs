//! Renders documents under given schedules.
//! Same protocol as the harness in ../harness.

use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Mutex};
use victor::dom::Document;

static PANIC: Mutex<String> = Mutex::new(String::new());

type Part = (char, Vec<u8>);

fn guarded(f: impl FnOnce() -> Part) -> Part {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| {
        (
            'P',
            PANIC.lock().map(|m| m.clone()).unwrap_or_default().into(),
        )
    })
}

fn render(doc: &[u8]) -> Part {
    guarded(|| ('B', Document::parse_html(doc).to_pdf_bytes()))
}

fn num(p: &[u8]) -> usize {
    std::str::from_utf8(p).unwrap().parse().unwrap()
}

/// control THREADS DOC DECISIONS…: one rendering for each list of decisions; the log, then the PDF
fn control(p: &[Vec<u8>], out: &mut Vec<Part>) {
    for decisions in &p[2..] {
        rayon_core::verif::begin(num(&p[0]), decisions.iter().map(|b| b - b'0').collect());
        let r = render(&p[1]);
        let log = rayon_core::verif::end();
        let log: String = log
            .iter()
            .map(|(what, id)| format!("{}{} ", what, id))
            .collect();
        out.push(('L', log.into_bytes()));
        out.push(r)
    }
}

/// pool THREADS NOISE TIMES DOC…: each in a pool of that many threads, that often
fn pool(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let threads = num(&p[0]);
    rayon_core::verif::set_noise(num(&p[1]));
    let pool = rayon::ThreadPoolBuilder::new()
        .num_threads(threads)
        .stack_size(8 << 20)
        .build()
        .unwrap();
    for doc in &p[3..] {
        for _ in 0..num(&p[2]) {
            out.push(pool.install(|| render(doc)))
        }
    }
    rayon_core::verif::set_noise(0)
}

/// crowd PEOPLE NOISE DOC…: as many threads as PEOPLE, each with its own order, start at the same time.
/// The history as everyone saw it: `L` "begin PERSON DOC" and "end PERSON DOC", each end followed by its result
fn crowd(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let people = num(&p[0]);
    rayon_core::verif::set_noise(num(&p[1]));
    let docs: Arc<Vec<Vec<u8>>> = Arc::new(p[2..].to_vec());
    let history = Arc::new(Mutex::new(Vec::new()));
    let barrier = Arc::new(Barrier::new(people));
    let threads: Vec<_> = (0..people)
        .map(|me| {
            let (docs, history, barrier) = (docs.clone(), history.clone(), barrier.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    barrier.wait();
                    for k in 0..docs.len() {
                        let n = (k * (me % 3 + 1) + me) % docs.len();
                        let say = |what| ('L', format!("{} {} {}", what, me, n).into_bytes());
                        history.lock().unwrap().push(say("begin"));
                        let mut results = Vec::new();
                        let document = Document::parse_html(&docs[n]);
                        for _ in 0..1 + me % 2 {
                            results.push(guarded(|| ('B', document.to_pdf_bytes())))
                        }
                        let mut h = history.lock().unwrap();
                        h.push(say("end"));
                        h.extend(results)
                    }
                })
                .unwrap()
        })
        .collect();
    for t in threads {
        let _ = t.join();
    }
    out.append(&mut history.lock().unwrap());
    rayon_core::verif::set_noise(0)
}

/// shared THREADS DOC: one `Document`, rendered by several threads one after the other
fn again(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let document = Document::parse_html(&p[1]);
    for _ in 0..num(&p[0]) {
        out.push(guarded(|| ('B', document.to_pdf_bytes())))
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut m) = PANIC.lock() {
            *m = format!("{}", info);
        }
    }));
    let stdin = io::stdin();
    let mut stdin = stdin.lock();
    let stdout = io::stdout();
    let mut stdout = stdout.lock();
    loop {
        let mut header = String::new();
        if stdin.read_line(&mut header).unwrap() == 0 {
            return;
        }
        let mut words = header.split_whitespace();
        let mode = words.next().unwrap().to_owned();
        let mut payloads = Vec::new();
        for len in words {
            let mut buf = vec![0; len.parse().unwrap()];
            stdin.read_exact(&mut buf).unwrap();
            payloads.push(buf);
        }
        let mut out = Vec::new();
        match &*mode {
            "control" => control(&payloads, &mut out),
            "pool" => pool(&payloads, &mut out),
            "crowd" => crowd(&payloads, &mut out),
            "again" => again(&payloads, &mut out),
            _ => panic!("unknown mode {}", mode),
        }
        for (tag, payload) in &out {
            write!(stdout, "{} {}\n", tag, payload.len()).unwrap();
            stdout.write_all(payload).unwrap();
        }
        stdout.write_all(b"E 0\n").unwrap();
        stdout.flush().unwrap();
    }
}
