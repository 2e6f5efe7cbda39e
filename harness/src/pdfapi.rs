use crate::{guarded, Out};
use std::io::{self, Write};
use std::sync::Arc;
use victor::fonts::{Font, FontError};
use victor::pdf::Document;
use victor::primitives::*;
use victor::text::ShapedSegment;

#[derive(Default)]
pub struct State {
    /// Fonts by the index the driver gave them
    pub fonts: Vec<Option<Arc<Font>>>,
}

fn f(s: &str) -> f32 {
    f32::from_bits(u32::from_str_radix(s, 16).unwrap())
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// font INDEX-payload BYTES: load a font. Reports `ok` or `error …`.
/// An optional third payload is a text to shape with it and show in a document.
pub fn font(state: &mut State, p: &[Vec<u8>], out: &mut Out) {
    let index: usize = std::str::from_utf8(&p[0]).unwrap().parse().unwrap();
    while state.fonts.len() <= index {
        state.fonts.push(None)
    }
    state.fonts[index] = None;
    let font = match Font::parse(p[1].clone()) {
        Ok(font) => font,
        Err(e) => return out.line(format!("error parse {:?}", e)),
    };
    out.line("ok parse");
    if font.bytes() != &*p[1] {
        out.line("bytes differ")
    }
    state.fonts[index] = Some(font.clone());
    if let Some(text) = p.get(2) {
        let text = std::str::from_utf8(text).unwrap();
        let segment = match ShapedSegment::naive_shape(text, font.clone()) {
            Ok(s) => {
                out.line("ok shape");
                s
            }
            Err(e) => {
                out.line(format!("error shape {:?}", e));
                ShapedSegment::naive_shape("", font).unwrap()
            }
        };
        let mut doc = Document::new();
        {
            let mut page = doc.add_page(Size::new(100., 100.));
            let r = page.show_text(&TextRun {
                segment: &segment,
                font_size: Length::new(10.),
                origin: Point::new(5., 7.),
            });
            match r {
                Ok(_) => out.line("ok show"),
                Err(e) => out.line(format!("error show {:?}", e)),
            };
        }
        out.blob(doc.write_to_pdf_bytes())
    }
}

/// A segment built in steps: a append, c one character, s save, r go back to the n-th saved point, k a copy
fn build(steps: &[&str], font: Arc<Font>) -> Result<ShapedSegment, FontError> {
    let mut segment = ShapedSegment::new_with_naive_shaping(font);
    let mut saved = Vec::new();
    for step in steps {
        let (kind, arg) = step.split_at(1);
        match kind {
            "a" => segment.append(String::from_utf8(unhex(arg)).unwrap().chars())?,
            "c" => {
                segment.append_char(String::from_utf8(unhex(arg)).unwrap().chars().next().unwrap())?
            }
            "s" => saved.push(segment.save()),
            "r" => {
                let n: usize = arg.parse().unwrap();
                segment.restore(&saved[n]);
                saved.truncate(n + 1)
            }
            "k" => {
                let mut other = segment.clone();
                other.append("##".chars())?;
                let copy = segment.clone();
                drop(std::mem::replace(&mut segment, copy));
                other.restore(&segment.save())
            }
            _ => panic!("unknown step"),
        }
    }
    Ok(segment)
}

/// Run a script of API calls, one per line.
pub fn run(state: &mut State, p: &[Vec<u8>], out: &mut Out) {
    let script = std::str::from_utf8(&p[0]).unwrap();
    let mut doc = Document::new();
    let mut lines = script.lines().peekable();
    while let Some(line) = lines.next() {
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "page" => {
                let mut page = doc.add_page(Size::new(f(w[1]), f(w[2])));
                while let Some(line) = lines.peek() {
                    let w: Vec<&str> = line.split(' ').collect();
                    match w[0] {
                        "color" => {
                            page.set_color(&RGBA(f(w[1]), f(w[2]), f(w[3]), f(w[4])));
                        }
                        "rect" => {
                            page.paint_rectangle(&rect(f(w[1]), f(w[2]), f(w[3]), f(w[4])));
                        }
                        "text" => {
                            let font = state.fonts[w[1].parse::<usize>().unwrap()].clone().unwrap();
                            let text = String::from_utf8(unhex(w[5])).unwrap();
                            let built = if w.len() > 6 {
                                build(&w[6..], font)
                            } else {
                                ShapedSegment::naive_shape(&text, font)
                            };
                            let segment = match built {
                                Ok(s) => s,
                                Err(e) => {
                                    out.line(format!("error shape {:?}", e));
                                    lines.next();
                                    continue;
                                }
                            };
                            let r = page.show_text(&TextRun {
                                segment: &segment,
                                font_size: Length::new(f(w[2])),
                                origin: Point::new(f(w[3]), f(w[4])),
                            });
                            if let Err(e) = r {
                                out.line(format!("error show {:?}", e))
                            }
                        }
                        _ => break,
                    }
                    lines.next();
                }
            }
            "write" => {
                let bytes = doc.write_to_pdf_bytes();
                out.blob(bytes)
            }
            "faults" => {
                // faults KIND FROM TO STEP: one attempt for each parameter value
                let reference = doc.write_to_pdf_bytes();
                let (from, to, step): (u64, u64, u64) = (
                    w[2].parse().unwrap(),
                    w[3].parse::<u64>().unwrap(),
                    w[4].parse().unwrap(),
                );
                let to = to.min(reference.len() as u64);
                let mut n = from;
                while n <= to {
                    attempt(&doc, w[1], n, &reference, out);
                    n += step;
                }
                // After all this, the document is still as it was.
                let after = doc.write_to_pdf_bytes();
                out.line(format!("after {}", after == reference));
                out.line(format!("len {}", reference.len()));
            }
            "file" => {
                // file PATH LIMIT: with a limit on the size of files of this process
                let reference = doc.write_to_pdf_bytes();
                let path = String::from_utf8(unhex(w[1])).unwrap();
                let limit: i64 = w[2].parse().unwrap();
                if limit >= 0 {
                    set_file_limit(Some(limit as u64));
                }
                let r = guarded(out, |_| doc.write_to_pdf_file(&path));
                if limit >= 0 {
                    set_file_limit(None);
                }
                let content = if path.starts_with("/dev/") {
                    Vec::new()
                } else {
                    std::fs::read(&path).unwrap_or_default()
                };
                if let Some(r) = r {
                    out.line(format!(
                        "file {} accepted={} prefix={} len={}",
                        if r.is_ok() { "ok" } else { "err" },
                        content.len(),
                        reference.starts_with(&content),
                        reference.len(),
                    ))
                }
            }
            other => panic!("unknown command {}", other),
        }
    }
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, limit: *mut [u64; 2]) -> i32;
    fn signal(signal: i32, handler: usize) -> usize;
}

fn set_file_limit(limit: Option<u64>) {
    const RLIMIT_FSIZE: i32 = 1;
    const SIGXFSZ: i32 = 25;
    const SIG_IGN: usize = 1;
    unsafe {
        signal(SIGXFSZ, SIG_IGN);
        let mut l = [0, 0];
        getrlimit(RLIMIT_FSIZE, &mut l);
        l[0] = limit.unwrap_or(l[1]);
        setrlimit(RLIMIT_FSIZE, &l);
    }
}

/// One event of a destination: what a run of calls was offered and answered.
const FAULTS: [io::ErrorKind; 12] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::WriteZero,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidData,
    io::ErrorKind::OutOfMemory,
];

struct Dest<'a> {
    kind: &'a str,
    n: u64,
    calls: u64,
    pos: usize,
    good: bool,
    interrupted: bool,
    rng: u64,
    flushed: bool,
    events: Vec<(char, usize)>,
    reference: &'a [u8],
}

impl<'a> Dest<'a> {
    fn accept(&mut self, buf: &[u8], n: usize) -> io::Result<usize> {
        let n = n.min(buf.len());
        let end = self.pos + n;
        self.good &= self.reference.get(self.pos..end) == Some(&buf[..n]);
        self.pos = end;
        let short = n < buf.len();
        match self.events.last_mut() {
            // Merge runs of completely accepted calls
            Some((c, total)) if *c == 'a' && !short => *total += n,
            _ => self.events.push((if short { 's' } else { 'a' }, n)),
        }
        self.interrupted = false;
        Ok(n)
    }
    fn error(&mut self, kind: io::ErrorKind) -> io::Error {
        self.events.push((if kind == io::ErrorKind::Interrupted { 'i' } else { 'e' }, 0));
        io::Error::new(kind, "injected")
    }
}

impl<'a> Write for Dest<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let call = self.calls;
        self.calls += 1;
        let n = self.n;
        let left = (n as usize).saturating_sub(self.pos);
        match self.kind {
            // an error once n bytes have been accepted, and from then on
            "error" if left == 0 => Err(self.error(io::ErrorKind::Other)),
            // … only once: accepts data again if it is offered any
            "once" if left == 0 && !self.events.iter().any(|e| e.0 == 'e') => {
                Err(self.error(FAULTS[n as usize % FAULTS.len()]))
            }
            "full" if left == 0 => {
                self.events.push(('z', 0));
                Ok(0)
            }
            // nothing is accepted for once: at byte n, or at the nth call
            "zero" if left == 0 && !self.events.iter().any(|e| e.0 == 'z') => {
                self.events.push(('z', 0));
                Ok(0)
            }
            "zero" => self.accept(buf, if left == 0 { buf.len() } else { left }),
            "zerocall" if call == n => {
                self.events.push(('z', 0));
                Ok(0)
            }
            "error" | "full" => self.accept(buf, left),
            "once" => self.accept(buf, if left == 0 { buf.len() } else { left }),
            // error at the nth call, whatever its size
            "errcall" if call == n => Err(self.error(FAULTS[n as usize / 3 % FAULTS.len()])),
            "interrupt" if call == n => Err(self.error(io::ErrorKind::Interrupted)),
            // every call is interrupted first, then accepts at most n + 1 bytes
            "intshort" if !self.interrupted => {
                let e = self.error(io::ErrorKind::Interrupted);
                self.interrupted = true;
                Err(e)
            }
            "intshort" | "short" => self.accept(buf, n as usize + 1),
            "random" => {
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let r = (self.rng >> 33) as usize;
                match r % 8 {
                    0 => Err(self.error(io::ErrorKind::Interrupted)),
                    1..=3 => self.accept(buf, 1 + (r >> 8) % buf.len()),
                    _ => self.accept(buf, buf.len()),
                }
            }
            _ => self.accept(buf, buf.len()),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.flushed = true;
        if self.kind == "flush" {
            return Err(self.error(io::ErrorKind::Other));
        }
        Ok(())
    }
}

fn attempt(doc: &Document, kind: &str, n: u64, reference: &[u8], out: &mut Out) {
    let mut dest = Dest {
        kind,
        n,
        calls: 0,
        pos: 0,
        good: true,
        interrupted: false,
        rng: n.wrapping_mul(0x9E3779B97F4A7C15) + 1,
        flushed: false,
        events: Vec::new(),
        reference,
    };
    let r = guarded(out, |_| doc.write_to_pdf(&mut dest));
    let mut s = format!(
        "attempt {} {} {} {} {} ",
        kind,
        n,
        match &r {
            Some(Ok(())) => "ok",
            Some(Err(_)) => "err",
            None => "panic",
        },
        dest.good,
        dest.pos
    );
    for (c, n) in &dest.events {
        s.push_str(&format!("{}{} ", c, n))
    }
    out.line(s)
}

/// fontmap FONT TEXT: shape the characters one by one, embed the font.
/// `L` "error parse …" or "ok parse", "errors K…" (which characters could not be shaped), "ok show" or "error show …"; `B` the PDF
pub fn fontmap(p: &[Vec<u8>], out: &mut Out) {
    let font = match Font::parse(p[0].clone()) {
        Ok(font) => font,
        Err(e) => return out.line(format!("error parse {:?}", e)),
    };
    out.line("ok parse");
    let text = std::str::from_utf8(&p[1]).unwrap();
    let mut segment = ShapedSegment::new_with_naive_shaping(font.clone());
    let mut errors = String::from("errors");
    for (i, ch) in text.chars().enumerate() {
        if segment.append_char(ch).is_err() {
            errors.push_str(&format!(" {}", i))
        }
    }
    out.line(errors);
    let mut doc = Document::new();
    {
        let mut page = doc.add_page(Size::new(100., 100.));
        let r = page.show_text(&TextRun {
            segment: &segment,
            font_size: Length::new(10.),
            origin: Point::new(5., 7.),
        });
        match r {
            Ok(_) => out.line("ok show"),
            Err(e) => return out.line(format!("error show {:?}", e)),
        };
    }
    out.blob(doc.write_to_pdf_bytes())
}
