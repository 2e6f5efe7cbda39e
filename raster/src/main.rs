//! Runs lester under scripts. Same protocol as the harness in ../harness.

use lester::{ImageSurface, LesterError, PdfDocument};
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

type Part = (char, Vec<u8>);

fn s(p: &[u8]) -> &str {
    std::str::from_utf8(p).unwrap()
}

const KINDS: &[(&str, io::ErrorKind)] = &[
    ("NotFound", io::ErrorKind::NotFound),
    ("PermissionDenied", io::ErrorKind::PermissionDenied),
    ("ConnectionReset", io::ErrorKind::ConnectionReset),
    ("BrokenPipe", io::ErrorKind::BrokenPipe),
    ("WouldBlock", io::ErrorKind::WouldBlock),
    ("InvalidData", io::ErrorKind::InvalidData),
    ("TimedOut", io::ErrorKind::TimedOut),
    ("WriteZero", io::ErrorKind::WriteZero),
    ("Interrupted", io::ErrorKind::Interrupted),
    ("UnexpectedEof", io::ErrorKind::UnexpectedEof),
    ("Other", io::ErrorKind::Other),
];

/// What someone else's stream does at each call: a number of bytes, "i" to be interrupted,
/// "e KIND" an error of its own, "p" panic, also "pstr" and "pString" with a message. The last one again and again.
struct Script {
    steps: Vec<String>,
    at: usize,
    log: Vec<String>,
}

/// The payload of a panic that is not a string
struct Payload(usize);

impl Script {
    fn new(p: &[u8]) -> Self {
        Script {
            steps: s(p).split(',').map(str::to_owned).collect(),
            at: 0,
            log: Vec::new(),
        }
    }
    fn call(&mut self, asked: usize, available: usize) -> io::Result<usize> {
        let step = self.steps[self.at.min(self.steps.len() - 1)].clone();
        self.at += 1;
        if step.starts_with('p') {
            self.log.push(format!("panic {} {}", asked, &step[1..]));
            let message = format!("panic of call {}", self.at);
            match &*step {
                "p" => panic_any(Payload(self.at)),
                // As `panic!("…")` and `panic!("… {}", …)` do
                "pstr" => panic_any(&*Box::leak(message.into_boxed_str())),
                "pString" => panic_any(message),
                _ => unreachable!(),
            }
        }
        if step == "i" {
            self.log.push(format!("interrupted {}", asked));
            return Err(io::ErrorKind::Interrupted.into());
        }
        if step.starts_with("e ") {
            self.log.push(format!("error {} {}", asked, &step[2..]));
            let kind = KINDS.iter().find(|k| k.0 == &step[2..]).unwrap().1;
            return Err(io::Error::new(kind, format!("error of call {}", self.at)));
        }
        let n = asked.min(available).min(step.parse().unwrap());
        self.log.push(format!("{} {}", asked, n));
        Ok(n)
    }
}

struct Reader<'a> {
    script: &'a mut Script,
    data: &'a [u8],
}

impl<'a> Read for Reader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.script.call(buf.len(), self.data.len())?;
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

struct Writer<'a> {
    script: &'a mut Script,
    data: &'a mut Vec<u8>,
}

impl<'a> Write for Writer<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.script.call(buf.len(), usize::max_value())?;
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.script.log.push("flush".into());
        Ok(())
    }
}

fn describe<T>(r: &std::thread::Result<Result<T, LesterError>>) -> String {
    match r {
        Ok(Ok(_)) => "ok".into(),
        Ok(Err(LesterError::Io(e))) => format!(
            "io {} {}",
            KINDS.iter().find(|k| k.1 == e.kind()).map_or("?", |k| k.0),
            e
        ),
        Ok(Err(LesterError::Cairo(e))) => format!("cairo {}", e),
        Ok(Err(LesterError::Glib(e))) => format!("glib {}", e),
        Err(payload) => match (
            payload.downcast_ref::<Payload>(),
            payload.downcast_ref::<&str>(),
            payload.downcast_ref::<String>(),
        ) {
            (Some(p), _, _) => format!("panic of call {}", p.0),
            (_, Some(m), _) if m.starts_with("panic of call ") => format!("{} str", m),
            (_, _, Some(m)) if m.starts_with("panic of call ") => format!("{} String", m),
            (_, m, n) => format!(
                "another panic: {}",
                m.copied().or(n.map(|n| &**n)).unwrap_or("?")
            ),
        },
    }
}

fn pixels(surface: &mut ImageSurface) -> Part {
    let p = surface.pixels();
    let mut out = format!("{} {}\n", p.width, p.height).into_bytes();
    for x in p.buffer.iter() {
        out.extend_from_slice(&x.to_be_bytes())
    }
    ('B', out)
}

/// pngread DATA SCRIPT: `L` log, `L` result, `B` pixels if ok
fn pngread(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let mut script = Script::new(&p[1]);
    let r = catch_unwind(AssertUnwindSafe(|| {
        ImageSurface::read_from_png(Reader {
            script: &mut script,
            data: &p[0],
        })
    }));
    finish_read(script.log, r, out)
}

fn finish_read(
    log: Vec<String>,
    r: std::thread::Result<Result<ImageSurface, LesterError>>,
    out: &mut Vec<Part>,
) {
    out.push(('L', log.join("\n").into_bytes()));
    out.push(('L', describe(&r).into_bytes()));
    if let Ok(Ok(mut surface)) = r {
        match catch_unwind(AssertUnwindSafe(|| pixels(&mut surface))) {
            Ok(p) => out.push(p),
            Err(_) => out.push(('L', b"no pixels".to_vec())),
        }
    }
}

fn surface(p: &[Vec<u8>]) -> ImageSurface {
    let (w, h) = (s(&p[1]).parse().unwrap(), s(&p[2]).parse().unwrap());
    let mut surface = match s(&p[0]) {
        "rgb24" => ImageSurface::new_rgb24(w, h).unwrap(),
        _ => ImageSurface::new_argb32(w, h).unwrap(),
    };
    {
        let pixels = surface.pixels();
        assert_eq!((pixels.width, pixels.height), (w, h));
        for (k, x) in pixels.buffer.iter_mut().enumerate() {
            let mut bytes = [0; 4];
            bytes.copy_from_slice(&p[3][4 * k..4 * k + 4]);
            *x = u32::from_be_bytes(bytes)
        }
    }
    surface
}

/// pngwrite FORMAT WIDTH HEIGHT PIXELS SCRIPT…: for each script `L` log, `L` result, `B` what was taken
fn pngwrite(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let surface = surface(p);
    for script in &p[4..] {
        let mut script = Script::new(script);
        let mut data = Vec::new();
        let r = catch_unwind(AssertUnwindSafe(|| {
            surface.write_to_png(Writer {
                script: &mut script,
                data: &mut data,
            })
        }));
        out.push(('L', script.log.join("\n").into_bytes()));
        out.push(('L', describe(&r).into_bytes()));
        out.push(('B', data));
    }
}

/// pngfile FORMAT WIDTH HEIGHT PIXELS PATH: `L` result
fn pngfile(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let surface = surface(p);
    let r = catch_unwind(AssertUnwindSafe(|| surface.write_to_png_file(s(&p[4]))));
    out.push(('L', describe(&r).into_bytes()));
}

/// readfile PATH: like pngread with an empty log
fn readfile(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        ImageSurface::read_from_png_file(s(&p[0]))
    }));
    finish_read(Vec::new(), r, out)
}

fn hex(bytes: &[u8]) -> String {
    let digits: String = bytes.iter().map(|b| format!("{:02x}", b)).collect();
    format!("utf8 {}", digits)
}

/// pages PDF OPS…: what each operation of a list gives, `L` one line per operation:
/// f front, b back, n K nth, m K nth_back, l len, h size_hint; and at the end
/// c count, L last, r rev().collect, a collect, s K step_by, d collect and close the document;
/// p producer of the document
fn pages(p: &[Vec<u8>], out: &mut Vec<Part>) {
    if let Err(e) = PdfDocument::from_bytes(&p[0]) {
        out.push(('L', format!("error {}", e).into_bytes()));
        return;
    }
    let show = |page: Option<lester::Page>| match page {
        None => "none".to_owned(),
        Some(page) => {
            let (w, h) = page.size_in_ps_points();
            let (pw, ph) = page.size_in_css_px();
            let text = page.text();
            format!("{} {} {} {} {:?}", w, h, pw, ph, text.to_str().unwrap_or("?").trim())
        }
    };
    let all = |pages: Vec<lester::Page>| {
        let v: Vec<_> = pages.into_iter().map(|p| show(Some(p))).collect();
        format!("[{}]", v.join(";"))
    };
    for ops in &p[1..] {
        let mut lines = Vec::new();
        let doc = PdfDocument::from_bytes(&p[0]).unwrap();
        let mut iter = Some(doc.pages());
        let mut kept = None;
        for op in s(ops).split(',').filter(|o| !o.is_empty()) {
            let mut w = op.split(' ');
            let name = w.next().unwrap();
            let k = w.next().map_or(0, |x| x.parse().unwrap());
            if name == "p" {
                lines.push(match doc.producer() {
                    None => "none".to_owned(),
                    Some(p) => hex(p.to_str().unwrap_or("?").as_bytes()),
                });
                continue;
            }
            let i = iter.as_mut().unwrap();
            lines.push(match name {
                "f" => show(i.next()),
                "b" => show(i.next_back()),
                "n" => show(i.nth(k)),
                "m" => show(i.nth_back(k)),
                "l" => i.len().to_string(),
                "h" => format!("{:?}", i.size_hint()),
                "c" => iter.take().unwrap().count().to_string(),
                "L" => show(iter.take().unwrap().last()),
                "r" => all(iter.take().unwrap().rev().collect()),
                "a" => all(iter.take().unwrap().collect()),
                "s" => all(iter.take().unwrap().step_by(k).collect()),
                "d" => {
                    kept = Some(iter.take().unwrap().collect::<Vec<_>>());
                    break;
                }
                _ => panic!("unknown op {}", op),
            })
        }
        drop(iter);
        drop(doc);
        if let Some(pages) = kept {
            lines.push(all(pages))
        }
        out.push(('L', lines.join("\n").into_bytes()))
    }
}

/// render PDF PAGE DPPX_X DPPX_Y WHITE PRINTING HOW: `L` result, `B` pixels
/// HOW: "options", or "dppx" or "default" for the methods that set some of them
fn render(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let doc = PdfDocument::from_bytes(&p[0]).unwrap();
    let page = doc.pages().nth(s(&p[1]).parse().unwrap()).unwrap();
    let dppx = s(&p[2]).parse().unwrap();
    let r = match s(&p[6]) {
        "default" => page.render(),
        "dppx" => page.render_with_dppx(dppx),
        _ => page.render_with_options(lester::RenderOptions {
            dppx_x: dppx,
            dppx_y: s(&p[3]).parse().unwrap(),
            backdrop: if s(&p[4]) == "1" {
                lester::Backdrop::White
            } else {
                lester::Backdrop::Transparent
            },
            for_printing: s(&p[5]) == "1",
        }),
    };
    match r {
        Ok(mut surface) => {
            let (w, h) = page.size_in_ps_points();
            out.push(('L', format!("ok {} {}", w, h).into_bytes()));
            out.push(pixels(&mut surface))
        }
        Err(e) => out.push(('L', format!("cairo {}", e).into_bytes())),
    }
}

/// look PDF DPPX POINTS: `L` pages in the file, size of the image of the first on white,
/// `B` red, green and blue at these points ("X Y,…"), `B` text
fn look(p: &[Vec<u8>], out: &mut Vec<Part>) {
    let doc = match PdfDocument::from_bytes(&p[0]) {
        Ok(doc) => doc,
        Err(e) => {
            out.push(('L', format!("error {}", e).into_bytes()));
            return;
        }
    };
    let count = doc.pages().len();
    let page = match doc.pages().next() {
        Some(page) => page,
        None => {
            out.push(('L', b"0 0 0".to_vec()));
            return;
        }
    };
    let dppx = s(&p[1]).parse().unwrap();
    let mut surface = page
        .render_with_options(lester::RenderOptions {
            dppx_x: dppx,
            dppx_y: dppx,
            backdrop: lester::Backdrop::White,
            for_printing: false,
        })
        .unwrap();
    let pixels = surface.pixels();
    out.push((
        'L',
        format!("{} {} {}", count, pixels.width, pixels.height).into_bytes(),
    ));
    let mut colours = Vec::new();
    for point in s(&p[2]).split(',').filter(|x| !x.is_empty()) {
        let mut w = point.split(' ').map(|x| x.parse::<usize>().unwrap());
        let (x, y) = (w.next().unwrap(), w.next().unwrap());
        let at = y * pixels.width + x;
        colours.extend_from_slice(&pixels.buffer.get(at).map_or([0; 4], |c| c.to_be_bytes())[1..])
    }
    out.push(('B', colours));
    out.push(('B', page.text().to_str().unwrap_or("?").as_bytes().to_vec()));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = io::stdin();
    let mut stdin = stdin.lock();
    let stdout = io::stdout();
    let mut stdout = stdout.lock();
    loop {
        let mut header = String::new();
        if stdin.read_line(&mut header).unwrap() == 0 {
            return;
        }
        let mut words = header.split_whitespace();
        let mode = words.next().unwrap().to_owned();
        let mut payloads = Vec::new();
        for len in words {
            let mut buf = vec![0; len.parse().unwrap()];
            stdin.read_exact(&mut buf).unwrap();
            payloads.push(buf);
        }
        let mut out = Vec::new();
        let r = catch_unwind(AssertUnwindSafe(|| match &*mode {
            "pngread" => pngread(&payloads, &mut out),
            "pngwrite" => pngwrite(&payloads, &mut out),
            "pngfile" => pngfile(&payloads, &mut out),
            "readfile" => readfile(&payloads, &mut out),
            "pages" => pages(&payloads, &mut out),
            "look" => look(&payloads, &mut out),
            "render" => render(&payloads, &mut out),
            _ => panic!("unknown mode {}", mode),
        }));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            out.push(('P', m.unwrap_or_default().into_bytes()))
        }
        for (tag, payload) in &out {
            write!(stdout, "{} {}\n", tag, payload.len()).unwrap();
            stdout.write_all(payload).unwrap();
        }
        stdout.write_all(b"E 0\n").unwrap();
        stdout.flush().unwrap();
    }
}
