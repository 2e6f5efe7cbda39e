use crate::{guarded, Out};
use victor::dom::Document;

pub fn html(p: &[Vec<u8>], out: &mut Out) {
    for doc in p {
        guarded(out, |out| {
            let pdf = Document::parse_html(doc).to_pdf_bytes();
            out.blob(pdf)
        });
    }
}

pub fn xml(p: &[Vec<u8>], out: &mut Out) {
    for doc in p {
        guarded(out, |out| match Document::parse_xml(doc) {
            Err(e) => out.line(format!("error {}", e)),
            Ok(d) => {
                let pdf = d.to_pdf_bytes();
                out.blob(pdf)
            }
        });
    }
}

/// Render the first document alone, again from the same `Document`, and several times
/// while the other documents are being parsed and rendered by other threads.
/// Reports every result, in that order.
pub fn twice(p: &[Vec<u8>], out: &mut Out) {
    let d = Document::parse_html(&p[0]);
    for _ in 0..2 {
        guarded(out, |out| {
            let b = d.to_pdf_bytes();
            out.blob(b)
        });
    }
    let handles: Vec<_> = (0..4)
        .map(|i| {
            let p = p.to_vec();
            std::thread::spawn(move || {
                let mut results = Vec::new();
                for k in 0..p.len() {
                    let n = (i + k) % p.len();
                    let bytes = Document::parse_html(&p[n]).to_pdf_bytes();
                    if n == 0 {
                        results.push(bytes)
                    }
                }
                results
            })
        })
        .collect();
    for h in handles {
        match h.join() {
            Ok(r) => {
                for b in r {
                    out.blob(b)
                }
            }
            Err(_) => out.parts.push(('P', b"panic in a concurrent rendering".to_vec())),
        }
    }
    guarded(out, |out| {
        let b = d.to_pdf_bytes();
        out.blob(b)
    });
}
