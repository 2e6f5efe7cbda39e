use crate::pdfapi::State;
use crate::Out;
use victor::primitives::{Length, Size};
use victor::text_plain::{layout, Style};

fn f(s: &str) -> f32 {
    f32::from_bits(u32::from_str_radix(s, 16).unwrap())
}

/// plain PARAMS TEXT, params: font width height margin (mm) font_size line_height justify
pub fn run(state: &mut State, p: &[Vec<u8>], out: &mut Out) {
    let params = std::str::from_utf8(&p[0]).unwrap();
    let w: Vec<&str> = params.split(' ').collect();
    let style = Style {
        font: state.fonts[w[0].parse::<usize>().unwrap()].clone().unwrap(),
        page_size: Size::new(f(w[1]), f(w[2])),
        page_margin: Length::new(f(w[3])),
        font_size: Length::new(f(w[4])),
        line_height: f(w[5]),
        justify: w[6] == "1",
    };
    for text in &p[1..] {
        match layout(std::str::from_utf8(text).unwrap(), &style) {
            Err(e) => out.line(format!("error {:?}", e)),
            Ok(d) => out.blob(d.write_to_pdf_bytes()),
        }
    }
}

/// breaks TEXT…: where a line may or must end, by the crate the code under test asks
pub fn breaks(p: &[Vec<u8>], out: &mut Out) {
    for text in p {
        let mut s = String::new();
        for (position, hard) in xi_unicode::LineBreakIterator::new(std::str::from_utf8(text).unwrap()) {
            s.push_str(&format!("{} {} ", position, hard as u8))
        }
        out.line(s)
    }
}
