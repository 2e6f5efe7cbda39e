//! What the parsers ask for, recorded by a sink of our own, and the document victor made of it.

use crate::{guarded, Out};
use html5ever::interface::tree_builder::{ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::tendril::{StrTendril, TendrilSink};
use html5ever::{parse_document, Attribute, ExpandedName, QualName};
use std::borrow::Cow;
use victor::dom::Document;
use xml::reader::XmlEvent;

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn list<'a>(strings: impl IntoIterator<Item = &'a str>) -> String {
    let v: Vec<_> = strings.into_iter().map(json).collect();
    format!("[{}]", v.join(","))
}

/// a, b: handles; n: handle of the inserted node or 0 for text; s: strings; attributes as triples
fn op(name: &str, a: usize, b: usize, n: usize, s: &[&str], attrs: &[(String, String, String)]) -> String {
    let attrs: Vec<_> = attrs.iter().map(|(x, y, z)| list(vec![&**x, &**y, &**z])).collect();
    format!(
        "{{\"op\":\"{}\",\"a\":{},\"b\":{},\"n\":{},\"s\":{},\"attrs\":[{}]}}",
        name,
        a,
        b,
        n,
        list(s.iter().copied()),
        attrs.join(",")
    )
}

struct Recorder {
    /// Of each handle; the document has number 1
    names: Vec<Option<(QualName, bool)>>,
    ops: Vec<String>,
}

fn triples(attrs: &[Attribute]) -> Vec<(String, String, String)> {
    attrs
        .iter()
        .map(|a| (a.name.ns.to_string(), a.name.local.to_string(), a.value.to_string()))
        .collect()
}

impl Recorder {
    fn new_handle(&mut self, name: Option<(QualName, bool)>) -> usize {
        self.names.push(name);
        self.names.len() - 1
    }

    fn insert(&mut self, name: &str, a: usize, b: usize, child: NodeOrText<usize>) {
        self.ops.push(match child {
            NodeOrText::AppendNode(n) => op(name, a, b, n, &[], &[]),
            NodeOrText::AppendText(t) => op(name, a, b, 0, &[&t], &[]),
        })
    }
}

impl TreeSink for Recorder {
    type Handle = usize;
    type Output = Vec<String>;

    fn finish(self) -> Vec<String> {
        self.ops
    }
    fn parse_error(&mut self, _: Cow<'static, str>) {}
    fn get_document(&mut self) -> usize {
        1
    }
    fn set_quirks_mode(&mut self, _: QuirksMode) {}
    fn same_node(&self, x: &usize, y: &usize) -> bool {
        x == y
    }
    fn elem_name<'a>(&'a self, &target: &'a usize) -> ExpandedName<'a> {
        self.names[target].as_ref().unwrap().0.expanded()
    }
    /// The contents of templates stay in the tree
    fn get_template_contents(&mut self, &target: &usize) -> usize {
        target
    }
    fn is_mathml_annotation_xml_integration_point(&self, &target: &usize) -> bool {
        self.names[target].as_ref().unwrap().1
    }
    fn create_element(&mut self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> usize {
        let s = [&*name.ns, &*name.local];
        self.ops.push(op("element", 0, 0, 0, &s, &triples(&attrs)));
        let flag = flags.mathml_annotation_xml_integration_point;
        self.new_handle(Some((name.clone(), flag)))
    }
    fn create_comment(&mut self, text: StrTendril) -> usize {
        self.ops.push(op("comment", 0, 0, 0, &[&text], &[]));
        self.new_handle(None)
    }
    fn create_pi(&mut self, target: StrTendril, data: StrTendril) -> usize {
        self.ops.push(op("pi", 0, 0, 0, &[&target, &data], &[]));
        self.new_handle(None)
    }
    fn append(&mut self, &parent: &usize, child: NodeOrText<usize>) {
        self.insert("append", parent, 0, child)
    }
    fn append_before_sibling(&mut self, &sibling: &usize, child: NodeOrText<usize>) {
        self.insert("before", sibling, 0, child)
    }
    fn append_based_on_parent_node(&mut self, &element: &usize, &prev_element: &usize, child: NodeOrText<usize>) {
        self.insert("based", element, prev_element, child)
    }
    fn append_doctype_to_document(&mut self, name: StrTendril, public_id: StrTendril, system_id: StrTendril) {
        self.ops.push(op("doctype", 0, 0, 0, &[&name, &public_id, &system_id], &[]))
    }
    fn add_attrs_if_missing(&mut self, &target: &usize, attrs: Vec<Attribute>) {
        self.ops.push(op("attrs", target, 0, 0, &[], &triples(&attrs)))
    }
    fn remove_from_parent(&mut self, &target: &usize) {
        self.ops.push(op("remove", target, 0, 0, &[], &[]))
    }
    fn reparent_children(&mut self, &node: &usize, &new_parent: &usize) {
        self.ops.push(op("reparent", node, new_parent, 0, &[], &[]))
    }
}

fn html_ops(bytes: &[u8]) -> Vec<String> {
    let sink = Recorder { names: vec![None, None], ops: Vec::new() };
    parse_document(sink, Default::default()).from_utf8().one(bytes)
}

fn xml_ops(bytes: &[u8]) -> Result<Vec<String>, String> {
    let mut ops = Vec::new();
    for event in xml::EventReader::new(bytes) {
        match event.map_err(|e| e.to_string())? {
            XmlEvent::StartElement { name, attributes, .. } => {
                let attrs: Vec<_> = attributes
                    .into_iter()
                    .map(|a| (a.name.namespace.unwrap_or_default(), a.name.local_name, a.value))
                    .collect();
                let s = [name.namespace.as_deref().unwrap_or(""), &*name.local_name];
                ops.push(op("start", 0, 0, 0, &s, &attrs))
            }
            XmlEvent::EndElement { .. } => ops.push(op("end", 0, 0, 0, &[], &[])),
            XmlEvent::CData(s) | XmlEvent::Characters(s) | XmlEvent::Whitespace(s) => {
                ops.push(op("chars", 0, 0, 0, &[&s], &[]))
            }
            XmlEvent::ProcessingInstruction { name, data } => {
                ops.push(op("xpi", 0, 0, 0, &[&name, &data.unwrap_or_default()], &[]))
            }
            XmlEvent::StartDocument { .. } | XmlEvent::EndDocument | XmlEvent::Comment(_) => {}
        }
    }
    Ok(ops)
}

fn links(d: &Document) -> String {
    let v: Vec<_> = d.html_link_elements().map(|(rel, href)| list(vec![rel, href])).collect();
    format!("[{}]", v.join(","))
}

#[cfg(victor_verif)]
fn dump(d: &Document) -> String {
    let nodes: Vec<_> = d
        .verif_dump()
        .iter()
        .map(|(l, k, s)| {
            format!("{{\"l\":{:?},\"k\":\"{}\",\"s\":{}}}", l, k, list(s.iter().map(|x| &**x)))
        })
        .collect();
    format!("[{}]", nodes.join(","))
}
#[cfg(not(victor_verif))]
fn dump(_: &Document) -> String {
    String::from("[]")
}

/// For each document: `ops […]`, `dump […]`, `links […]` and the PDF
pub fn html(p: &[Vec<u8>], out: &mut Out) {
    for doc in p {
        out.line(format!("ops [{}]", html_ops(doc).join(",")));
        guarded(out, |out| {
            let d = Document::parse_html(doc);
            out.line(format!("dump {}", dump(&d)));
            out.line(format!("links {}", links(&d)));
            let b = d.to_pdf_bytes();
            out.blob(b)
        });
    }
}

/// As `html`, but `ops error` or `dump error` for what is rejected
pub fn xml(p: &[Vec<u8>], out: &mut Out) {
    for doc in p {
        match guarded(out, |_| xml_ops(doc)) {
            Some(Ok(ops)) => out.line(format!("ops [{}]", ops.join(","))),
            _ => out.line("ops error"),
        }
        guarded(out, |out| match Document::parse_xml(doc) {
            Err(e) => out.line(format!("dump error {}", e)),
            Ok(d) => {
                out.line(format!("dump {}", dump(&d)));
            out.line(format!("links {}", links(&d)));
                let b = d.to_pdf_bytes();
                out.blob(b)
            }
        });
    }
}
