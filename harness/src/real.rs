//! Access to the real crate, with panics caught.
use crate::refm::*;
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::error::{ErrorKind, ParseError};
use rphtml::parser::{Doc, DocHolder, Node, NodeType, RefNode};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn popts(p: &Po) -> ParseOptions {
    ParseOptions {
        case_sensitive_tagname: p.case,
        allow_attr_key_starts_with_equal_sign: p.eqkey,
        allow_self_closing: p.selfc,
        auto_fix_unclosed_tag: p.fix_unclosed,
        auto_fix_unexpected_endtag: p.fix_endtag,
        auto_fix_unescaped_lt: p.fix_lt,
    }
}
pub fn ropts(r: &Ro, inner_html: bool) -> RenderOptions {
    RenderOptions {
        minify_spaces: r.minify,
        lowercase_tagname: r.lower,
        remove_endtag_space: r.endspace,
        remove_attr_quote: r.noquote,
        remove_comment: r.nocomment,
        always_close_void: r.closevoid,
        inner_html,
        decode_entity: r.decode,
        encode_content: r.encode,
    }
}
pub enum Out { Ok(DocHolder), Err(PErr), Panic(String) }
pub struct PErr { pub text: String, pub nesting: bool, pub selfc: bool, pub unclosed: bool }
fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(payload) }
pub fn conv(r: Result<DocHolder, rphtml::types::BoxDynError>) -> Out {
    match r {
        Ok(d) => Out::Ok(d),
        Err(e) => {
            let text = e.to_string();
            let (mut nesting, mut selfc, mut unclosed) = (false, false, false);
            if let Some(p) = e.downcast_ref::<ParseError>() {
                match &p.kind {
                    ErrorKind::WrongEndTag(_) | ErrorKind::WrongCaseSensitive(_) | ErrorKind::UnmatchedClosedTag(_) => nesting = true,
                    ErrorKind::UnclosedTag(_) => { nesting = true; unclosed = true }
                    ErrorKind::WrongSelfClosing(_) => selfc = true,
                    _ => {}
                }
            }
            Out::Err(PErr { text, nesting, selfc, unclosed })
        }
    }
}
pub fn parse(src: &str, p: &Po) -> Out {
    match guard(|| conv(Doc::parse(src, popts(p)))) { Ok(o) => o, Err(m) => Out::Panic(m) }
}
pub fn render(d: &DocHolder, r: &Ro) -> Result<String, String> { guard(|| d.render(&ropts(r, false))) }
pub fn build(n: &RefNode, r: &Ro, inner: Inner) -> Result<String, String> {
    guard(|| s(&n.borrow().build(&ropts(r, inner == Inner::Html), inner == Inner::Text)))
}
pub fn kind(n: &Node) -> Option<K> {
    Some(match n.node_type {
        NodeType::AbstractRoot => K::Root,
        NodeType::HTMLDOCTYPE => K::Doctype,
        NodeType::Comment => K::Comment,
        NodeType::Text => K::Text,
        NodeType::SpacesBetweenTag => K::Spaces,
        NodeType::Tag => K::Tag,
        NodeType::XMLCDATA => K::Cdata,
        NodeType::TagEnd => return None,
    })
}
pub fn attrs(n: &Node) -> Vec<RAttr> {
    n.meta.as_ref().map_or(vec![], |m| m.borrow().attrs.iter().map(|a| RAttr { key: a.key.as_ref().map(|k| s(&k.content)), value: a.value.as_ref().map(|v| s(&v.content)), quote: a.quote }).collect())
}
/// all nodes in document order (end tags excluded), with depth
pub fn walk(n: &RefNode, f: &mut dyn FnMut(&RefNode, usize)) { walk_d(n, 0, f) }
fn walk_d(n: &RefNode, d: usize, f: &mut dyn FnMut(&RefNode, usize)) {
    if d > 3000 { return }
    f(n, d);
    let kids: Vec<RefNode> = n.borrow().childs.clone().unwrap_or_default();
    for k in &kids { walk_d(k, d + 1, f) }
}
pub fn walk_ref(d: &RDoc, id: usize, depth: usize, f: &mut dyn FnMut(usize, usize)) {
    f(id, depth);
    for k in &d.nodes[id].kids { walk_ref(d, *k, depth + 1, f) }
}
/// structural dump; `merge`: adjacent texts merged and text kinds not distinguished; `pos`: with start positions
pub fn dump(n: &RefNode, merge: bool) -> String {
    let mut o = String::new();
    dump_r(n, merge, 0, &mut o);
    o
}
fn dump_r(n: &RefNode, merge: bool, d: usize, o: &mut String) {
    let x = n.borrow();
    let k = kind(&x);
    let head = match k { Some(K::Text) | Some(K::Spaces) if merge => "T".to_string(), Some(k) => format!("{:?}", k), None => "End".into() };
    o.push_str(&format!("({}", head));
    if let Some(m) = &x.meta { let m = m.borrow(); o.push_str(&format!(" n={} void={} self={} {:?}", s(&m.name), m.is_void, m.self_closed, attrs(&x))) }
    if let Some(c) = &x.content { o.push_str(&format!(" c={:?}", s(c))) }
    if d < 3000 {
        let mut text: Option<String> = None;
        for c in x.childs.iter().flatten() {
            let cb = c.borrow();
            if merge && matches!(cb.node_type, NodeType::Text | NodeType::SpacesBetweenTag) {
                text.get_or_insert_with(String::new).push_str(&s(cb.content.as_ref().unwrap_or(&vec![])));
                continue;
            }
            drop(cb);
            if let Some(t) = text.take() { o.push_str(&format!("(T c={:?})", t)) }
            dump_r(c, merge, d + 1, o);
        }
        if let Some(t) = text.take() { o.push_str(&format!("(T c={:?})", t)) }
    }
    if let Some(e) = &x.end_tag { o.push_str(&format!(" end={:?}", e.borrow().content.as_ref().map(|c| s(c)))) }
    o.push(')');
}
pub fn dump_ref(d: &RDoc, id: usize) -> String {
    let x = &d.nodes[id];
    let mut o = format!("({:?}", x.k);
    if matches!(x.k, K::Tag | K::Doctype) { o.push_str(&format!(" n={} void={} self={} {:?}", s(&x.name), x.void, x.selfc, x.attrs)) }
    if let Some(c) = &x.content { o.push_str(&format!(" c={:?}", s(c))) }
    for k in &x.kids { o.push_str(&dump_ref(d, *k)) }
    if let Some(e) = &x.end_tag { o.push_str(&format!(" end={:?}", Some(s(e)))) }
    o.push(')');
    o
}
