//! Reference semantics used as oracle: a direct, position based scanner (no state machine) and a
//! recursive renderer, written from the property statements.

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Po {
    pub case: bool,
    pub eqkey: bool,
    pub selfc: bool,
    pub fix_unclosed: bool,
    pub fix_endtag: bool,
    pub fix_lt: bool,
}
impl Po {
    pub fn from_bits(b: u32) -> Po {
        Po { case: b & 1 != 0, eqkey: b & 2 != 0, selfc: b & 4 != 0, fix_unclosed: b & 8 != 0, fix_endtag: b & 16 != 0, fix_lt: b & 32 != 0 }
    }
    pub fn bits(&self) -> u32 {
        self.case as u32 | (self.eqkey as u32) << 1 | (self.selfc as u32) << 2 | (self.fix_unclosed as u32) << 3 | (self.fix_endtag as u32) << 4 | (self.fix_lt as u32) << 5
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Ro {
    pub minify: bool,
    pub lower: bool,
    pub endspace: bool,
    pub noquote: bool,
    pub nocomment: bool,
    pub closevoid: bool,
    pub decode: bool,
    pub encode: bool,
}
impl Ro {
    pub fn from_bits(b: u32) -> Ro {
        Ro { minify: b & 1 != 0, lower: b & 2 != 0, endspace: b & 4 != 0, noquote: b & 8 != 0, nocomment: b & 16 != 0, closevoid: b & 32 != 0, decode: b & 64 != 0, encode: b & 128 != 0 }
    }
    pub fn bits(&self) -> u32 {
        self.minify as u32 | (self.lower as u32) << 1 | (self.endspace as u32) << 2 | (self.noquote as u32) << 3 | (self.nocomment as u32) << 4 | (self.closevoid as u32) << 5 | (self.decode as u32) << 6 | (self.encode as u32) << 7
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { Root, Doctype, Comment, Text, Spaces, Tag, Cdata }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RAttr { pub key: Option<String>, pub value: Option<String>, pub quote: Option<char> }

#[derive(Clone, Debug)]
pub struct RNode {
    pub k: K,
    pub begin: usize,
    pub end: Option<usize>,
    pub content: Option<Vec<char>>,
    pub name: Vec<char>,
    pub attrs: Vec<RAttr>,
    pub void: bool,
    pub selfc: bool,
    pub kids: Vec<usize>,
    pub parent: usize,
    pub end_tag: Option<Vec<char>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK { Nesting, SelfClosing, EqKey, Unfinished, Lt, Bang, Cdata, Doctype }
#[derive(Clone, Debug)]
pub struct RErr { pub pos: usize, pub k: EK }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum At { Outside, InStartTag }

#[derive(Clone, Debug)]
pub struct RDoc {
    pub nodes: Vec<RNode>,
    pub len: usize,
    pub strays: Vec<(usize, usize)>,
    pub lts: Vec<usize>,
    pub ended: At,
    pub open_at_end: Vec<Vec<char>>, // names of the open elements, outermost first
    pub feat: u32,                   // which constructs occurred (coverage classes)
}
pub const F_TEXT: u32 = 1;
pub const F_TAG: u32 = 2;
pub const F_END: u32 = 4;
pub const F_COMMENT: u32 = 8;
pub const F_DOCTYPE: u32 = 16;
pub const F_CDATA: u32 = 32;
pub const F_RAW: u32 = 64;
pub const F_VOID: u32 = 128;
pub const F_SELF: u32 = 256;
pub const F_SPECIAL: u32 = 512;
pub const F_ATTR: u32 = 1024;
pub const F_QUOTED: u32 = 2048;
pub const F_PRE: u32 = 4096;
pub const F_STRAY: u32 = 8192;
pub const F_LT: u32 = 16384;
pub const F_AUTOCLOSE: u32 = 32768;
pub const F_SPACES: u32 = 65536;

pub const VOID: [&str; 14] = ["img", "input", "meta", "link", "br", "hr", "col", "base", "param", "source", "area", "embed", "track", "wbr"];
pub const RAW: [&str; 4] = ["script", "style", "title", "textarea"];

pub fn ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}') }
pub fn low(s: &[char]) -> String { s.iter().map(|c| c.to_ascii_lowercase()).collect() }
pub fn s(v: &[char]) -> String { v.iter().collect() }
pub fn trim_end(v: &[char]) -> &[char] {
    let mut n = v.len();
    while n > 0 && ws(v[n - 1]) { n -= 1 }
    &v[..n]
}
fn find(src: &[char], from: usize, f: impl Fn(char) -> bool) -> usize {
    let mut i = from;
    while i < src.len() && !f(src[i]) { i += 1 }
    i
}
fn name_eq(a: &[char], b: &[char], exact: bool) -> bool {
    if exact { a == b } else { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq_ignore_ascii_case(y)) }
}

enum TagEndK { Close { selfc: bool, at: usize }, Eof, Err(usize) }

fn scan_attrs(src: &[char], mut j: usize, doctype: bool, eqkey: bool, out: &mut Vec<RAttr>) -> TagEndK {
    let n = src.len();
    let (mut after_key, mut want_value, mut slash) = (false, false, false);
    loop {
        if j >= n { return TagEndK::Eof }
        let c = src[j];
        if want_value {
            if ws(c) { j += 1; continue }
            if c == '>' { return TagEndK::Close { selfc: false, at: j } }
            want_value = false; after_key = false; slash = false;
            let last = out.last_mut().unwrap();
            if c == '"' || c == '\'' {
                let e = find(src, j + 1, |x| x == c);
                last.value = Some(s(&src[j + 1..e]));
                last.quote = Some(c);
                j = e + 1;
                if e >= n { return TagEndK::Eof }
            } else {
                let e = find(src, j, |x| ws(x) || x == '>');
                last.value = Some(s(&src[j..e]));
                j = e;
            }
            continue;
        }
        if ws(c) { j += 1; continue }
        match c {
            '/' => { slash = true; j += 1; continue }
            '>' => return TagEndK::Close { selfc: slash, at: j },
            '=' if after_key => { want_value = true; slash = false; j += 1; continue }
            '=' if !eqkey => return TagEndK::Err(j),
            '"' | '\'' if doctype => {
                let e = find(src, j + 1, |x| x == c);
                out.push(RAttr { key: None, value: Some(s(&src[j + 1..e])), quote: Some(c) });
                if e >= n { return TagEndK::Eof }
                j = e + 1; after_key = false; slash = false;
                continue;
            }
            _ => {}
        }
        let e = find(src, j + 1, |x| ws(x) || x == '=' || x == '/' || x == '>');
        out.push(RAttr { key: Some(s(&src[j..e])), value: None, quote: None });
        slash = false; after_key = false;
        if e >= n { return TagEndK::Eof }
        match src[e] {
            '=' => { want_value = true; j = e + 1 }
            '/' => { slash = true; j = e + 1 }
            '>' => j = e,
            _ => { after_key = true; j = e + 1 }
        }
    }
}

pub fn parse(src: &[char], po: &Po) -> Result<RDoc, RErr> {
    let n = src.len();
    let mut d = RDoc { nodes: vec![RNode { k: K::Root, begin: 0, end: Some(n), content: None, name: vec![], attrs: vec![], void: false, selfc: false, kids: vec![], parent: 0, end_tag: None }], len: n, strays: vec![], lts: vec![], ended: At::Outside, open_at_end: vec![], feat: 0 };
    let mut stack: Vec<usize> = vec![0];
    let mut special: Option<(Vec<char>, usize)> = None;
    let mut pending: Option<usize> = None; // whitespace-only text waiting for the next tag
    let mut last_text: Option<usize> = None; // set when the previous token is a text
    let mut i = 0;
    fn add(d: &mut RDoc, stack: &[usize], k: K, begin: usize) -> usize {
        let id = d.nodes.len();
        let p = *stack.last().unwrap();
        d.nodes.push(RNode { k, begin, end: None, content: None, name: vec![], attrs: vec![], void: false, selfc: false, kids: vec![], parent: p, end_tag: None });
        d.nodes[p].kids.push(id);
        id
    }
    let eof_err = |d: &RDoc, stack: &[usize], p: usize| -> RErr {
        if stack.len() > 1 && !po.fix_unclosed { RErr { pos: d.nodes[*stack.last().unwrap()].begin, k: EK::Nesting } } else { RErr { pos: p, k: EK::Unfinished } }
    };
    macro_rules! settle { () => { if let Some(p) = pending.take() { d.nodes[p].k = K::Spaces; d.feat |= F_SPACES; } last_text = None; } }
    while i < n {
        if src[i] != '<' {
            let e = find(src, i, |c| c == '<');
            d.feat |= F_TEXT;
            // a text goes on after an ignored end tag
            let t = match last_text { Some(t) => t, None => { let t = add(&mut d, &stack, K::Text, i); d.nodes[t].content = Some(vec![]); t } };
            d.nodes[t].end = Some(e);
            let ct = d.nodes[t].content.as_mut().unwrap();
            ct.extend_from_slice(&src[i..e]);
            let blank = ct.iter().all(|c| ws(*c));
            pending = if blank { Some(t) } else { None };
            last_text = Some(t);
            i = e;
            continue;
        }
        if i + 1 == n { return Err(eof_err(&d, &stack, i)) }
        let c = src[i + 1];
        if c.is_ascii_alphabetic() {
            settle!();
            d.feat |= F_TAG;
            let t = add(&mut d, &stack, K::Tag, i);
            stack.push(t);
            let e = find(src, i + 1, |c| ws(c) || c == '/' || c == '>');
            let name = src[i + 1..e].to_vec();
            let lname = low(&name);
            d.nodes[t].void = VOID.contains(&lname.as_str());
            d.nodes[t].name = name.clone();
            if lname == "pre" { d.feat |= F_PRE }
            if d.nodes[t].void { d.feat |= F_VOID }
            let mut attrs = vec![];
            let r = scan_attrs(src, e, false, po.eqkey, &mut attrs);
            if !attrs.is_empty() { d.feat |= F_ATTR }
            if attrs.iter().any(|a| a.quote.is_some()) { d.feat |= F_QUOTED }
            d.nodes[t].attrs = attrs;
            match r {
                TagEndK::Err(p) => return Err(RErr { pos: p, k: EK::EqKey }),
                TagEndK::Eof => {
                    if !po.fix_unclosed { return Err(RErr { pos: i, k: EK::Nesting }) }
                    d.ended = At::InStartTag;
                    break;
                }
                TagEndK::Close { selfc, at } => {
                    i = at + 1;
                    if selfc {
                        d.feat |= F_SELF;
                        if !po.selfc && !d.nodes[t].void && special.is_none() { return Err(RErr { pos: at, k: EK::SelfClosing }) }
                        d.nodes[t].selfc = true;
                        stack.pop();
                    } else if d.nodes[t].void {
                        stack.pop();
                    } else if RAW.contains(&lname.as_str()) {
                        d.feat |= F_RAW;
                        // the first '>' preceded by "</name" and whitespace
                        let mut gt = i;
                        loop {
                            gt = find(src, gt, |c| c == '>');
                            if gt >= n { return Err(eof_err(&d, &stack, d.nodes[t].begin)) }
                            let body = trim_end(&src[i..gt]);
                            let l = name.len() + 2;
                            if body.len() >= l {
                                let tail = &body[body.len() - l..];
                                if tail[0] == '<' && tail[1] == '/' && name_eq(&tail[2..], &name, po.case) {
                                    let cut = i + body.len() - l;
                                    d.nodes[t].content = Some(src[i..cut].to_vec());
                                    d.nodes[t].end_tag = Some(src[cut + 2..gt].to_vec());
                                    break;
                                }
                            }
                            gt += 1;
                        }
                        stack.pop();
                        i = gt + 1;
                    } else if special.is_none() && (lname == "svg" || lname == "math") {
                        d.feat |= F_SPECIAL;
                        special = Some((name, stack.len()));
                    }
                }
            }
        } else if c == '/' {
            d.feat |= F_END;
            let e = find(src, i + 2, |c| c == '>');
            if e >= n { return Err(eof_err(&d, &stack, i)) }
            let content = src[i + 2..e].to_vec();
            let nm = trim_end(&content);
            let top = *stack.last().unwrap();
            if stack.len() > 1 && name_eq(&d.nodes[top].name, nm, false) {
                if po.case && d.nodes[top].name != nm { return Err(RErr { pos: e, k: EK::Nesting }) }
                let kids = &d.nodes[top].kids;
                if kids.len() == 1 && d.nodes[kids[0]].k == K::Text { pending = None }
                settle!();
                d.nodes[top].end_tag = Some(content);
                stack.pop();
                if let Some((_, dep)) = &special { if stack.len() < *dep { special = None } }
            } else {
                if !po.fix_endtag { return Err(RErr { pos: e, k: EK::Nesting }) }
                d.feat |= F_STRAY;
                d.strays.push((i, e + 1));
            }
            i = e + 1;
        } else if c == '!' {
            if i + 2 >= n { return Err(eof_err(&d, &stack, i)) }
            let kw: &str = match src[i + 2] {
                '-' => "--",
                'd' | 'D' => "DOCTYPE",
                '[' => match &special {
                    Some((nm, _)) if *nm != d.nodes[*stack.last().unwrap()].name => "[CDATA[",
                    _ => return Err(RErr { pos: i + 2, k: EK::Cdata }),
                },
                _ => return Err(RErr { pos: i, k: EK::Bang }),
            };
            let mut j = i + 2;
            for k in kw.chars() {
                if j >= n { return Err(eof_err(&d, &stack, i)) }
                if src[j].to_ascii_uppercase() != k { return Err(RErr { pos: i, k: EK::Bang }) }
                j += 1;
            }
            settle!();
            if kw == "DOCTYPE" {
                d.feat |= F_DOCTYPE;
                if j >= n { return Err(eof_err(&d, &stack, i)) }
                if !ws(src[j]) { return Err(RErr { pos: j, k: EK::Doctype }) }
                let t = add(&mut d, &stack, K::Doctype, i);
                d.nodes[t].name = src[i + 2..j].to_vec();
                let mut attrs = vec![];
                let r = scan_attrs(src, j, true, po.eqkey, &mut attrs);
                d.nodes[t].attrs = attrs;
                match r {
                    TagEndK::Err(p) => return Err(RErr { pos: p, k: EK::EqKey }),
                    TagEndK::Eof => return Err(eof_err(&d, &stack, i)),
                    TagEndK::Close { selfc, at } => { d.nodes[t].selfc = selfc; i = at + 1 }
                }
            } else {
                let m = if kw == "--" { '-' } else { ']' };
                let (k, f) = if m == '-' { (K::Comment, F_COMMENT) } else { (K::Cdata, F_CDATA) };
                d.feat |= f;
                let mut e = j;
                while e + 2 < n && !(src[e] == m && src[e + 1] == m && src[e + 2] == '>') { e += 1 }
                if e + 2 >= n { return Err(eof_err(&d, &stack, i)) }
                let t = add(&mut d, &stack, k, i);
                d.nodes[t].content = Some(src[j..e].to_vec());
                d.nodes[t].end = Some(e + 3);
                i = e + 3;
            }
        } else {
            if !po.fix_lt { return Err(RErr { pos: i, k: EK::Lt }) }
            d.feat |= F_LT;
            d.lts.push(i);
            pending = None;
            let e = find(src, i + 1, |c| c == '<');
            let t = match last_text { Some(t) => t, None => { let t = add(&mut d, &stack, K::Text, i); d.nodes[t].content = Some(vec![]); t } };
            d.nodes[t].k = K::Text;
            d.nodes[t].end = Some(e);
            let ct = d.nodes[t].content.as_mut().unwrap();
            ct.extend("&lt;".chars());
            ct.extend_from_slice(&src[i + 1..e]);
            last_text = Some(t);
            i = e;
        }
    }
    if d.ended == At::Outside { if let Some(p) = pending.take().filter(|_| stack.len() == 1 || d.nodes[*stack.last().unwrap()].kids.len() > 1) { d.nodes[p].k = K::Spaces; d.feat |= F_SPACES; } }
    d.open_at_end = stack[1..].iter().map(|t| d.nodes[*t].name.clone()).collect();
    if stack.len() > 1 {
        if !po.fix_unclosed { return Err(RErr { pos: d.nodes[*stack.last().unwrap()].begin, k: EK::Nesting }) }
        d.feat |= F_AUTOCLOSE;
        for t in &stack[1..] { if !d.nodes[*t].void { d.nodes[*t].end_tag = Some(d.nodes[*t].name.clone()) } }
    }
    Ok(d)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Inner { Outer, Html, Text }

pub fn render_attrs(attrs: &[RAttr], noquote: bool, out: &mut String) {
    for a in attrs {
        out.push(' ');
        if let Some(k) = &a.key { out.push_str(k) }
        if let Some(v) = &a.value {
            if a.key.is_some() { out.push('=') }
            let needs = v.is_empty() || v.chars().any(|c| ws(c) || "\"'<>=`".contains(c));
            match a.quote {
                Some(q) if !noquote || a.key.is_none() || needs => { out.push(q); out.push_str(v); out.push(q) }
                _ => out.push_str(v),
            }
        }
    }
}
pub fn minify(v: &[char]) -> Vec<char> {
    let mut o = vec![];
    for (i, c) in v.iter().enumerate() { if !(ws(*c) && i > 0 && ws(v[i - 1])) { o.push(*c) } }
    o
}
fn decode(v: &[char]) -> String {
    let mut o = vec![];
    rphtml::entity::decode_chars_to(v, &mut o);
    s(&o)
}
/// document order rendering; `top` is the node asked for, `inner` what is wanted of it
pub fn render(d: &RDoc, id: usize, ro: &Ro, inner: Inner, top: bool, pre: bool, out: &mut String) {
    let x = &d.nodes[id];
    let tags = match inner { Inner::Outer => true, Inner::Html => !top, Inner::Text => false };
    let mut pre = pre;
    match x.k {
        K::Text => {
            let v = if ro.minify && !pre { minify(x.content.as_ref().unwrap()) } else { x.content.clone().unwrap() };
            if ro.decode { out.push_str(&decode(&v)) } else { out.push_str(&s(&v)) }
        }
        K::Spaces => if !(ro.minify && !pre) { out.push_str(&s(x.content.as_ref().unwrap())) },
        K::Doctype => { out.push_str("<!"); out.push_str(&s(&x.name)); if x.attrs.is_empty() { out.push(' ') } render_attrs(&x.attrs, ro.noquote, out); out.push('>') }
        K::Comment => if !ro.nocomment && (top || inner != Inner::Text) {
            let wrap = !(top && inner == Inner::Text);
            if wrap { out.push_str("<!--") }
            out.push_str(&s(x.content.as_ref().unwrap()));
            if wrap { out.push_str("-->") }
        },
        K::Cdata => { out.push_str("<![CDATA["); out.push_str(&s(x.content.as_ref().unwrap())); out.push_str("]]>") }
        K::Root => {}
        K::Tag => {
            let l = low(&x.name);
            pre = pre || l == "pre";
            if tags {
                out.push('<');
                if ro.lower { out.push_str(&l) } else { out.push_str(&s(&x.name)) }
                render_attrs(&x.attrs, ro.noquote, out);
                if x.selfc || (x.void && ro.closevoid) { out.push_str(" /") }
                out.push('>');
            }
            if let Some(c) = &x.content {
                if ro.encode && (l == "title" || l == "textarea") {
                    for ch in c { match ch { '&' => out.push_str("&amp;"), '<' => out.push_str("&lt;"), '>' => out.push_str("&gt;"), o => out.push(*o) } }
                } else { out.push_str(&s(c)) }
            }
        }
    }
    for k in &x.kids { render(d, *k, ro, inner, false, pre, out) }
    if let (Some(e), true) = (&x.end_tag, tags) {
        out.push_str("</");
        let v = if ro.endspace { trim_end(e) } else { &e[..] };
        if ro.lower { out.push_str(&low(v)) } else { out.push_str(&s(v)) }
        out.push('>');
    }
}

/// (line, column) of a character index
pub fn line_col(src: &[char], idx: usize) -> (usize, usize) {
    let upto = &src[..src.len().min(idx + 1)];
    let mut line = 1;
    let mut start = 0;
    let mut i = 0;
    while i < upto.len() {
        if upto[i] == '\r' || upto[i] == '\n' {
            if upto[i] == '\r' && i + 1 < upto.len() && upto[i + 1] == '\n' { i += 1 }
            line += 1;
            start = i + 1;
        }
        i += 1;
    }
    (line, upto.len() - start)
}
