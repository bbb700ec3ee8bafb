//! One executable predicate per property, evaluated on one case.
use crate::real::{self, Out};
use crate::refm::{self as rf, *};
use rphtml::parser::{allow_insert, is_content_tag, Attr, AttrData, Doc, NameCase, Node, NodeType, RefNode, TagMeta};
use rphtml::util::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Case { pub src: String, pub po: u32, pub ro: u32 }
/// Ok(class): class 0 = trivial for this property, otherwise a coverage class
pub type R = Result<u64, String>;

macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) } }
fn cls(f: u32, extra: u64) -> u64 { (f as u64) << 20 | (extra & 0xfffff) | 1 << 60 }

pub fn check(prop: &str, c: &Case) -> R {
    let po = Po::from_bits(c.po);
    let ro = Ro::from_bits(c.ro);
    match prop {
        "C01" => c01(c, &po),
        "C02" => c02(c, &po, &ro),
        "C03" => c03(c, &po),
        "C04" => c04(c, &po),
        "C05" => c05(c, &po),
        "C06" => c06(c, &po),
        "C07" => c07(c, &po),
        "C08" => c08(c, &po),
        "C09" => c09(c, &po),
        "C10" => c10(c, &po),
        "C11" => c11(c, &po),
        "C12" => c12(c, &po),
        "C13" => opt_render(c, &po, &Ro { minify: true, ..ro }, |r| r.minify = false),
        "C14" => c14(c, &po, &ro),
        "C15" => c15(c, &ro),
        "C16" => c16(c, &po, &ro),
        "C17" => c17(c, &po, &ro),
        "C18" => c18(c, &po, &ro),
        "C19" => c19(c, &po),
        "C20" => c20(c, &po),
        "C21" => c21(c, &po),
        "C22" => c22(c),
        "C23" => c23(c, &po),
        "C24" => c24(c, &ro),
        _ => panic!("unknown property"),
    }
}
fn chars(c: &Case) -> Vec<char> { c.src.chars().collect() }
fn nofix(po: &Po) -> Po { Po { fix_unclosed: false, fix_endtag: false, fix_lt: false, ..*po } }
fn src_chars(t: &str) -> Vec<char> { t.chars().collect() }

fn c01(c: &Case, po: &Po) -> R {
    match real::parse(&c.src, po) {
        Out::Panic(m) => fail!("parse panicked: {}", m),
        Out::Ok(_) => Ok(cls(1, c.po as u64)),
        Out::Err(e) => Ok(cls(2, c.po as u64 + 64 * (e.nesting as u64 + 2 * e.unclosed as u64))),
    }
}
fn c02(c: &Case, po: &Po, ro: &Ro) -> R {
    let Out::Ok(d) = real::parse(&c.src, po) else { return Ok(0) };
    let root = d.get_root_node();
    let mut nodes: Vec<RefNode> = vec![];
    real::walk(&root, &mut |n, _| { nodes.push(n.clone()); if let Some(e) = &n.borrow().end_tag { nodes.push(e.clone()) } });
    let mut seen = 0u64;
    for r in [Ro::default(), *ro, Ro::from_bits(255)] {
        if let Err(m) = real::render(&d, &r) { fail!("render panicked under {:?}: {}", r, m) }
    }
    for n in nodes.iter().take(40) {
        let t = n.borrow().node_type;
        seen |= 1 << (t as u8);
        if let Err(m) = real::build(n, ro, Inner::Outer) { fail!("outer rendering of a {:?} node panicked: {}", t, m) }
        let tags = n.borrow().childs.iter().flatten().filter(|k| k.borrow().node_type == NodeType::Tag).count();
        let kids = n.borrow().childs.iter().flatten().count();
        let html_ok = match t { NodeType::Tag => true, NodeType::AbstractRoot => kids == 0 || tags == 1, _ => false };
        let text_ok = match t { NodeType::Tag | NodeType::Comment | NodeType::XMLCDATA => true, NodeType::AbstractRoot => kids == 0 || tags == 1, _ => false };
        match real::build(n, ro, Inner::Html) { Err(m) if html_ok => fail!("inner html of a {:?} node panicked: {}", t, m), Ok(_) if !html_ok => fail!("inner html of a {:?} node did not panic", t), _ => {} }
        match real::build(n, ro, Inner::Text) { Err(m) if text_ok => fail!("inner text of a {:?} node panicked: {}", t, m), Ok(_) if !text_ok => fail!("inner text of a {:?} node did not panic", t), _ => {} }
        if kids == 0 && t == NodeType::AbstractRoot && real::build(n, ro, Inner::Html) != Ok(String::new()) { fail!("inner html of an empty root is not empty") }
        if real::guard(|| n.borrow().build(&real::ropts(ro, true), true)).is_ok() { fail!("inner html and inner text together did not panic") }
    }
    Ok(cls(seen as u32, c.ro as u64))
}
fn c03(c: &Case, po: &Po) -> R {
    let Out::Ok(d) = real::parse(&c.src, po) else { return Ok(0) };
    let root = d.get_root_node();
    let mut seen: HashSet<*const ()> = HashSet::new();
    let mut err: Option<String> = None;
    let ptr = |n: &RefNode| Rc::as_ptr(n) as *const ();
    if root.borrow().node_type != NodeType::AbstractRoot { fail!("root has type {:?}", root.borrow().node_type) }
    if root.borrow().parent.is_some() { fail!("root has a parent") }
    match root.borrow().document.as_ref().and_then(|w| w.upgrade()) {
        None => fail!("root does not know its document"),
        Some(dd) => if !Node::is_same(&dd.borrow().root, &root) { fail!("root's document has another root") },
    }
    let mut shape = 0u64;
    real::walk(&root, &mut |n, depth| {
        if err.is_some() { return }
        if !seen.insert(ptr(n)) { err = Some("a node occurs twice in the tree".into()); return }
        let x = n.borrow();
        shape = shape.wrapping_mul(31).wrapping_add(x.node_type as u64 + 8 * depth as u64);
        let rt = x.root.as_ref().and_then(|w| w.upgrade());
        match rt { Some(r) if Node::is_same(&r, &root) => {}, _ => { err = Some(format!("root link of a {:?} node is wrong", x.node_type)); return } }
        if x.childs.iter().flatten().next().is_some() && !matches!(x.node_type, NodeType::Tag | NodeType::AbstractRoot) { err = Some(format!("a {:?} node has children", x.node_type)); return }
        if depth > 0 && matches!(x.node_type, NodeType::TagEnd | NodeType::AbstractRoot) { err = Some(format!("a {:?} node is a child", x.node_type)); return }
        for (i, k) in x.childs.iter().flatten().enumerate() {
            let kb = k.borrow();
            if kb.index != i { err = Some(format!("child {} has index {}", i, kb.index)); return }
            match kb.parent.as_ref().and_then(|w| w.upgrade()) { Some(p) if Node::is_same(&p, n) => {}, _ => { err = Some(format!("parent link of child {} ({:?}) is wrong", i, kb.node_type)); return } }
        }
        if let Some(e) = &x.end_tag {
            if !seen.insert(ptr(e)) { err = Some("an end tag occurs twice in the tree".into()); return }
            let eb = e.borrow();
            if x.node_type != NodeType::Tag { err = Some(format!("a {:?} node has an end tag", x.node_type)); return }
            if eb.node_type != NodeType::TagEnd { err = Some(format!("end tag has type {:?}", eb.node_type)); return }
            if eb.childs.iter().flatten().next().is_some() { err = Some("an end tag has children".into()); return }
            match eb.parent.as_ref().and_then(|w| w.upgrade()) { Some(p) if Node::is_same(&p, n) => {}, _ => err = Some("parent link of an end tag is wrong".into()) }
        }
    });
    if let Some(m) = err { fail!("{}", m) }
    Ok(shape | 1 << 60)
}
fn c04(c: &Case, po: &Po) -> R {
    let po = nofix(po);
    let src = chars(c);
    let r = rf::parse(&src, &po);
    let o = real::parse(&c.src, &po);
    let d = match o { Out::Ok(d) => d, _ => return Ok(0) };
    let got = match real::render(&d, &Ro::default()) { Ok(g) => g, Err(m) => fail!("default rendering panicked: {}", m) };
    // whatever the reference makes of the source: apart from separators nothing is lost, added or moved
    let bare = |t: &str| t.chars().filter(|c| !c.is_ascii_whitespace() && *c != '/' && *c != '=').map(|c| c.to_ascii_lowercase()).collect::<String>();
    if bare(&got) != bare(&c.src) { fail!("default rendering is {:?}: more than separators is changed", got) }
    if let Ok(r) = &r {
        let mut want = String::new();
        rf::render(r, 0, &Ro::default(), Inner::Outer, true, false, &mut want);
        if got != want { fail!("default rendering is {:?}, expected {:?}", got, want) }
    }
    if po == Po::default() {
        match real::parse(&got, &po) {
            Out::Ok(d2) => match real::render(&d2, &Ro::default()) {
                Ok(g2) if g2 == got => {}
                Ok(g2) => fail!("rendering {:?} parses and renders to {:?}", got, g2),
                Err(m) => fail!("rendering again panicked: {}", m),
            },
            Out::Err(e) => fail!("rendering {:?} is rejected: {}", got, e.text),
            Out::Panic(m) => fail!("parsing the rendering {:?} panicked: {}", got, m),
        }
    }
    let Ok(r) = r else { return Ok(0) };
    Ok(cls(r.feat, src.len() as u64))
}
fn c05(c: &Case, po: &Po) -> R {
    let po = nofix(po);
    let src = chars(c);
    match (rf::parse(&src, &po), real::parse(&c.src, &po)) {
        (_, Out::Panic(_)) => Ok(0),
        (Err(e), Out::Ok(_)) => match e.k {
            EK::Nesting | EK::SelfClosing => fail!("accepted, but the nesting is wrong ({:?} at {})", e.k, e.pos),
            _ => Ok(0),
        },
        (Ok(_), Out::Err(e)) => if e.nesting || e.selfc { fail!("rejected for its nesting although it nests correctly: {}", e.text) } else { Ok(0) },
        (Err(e), Out::Err(_)) => Ok(if matches!(e.k, EK::Nesting | EK::SelfClosing) { cls(1 << 19, src.len() as u64 + 64 * c.po as u64) } else { 0 }),
        (Ok(r), Out::Ok(d)) => {
            // element structure
            let mut a = String::new();
            let mut b = String::new();
            real::walk_ref(&r, 0, 0, &mut |i, dep| { let x = &r.nodes[i]; let k = if x.k == K::Spaces { K::Text } else { x.k }; a.push_str(&format!("{}{:?}{}{}{};", dep, k, s(&x.name), x.void, x.end_tag.is_some())) });
            real::walk(&d.get_root_node(), &mut |n, dep| {
                let x = n.borrow();
                let k = match real::kind(&x) { Some(K::Spaces) => K::Text, Some(k) => k, None => K::Root };
                let (nm, v) = x.meta.as_ref().map_or((String::new(), false), |m| { let m = m.borrow(); (s(&m.name), m.is_void) });
                b.push_str(&format!("{}{:?}{}{}{};", dep, k, nm, v, x.end_tag.is_some()))
            });
            if a != b { fail!("tree is {} expected {}", b, a) }
            Ok(if r.feat & (F_TAG | F_END) == 0 { 0 } else { cls(r.feat, src.len() as u64 + 64 * c.po as u64) })
        }
    }
}
fn same_outcome(what: &str, a: &Out, b: &Out, full: bool) -> Result<bool, String> {
    match (a, b) {
        (Out::Panic(m), _) | (_, Out::Panic(m)) => Err(format!("{}: panicked: {}", what, m)),
        (Out::Ok(x), Out::Ok(y)) => {
            let (rx, ry) = (real::render(x, &Ro::default()), real::render(y, &Ro::default()));
            if rx != ry { return Err(format!("{}: renders {:?}, expected {:?}", what, rx, ry)) }
            let (dx, dy) = (real::dump(&x.get_root_node(), !full), real::dump(&y.get_root_node(), !full));
            if dx != dy { return Err(format!("{}: tree {} expected {}", what, dx, dy)) }
            Ok(true)
        }
        (Out::Err(_), Out::Err(_)) => Ok(false),
        (Out::Err(e), Out::Ok(_)) => Err(format!("{}: rejected: {}", what, e.text)),
        (Out::Ok(_), Out::Err(e)) => Err(format!("{}: accepted, but the equivalent source is rejected: {}", what, e.text)),
    }
}
fn c06(c: &Case, po: &Po) -> R {
    let po = Po { fix_unclosed: true, ..*po };
    let src = chars(c);
    let Ok(r) = rf::parse(&src, &po) else {
        // rejected whatever the option says
        let off = Po { fix_unclosed: false, ..po };
        if matches!(real::parse(&c.src, &off), Out::Ok(_)) { same_outcome("option changes a complete document", &real::parse(&c.src, &po), &real::parse(&c.src, &off), true)?; }
        return Ok(0);
    };
    let a = real::parse(&c.src, &po);
    if let Out::Panic(m) = &a { fail!("panicked: {}", m) }
    if r.open_at_end.is_empty() {
        let off = Po { fix_unclosed: false, fix_endtag: false, ..po };
        if r.strays.is_empty() {
            same_outcome("nothing is missing", &a, &real::parse(&c.src, &off), true)?;
        }
        return Ok(if r.feat & F_TAG != 0 { cls(r.feat, 1) } else { 0 });
    }
    if r.ended == At::Outside {
        let mut t = c.src.clone();
        for n in r.open_at_end.iter().rev() { t.push_str(&format!("</{}>", s(n))) }
        same_outcome("missing end tags", &a, &real::parse(&t, &po), true)?;
    } else {
        let Out::Ok(d) = &a else { let Out::Err(e) = &a else { unreachable!() }; fail!("input ending in a start tag is rejected: {}", e.text) };
        let (x, y) = (real::dump(&d.get_root_node(), false), real::dump_ref(&r, 0));
        if x != y { fail!("tree {} expected {}", x, y) }
        let mut want = String::new();
        rf::render(&r, 0, &Ro::default(), Inner::Outer, true, false, &mut want);
        let got = real::render(d, &Ro::default())?;
        if got != want { fail!("renders {:?}, expected {:?}", got, want) }
    }
    Ok(cls(r.feat, 2 + 4 * r.open_at_end.len() as u64 + 64 * c.po as u64))
}
fn c07(c: &Case, po: &Po) -> R {
    let po = Po { fix_endtag: true, ..*po };
    let src = chars(c);
    let r = rf::parse(&src, &po);
    let a = real::parse(&c.src, &po);
    if let Out::Panic(m) = &a { fail!("panicked: {}", m) }
    let off = Po { fix_endtag: false, ..po };
    match r {
        Err(e) => {
            if let (EK::Nesting, Out::Ok(_)) = (e.k, &a) { if po.case && src.get(e.pos) == Some(&'>') { fail!("an end tag that differs in letter case only is ignored") } }
            let b = real::parse(&c.src, &off);
            if let Out::Ok(_) = b { same_outcome("no stray end tag", &a, &b, true)?; }
            Ok(0)
        }
        Ok(r) if r.strays.is_empty() => { same_outcome("no stray end tag", &a, &real::parse(&c.src, &off), true)?; Ok(if r.feat & F_END != 0 { cls(r.feat, 1) } else { 0 }) }
        Ok(r) => {
            let mut t: Vec<char> = vec![];
            let mut i = 0;
            for (b, e) in &r.strays {
                t.extend_from_slice(&src[i..*b]);
                i = *e;
                if t.last() == Some(&'<') { return Ok(0) } // without the end tag the bare '<' would begin something else
            }
            t.extend_from_slice(&src[i..]);
            same_outcome("stray end tags removed", &a, &real::parse(&s(&t), &po), true)?;
            Ok(cls(r.feat, 2 + 4 * r.strays.len() as u64 + 64 * c.po as u64))
        }
    }
}
fn c08(c: &Case, po: &Po) -> R {
    let on = Po { fix_lt: true, ..*po };
    let off = Po { fix_lt: false, ..on };
    let src = chars(c);
    let a = real::parse(&c.src, &on);
    if let Out::Panic(m) = &a { fail!("panicked: {}", m) }
    if src.last() == Some(&'<') {
        if let Ok(_) = rf::parse(&src[..src.len() - 1], &Po { fix_unclosed: true, ..on }) {
            if let (Out::Ok(_), Ok(r2)) = (&a, rf::parse(&src[..src.len() - 1], &Po { fix_unclosed: true, ..on })) { if r2.ended == At::Outside { fail!("a '<' that ends the input is accepted") } }
        }
    }
    match rf::parse(&src, &on) {
        Err(_) => { let b = real::parse(&c.src, &off); if let Out::Ok(_) = b { same_outcome("no bare '<'", &a, &b, true)?; } Ok(0) }
        Ok(r) if r.lts.is_empty() => { same_outcome("no bare '<'", &a, &real::parse(&c.src, &off), true)?; Ok(if r.feat & F_TEXT != 0 { cls(r.feat, 1) } else { 0 }) }
        Ok(r) => {
            if let Out::Ok(_) = real::parse(&c.src, &off) { fail!("a bare '<' is accepted without the option") }
            let mut t: Vec<char> = vec![];
            let mut i = 0;
            for b in &r.lts { t.extend_from_slice(&src[i..*b]); t.extend("&lt;".chars()); i = *b + 1 }
            t.extend_from_slice(&src[i..]);
            same_outcome("bare '<' escaped", &a, &real::parse(&s(&t), &on), true)?;
            Ok(cls(r.feat, 2 + 4 * r.lts.len() as u64 + 64 * c.po as u64))
        }
    }
}
fn is_raw(name: &[char]) -> bool { RAW.contains(&low(name).as_str()) }
fn c09(c: &Case, po: &Po) -> R {
    let po = *po;
    let src = chars(c);
    let Ok(r) = rf::parse(&src, &po) else { return Ok(0) };
    if r.feat & F_RAW == 0 { return Ok(0) }
    let a = real::parse(&c.src, &po);
    let mut want = String::new();
    real::walk_ref(&r, 0, 0, &mut |i, _| { let x = &r.nodes[i]; if x.k == K::Tag && is_raw(&x.name) { want.push_str(&format!("{} {:?} {:?} kids={};", s(&x.name), x.content.as_ref().map(|c| s(c)), x.end_tag.as_ref().map(|c| s(c)), x.kids.len())) } });
    match a {
        Out::Panic(m) => fail!("panicked: {}", m),
        Out::Err(e) => {
            // is it the raw text? the same document with the raw contents replaced by "x" must be accepted
            let mut ctl = String::new();
            let mut rr = r.clone();
            for x in rr.nodes.iter_mut() { if x.k == K::Tag && is_raw(&x.name) { x.content = Some(vec!['x']); if !x.selfc { x.end_tag = Some(x.name.clone()) } } }
            rf::render(&rr, 0, &Ro::default(), Inner::Outer, true, false, &mut ctl);
            if let Out::Ok(_) = real::parse(&ctl, &po) { fail!("rejected ({}), raw text expected: {}", e.text, want) }
            Ok(0)
        }
        Out::Ok(d) => {
            let mut got = String::new();
            real::walk(&d.get_root_node(), &mut |n, _| {
                let x = n.borrow();
                if x.node_type != NodeType::Tag { return }
                let Some(m) = &x.meta else { return };
                let nm = m.borrow().name.clone();
                if is_raw(&nm) { got.push_str(&format!("{} {:?} {:?} kids={};", s(&nm), x.content.as_ref().map(|c| s(c)), x.end_tag.as_ref().and_then(|e| e.borrow().content.as_ref().map(|c| s(c))), x.childs.iter().flatten().count())) }
            });
            if got != want { fail!("raw text elements: {} expected {}", got, want) }
            Ok(cls(r.feat, src.len() as u64 + 64 * c.po as u64))
        }
    }
}
fn c10(c: &Case, po: &Po) -> R {
    let po = Po { fix_endtag: false, fix_lt: false, ..*po };
    let src = chars(c);
    match (rf::parse(&src, &po), real::parse(&c.src, &po)) {
        (_, Out::Panic(m)) => if c.src.contains(' ') { fail!("panicked: {}", m) } else { Ok(0) },
        (Err(e), Out::Ok(_)) => if e.k == EK::EqKey { fail!("a '=' at {} where a key should start is accepted", e.pos) } else { Ok(0) },
        (Err(_), Out::Err(_)) => Ok(0),
        (Ok(r), o) => {
            if r.feat & (F_ATTR | F_DOCTYPE) == 0 { return Ok(0) }
            let d = match o {
                Out::Ok(d) => d,
                Out::Err(e) => {
                    // attributed to the attributes when the same document without attributes is accepted
                    let mut ctl = String::new();
                    let mut rr = r.clone();
                    for x in rr.nodes.iter_mut() { x.attrs.clear() }
                    rf::render(&rr, 0, &Ro::default(), Inner::Outer, true, false, &mut ctl);
                    if let Out::Ok(_) = real::parse(&ctl, &po) { fail!("attributes rejected: {}", e.text) }
                    return Ok(0);
                }
                Out::Panic(_) => return Ok(0),
            };
            let mut want = vec![];
            real::walk_ref(&r, 0, 0, &mut |i, _| { let x = &r.nodes[i]; if matches!(x.k, K::Tag | K::Doctype) { want.push(x.attrs.clone()) } });
            let mut got = vec![];
            let mut err = None;
            real::walk(&d.get_root_node(), &mut |n, _| {
                let x = n.borrow();
                if !matches!(x.node_type, NodeType::Tag | NodeType::HTMLDOCTYPE) { return }
                let a = real::attrs(&x);
                let mut map: HashMap<String, usize> = HashMap::new();
                for (i, at) in a.iter().enumerate() { if let Some(k) = &at.key { map.entry(k.to_ascii_lowercase()).or_insert(i); } }
                if let Some(m) = &x.meta { if m.borrow().lc_name_map != map { err = Some(format!("name map {:?} expected {:?}", m.borrow().lc_name_map, map)) } }
                got.push(a);
            });
            if got != want { fail!("attributes {:?} expected {:?}", got, want) }
            if let Some(e) = err { return Err(e) }
            Ok(cls(r.feat, src.len() as u64 + 64 * want.iter().map(|a| a.len()).max().unwrap_or(0) as u64))
        }
    }
}
fn c11(c: &Case, po: &Po) -> R {
    let Out::Ok(d) = real::parse(&c.src, po) else { return Ok(0) };
    let mut ids: HashMap<String, Vec<RefNode>> = HashMap::new();
    let mut vals: HashSet<String> = HashSet::new();
    real::walk(&d.get_root_node(), &mut |n, _| {
        for a in real::attrs(&n.borrow()) {
            if let Some(v) = &a.value {
                vals.insert(v.clone());
                if a.key.as_ref().map_or(false, |k| k.eq_ignore_ascii_case("id")) { ids.entry(v.clone()).or_default().push(n.clone()) }
            }
            if let Some(k) = a.key { vals.insert(k); }
        }
    });
    let mut q: Vec<String> = vals.into_iter().collect();
    for k in ids.keys() { q.push(k.to_uppercase()); q.push(k.to_lowercase()); q.push(format!("{} ", k)); q.push(k.trim().to_string()); let mut t = k.clone(); t.pop(); q.push(t) }
    q.push(String::new());
    for k in q {
        let got = match real::guard(|| d.get_element_by_id(&k)) { Ok(g) => g, Err(m) => fail!("lookup panicked: {}", m) };
        match (got, ids.get(&k)) {
            (None, None) => {}
            (Some(g), Some(v)) => if !v.iter().any(|n| Node::is_same(n, &g)) { fail!("lookup of id {:?} gives a node without that id", k) },
            (Some(_), None) => fail!("lookup of id {:?} gives a node, but no tag has it", k),
            (None, Some(_)) => fail!("lookup of id {:?} finds nothing", k),
        }
    }
    Ok(if ids.is_empty() { 0 } else { cls(ids.len() as u32, ids.values().map(|v| v.len() as u64).sum()) })
}
fn c12(c: &Case, po: &Po) -> R {
    let src = chars(c);
    let (Err(e), Out::Err(o)) = (rf::parse(&src, po), real::parse(&c.src, po)) else { return Ok(0) };
    let (l, col) = line_col(&src, e.pos);
    let want = format!("[line:{},col:{},index:{}]", l, col, e.pos);
    let got: String = o.text.split(']').next().unwrap_or("").to_string() + "]";
    if got != want { fail!("error at {} expected {} ({})", got, want, o.text) }
    Ok(cls(1 << (e.k as u32), l.min(7) as u64 + 8 * col.min(7) as u64 + 64 * c.po as u64))
}
/// `render(ro)` is what the reference rendering says, provided `render(without)` already is
fn opt_render(c: &Case, po: &Po, ro: &Ro, off: impl Fn(&mut Ro)) -> R {
    let src = chars(c);
    let po = *po;
    let Ok(r) = rf::parse(&src, &po) else { return Ok(0) };
    let Out::Ok(d) = real::parse(&c.src, &po) else { return Ok(0) };
    let mut base = *ro;
    off(&mut base);
    let (mut w0, mut w1) = (String::new(), String::new());
    rf::render(&r, 0, &base, Inner::Outer, true, false, &mut w0);
    rf::render(&r, 0, ro, Inner::Outer, true, false, &mut w1);
    if real::render(&d, &base).as_deref() != Ok(&w0) { return Ok(0) }
    match real::render(&d, ro) {
        Err(m) => fail!("rendering with {:?} panicked: {}", ro, m),
        Ok(g) if g != w1 => fail!("with {:?} renders {:?}, expected {:?}", ro, g, w1),
        _ => {}
    }
    Ok(if w0 == w1 { 0 } else { cls(r.feat, ro.bits() as u64) })
}
fn c14(c: &Case, po: &Po, ro: &Ro) -> R {
    let r = *ro;
    let all = |r: &mut Ro| { r.lower = false; r.endspace = false; r.closevoid = false; r.nocomment = false };
    opt_render(c, po, &r, all)
}
fn c15(c: &Case, ro: &Ro) -> R {
    let src = chars(c);
    let po = Po::default();
    let Ok(r) = rf::parse(&src, &po) else { return Ok(0) };
    let Out::Ok(d) = real::parse(&c.src, &po) else { return Ok(0) };
    if r.feat & (F_ATTR | F_DOCTYPE) == 0 { return Ok(0) }
    let q = Ro { noquote: true, ..Default::default() };
    let got = match real::render(&d, &q) { Ok(g) => g, Err(m) => fail!("panicked: {}", m) };
    let mut want = String::new();
    rf::render(&r, 0, &q, Inner::Outer, true, false, &mut want);
    let mut plain = String::new();
    rf::render(&r, 0, &Ro::default(), Inner::Outer, true, false, &mut plain);
    if real::render(&d, &Ro::default()).as_deref() == Ok(&plain) && got != want { fail!("renders {:?}, expected {:?}", got, want) }
    match real::parse(&got, &po) {
        Out::Ok(d2) => {
            let f = |d: &rphtml::parser::DocHolder| { let mut o = String::new(); real::walk(&d.get_root_node(), &mut |n, dep| { let x = n.borrow(); if matches!(x.node_type, NodeType::Tag | NodeType::HTMLDOCTYPE) { let a: Vec<_> = real::attrs(&x).into_iter().map(|a| (a.key, a.value)).collect(); o.push_str(&format!("{} {:?} {:?};", dep, x.meta.as_ref().map(|m| s(&m.borrow().name)), a)) } }); o };
            let (x, y) = (f(&d), f(&d2));
            if x != y { fail!("{:?} parses to {} instead of {}", got, y, x) }
        }
        Out::Err(e) => fail!("rendering {:?} is rejected: {}", got, e.text),
        Out::Panic(m) => fail!("parsing the rendering {:?} panicked: {}", got, m),
    }
    // together with other options the attributes are the same
    let both = Ro { noquote: true, decode: false, ..*ro };
    if both != q { opt_render(c, &po, &both, |r| r.noquote = false)?; }
    Ok(if got == plain { 0 } else { cls(r.feat, src.len() as u64) })
}
fn c16(c: &Case, po: &Po, ro: &Ro) -> R {
    let a = opt_render(c, po, &Ro { decode: true, ..*ro }, |r| r.decode = false)?;
    let b = opt_render(c, po, &Ro { encode: true, ..*ro }, |r| r.encode = false)?;
    Ok(a.max(b))
}
fn pair(d: &RDoc, n: &RefNode) -> Vec<(usize, RefNode)> {
    let mut a = vec![];
    real::walk_ref(d, 0, 0, &mut |i, _| a.push(i));
    let mut b = vec![];
    real::walk(n, &mut |n, _| b.push(n.clone()));
    if a.len() != b.len() { return vec![] }
    a.into_iter().zip(b).collect()
}
fn c17(c: &Case, po: &Po, ro: &Ro) -> R {
    let src = chars(c);
    let po = *po;
    let Ok(r) = rf::parse(&src, &po) else { return Ok(0) };
    let Out::Ok(d) = real::parse(&c.src, &po) else { return Ok(0) };
    let mut cl = 0;
    let root = d.get_root_node();
    for (i, n) in pair(&r, &root) {
        let x = &r.nodes[i];
        if !matches!(x.k, K::Tag | K::Comment) { continue }
        let mut w = String::new();
        rf::render(&r, i, ro, Inner::Outer, true, false, &mut w);
        match real::build(&n, ro, Inner::Outer) { Ok(g) if g == w => {}, _ => continue }
        for inner in [Inner::Html, Inner::Text] {
            if x.k == K::Comment && inner == Inner::Html { continue }
            let mut w = String::new();
            rf::render(&r, i, ro, inner, true, false, &mut w);
            match real::build(&n, ro, inner) {
                Err(m) => fail!("inner {:?} of node {} panicked: {}", inner, i, m),
                Ok(g) if g != w => fail!("inner {:?} of {:?} at {} is {:?}, expected {:?} ({:?})", inner, s(&x.name), x.begin, g, w, ro),
                _ => {}
            }
        }
        cl = cls(r.feat, c.ro as u64);
    }
    let tags: Vec<usize> = r.nodes[0].kids.iter().copied().filter(|k| r.nodes[*k].k == K::Tag).collect();
    if tags.len() == 1 {
        for inner in [Inner::Html, Inner::Text] {
            let mut w = String::new();
            rf::render(&r, tags[0], ro, inner, true, false, &mut w);
            let g = if inner == Inner::Html { real::guard(|| d.render(&real::ropts(ro, true))) } else { real::guard(|| d.render_text(&real::ropts(ro, false))) };
            let mut ow = String::new();
            rf::render(&r, 0, ro, Inner::Outer, true, false, &mut ow);
            if real::render(&d, ro).as_deref() != Ok(&ow) { continue }
            if g.as_deref() != Ok(&w) { fail!("inner {:?} of the root is {:?}, expected {:?} ({:?})", inner, g, w, ro) }
        }
    }
    Ok(cl)
}
fn c18(c: &Case, po: &Po, ro: &Ro) -> R {
    let Out::Ok(d) = real::parse(&c.src, po) else { return Ok(0) };
    let root = d.get_root_node();
    let mut nodes = vec![];
    real::walk(&root, &mut |n, _| nodes.push(n.clone()));
    let mut shape = 0u64;
    for n in nodes.iter().take(30) {
        let cp = match real::guard(|| n.borrow().clone_node()) { Ok(x) => x, Err(m) => fail!("clone_node panicked: {}", m) };
        let base = n.borrow().begin_at;
        if cp.borrow().parent.is_some() { fail!("the clone has a parent") }
        for r in [Ro::default(), *ro] {
            let (a, b) = (real::build(n, &r, Inner::Outer), real::build(&cp, &r, Inner::Outer));
            if a != b { fail!("clone renders {:?}, original {:?}", b, a) }
        }
        let (mut v, mut w) = (vec![], vec![]);
        real::walk(n, &mut |x, _| { v.push(x.clone()); if let Some(e) = &x.borrow().end_tag { v.push(e.clone()) } });
        real::walk(&cp, &mut |x, _| { w.push(x.clone()); if let Some(e) = &x.borrow().end_tag { w.push(e.clone()) } });
        if real::dump(n, false) != real::dump(&cp, false) { fail!("clone is {} original {}", real::dump(&cp, false), real::dump(n, false)) }
        let ptrs: HashSet<_> = nodes.iter().chain(v.iter()).map(|x| Rc::as_ptr(x)).collect();
        for (j, (x, y)) in v.iter().zip(&w).enumerate() {
            if ptrs.contains(&Rc::as_ptr(y)) { fail!("the clone shares a node with the original") }
            let (xb, yb) = (x.borrow(), y.borrow());
            if yb.begin_at + base != xb.begin_at || yb.end_at + base != xb.end_at { fail!("positions {}..{} in the clone of {}..{} (base {})", yb.begin_at, yb.end_at, xb.begin_at, xb.end_at, base) }
            if j > 0 && yb.node_type != NodeType::TagEnd && yb.index != xb.index { fail!("index {} in the clone, {} in the original", yb.index, xb.index) }
            if let (Some(p), Some(q)) = (&xb.meta, &yb.meta) {
                if p.borrow().lc_name_map != q.borrow().lc_name_map { fail!("name map differs in the clone") }
                if p.borrow().auto_fix != q.borrow().auto_fix { fail!("auto_fix differs in the clone") }
            }
            for (i, k) in yb.childs.iter().flatten().enumerate() {
                match k.borrow().parent.as_ref().and_then(|p| p.upgrade()) { Some(p) if Node::is_same(&p, y) => {}, _ => fail!("parent link of child {} in the clone is wrong", i) }
            }
            shape = shape.wrapping_mul(31).wrapping_add(xb.node_type as u64);
        }
        // independence
        let before = real::dump(n, false);
        for y in &w {
            let mut yb = y.borrow_mut();
            if let Some(c) = yb.content.as_mut() { c.push('Z') }
            if let Some(m) = yb.meta.as_ref() { let mut m = m.borrow_mut(); m.name.push('z'); for a in m.attrs.iter_mut() { if let Some(v) = a.value.as_mut() { v.content.push('q') } if let Some(v) = a.key.as_mut() { v.content.push('q') } } m.attrs.clear() }
        }
        for y in &w { y.borrow_mut().childs = None }
        if before != real::dump(n, false) { fail!("changing the clone changed the original") }
        let own = match real::guard(|| n.borrow().clone()) { Ok(x) => x, Err(m) => fail!("clone panicked: {}", m) };
        let own = Rc::new(std::cell::RefCell::new(own));
        if real::dump(&own, false) != before { fail!("Clone gives {} for {}", real::dump(&own, false), before) }
    }
    Ok(if nodes.len() < 2 { 0 } else { shape | 1 << 60 })
}
fn c19(c: &Case, po: &Po) -> R {
    let po = Po { fix_endtag: false, fix_lt: false, ..*po };
    let src = chars(c);
    let l = c.src.to_ascii_lowercase();
    if !(l.contains("<svg") || l.contains("<math") || l.contains("<![") || l.contains("/>")) { return Ok(0) }
    match (rf::parse(&src, &po), real::parse(&c.src, &po)) {
        (Err(e), Out::Ok(_)) if matches!(e.k, EK::SelfClosing | EK::Cdata) => fail!("{:?} at {} is accepted outside svg/math", e.k, e.pos),
        (Ok(r), Out::Err(e)) => {
            if r.feat & (F_SELF | F_CDATA) != 0 && (e.selfc || e.text.contains("CDATA")) { fail!("rejected inside svg/math: {}", e.text) }
            // a CDATA section that is not read as one
            if r.feat & F_CDATA != 0 {
                let mut rr = r.clone();
                let mut ctl = String::new();
                for x in rr.nodes.iter_mut() { if x.k == K::Cdata { x.k = K::Comment; x.content = Some(vec!['x']) } }
                rf::render(&rr, 0, &Ro::default(), Inner::Outer, true, false, &mut ctl);
                if let Out::Ok(_) = real::parse(&ctl, &po) { fail!("CDATA section rejected: {}", e.text) }
            }
            Ok(0)
        }
        (_, Out::Panic(m)) if l.contains("<svg") || l.contains("<math") => fail!("panicked: {}", m),
        (Ok(r), Out::Ok(d)) => {
            let mut w = vec![];
            real::walk_ref(&r, 0, 0, &mut |i, dep| { let x = &r.nodes[i]; if x.k == K::Cdata || x.selfc { w.push((dep, x.k == K::Cdata, x.content.as_ref().map(|c| s(c)))) } });
            let mut g = vec![];
            real::walk(&d.get_root_node(), &mut |n, dep| { let x = n.borrow(); let cd = x.node_type == NodeType::XMLCDATA; if cd || x.meta.as_ref().map_or(false, |m| m.borrow().self_closed) { g.push((dep, cd, x.content.as_ref().map(|c| s(c)))) } });
            if w != g { fail!("self-closed elements and CDATA sections {:?}, expected {:?}", g, w) }
            Ok(if r.feat & (F_SPECIAL | F_SELF) != 0 { cls(r.feat, src.len() as u64 + 64 * c.po as u64) } else { 0 })
        }
        (Err(e), Out::Err(_)) => Ok(if matches!(e.k, EK::SelfClosing | EK::Cdata) { cls(1 << 19 | e.k as u32, src.len() as u64) } else { 0 }),
        _ => Ok(0),
    }
}
fn c20(c: &Case, po: &Po) -> R {
    let Out::Ok(d) = real::parse(&c.src, po) else { return Ok(0) };
    let root = d.get_root_node();
    let mut err = None;
    let (mut html, mut extra, mut cl) = (0, false, 0u64);
    for k in root.borrow().childs.iter().flatten() {
        let k = k.borrow();
        cl = cl.wrapping_mul(11).wrapping_add(k.node_type as u64 + 1);
        match k.node_type {
            NodeType::Comment | NodeType::HTMLDOCTYPE | NodeType::SpacesBetweenTag => {}
            NodeType::Tag => if k.meta.as_ref().map_or(false, |m| low(&m.borrow().name) == "html") { html += 1; cl += 1000 } else { extra = true },
            _ => extra = true,
        }
    }
    let want = (html > 0, !(html > 0 && (extra || html > 1)));
    let got = match real::guard(|| root.borrow().is_document()) { Ok(g) => g, Err(m) => fail!("panicked: {}", m) };
    if got != want { fail!("is_document on the root gives {:?}, expected {:?}", got, want) }
    real::walk(&root, &mut |n, dep| if dep > 0 && n.borrow().is_document() != (false, true) { err = Some("is_document on a non-root node is not (false, true)".to_string()) });
    if let Some(m) = err { return Err(m) }
    Ok(cl | 1 << 60)
}
fn c21(c: &Case, po: &Po) -> R {
    let id = std::thread::current().id();
    let dir = std::path::Path::new(&crate::scratch()).join(format!("{:?}", id).replace(['(', ')'], ""));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("in.html");
    std::fs::write(&f, &c.src).unwrap();
    let rel = c.ro & 1 == 1;
    let path: std::path::PathBuf = if rel { rel_path(&f) } else { f.clone() };
    let a = match real::guard(|| real::conv(Doc::parse_file(&path, real::popts(po)))) { Ok(o) => o, Err(m) => fail!("parse_file panicked: {}", m) };
    let b = real::parse(&c.src, po);
    match (&a, &b) {
        (_, Out::Panic(_)) => return Ok(0),
        (Out::Ok(x), Out::Ok(y)) => {
            let g = |d: &rphtml::parser::DocHolder| { let mut o = real::dump(&d.get_root_node(), false); real::walk(&d.get_root_node(), &mut |n, _| o.push_str(&format!("{}-{};", n.borrow().begin_at, n.borrow().end_at))); o };
            let (u, v) = (g(x), g(y));
            if u != v { let s = |t: &str| t.chars().take(400).collect::<String>(); fail!("parse_file gives a tree written in {} characters: {}, parse one written in {}: {}", u.len(), s(&u), v.len(), s(&v)) }
        }
        (Out::Err(x), Out::Err(y)) => if x.text != y.text { fail!("parse_file reports {:?}, parse {:?}", x.text, y.text) },
        (Out::Err(x), _) => fail!("parse_file rejects ({}) what parse accepts", x.text),
        (_, Out::Err(y)) => fail!("parse_file accepts what parse rejects ({})", y.text),
        _ => {}
    }
    // files that cannot be read as text
    if c.ro % 16 == 0 {
        let miss = dir.join("missing.html");
        for p in [miss, dir.clone(), std::path::PathBuf::from("no/such/dir/x.html")] {
            match real::guard(|| Doc::parse_file(&p, real::popts(po)).is_ok()) { Err(m) => fail!("parse_file on {:?} panicked: {}", p, m), Ok(true) => fail!("parse_file on {:?} succeeded", p), _ => {} }
        }
        let bad = dir.join("bad.html");
        let mut v = c.src.clone().into_bytes();
        v.extend([b'a', 0xff, 0xfe, b'<']);
        std::fs::write(&bad, &v).unwrap();
        match real::guard(|| Doc::parse_file(&bad, real::popts(po)).is_ok()) { Err(m) => fail!("parse_file on invalid UTF-8 panicked: {}", m), Ok(true) => fail!("parse_file on invalid UTF-8 succeeded"), _ => {} }
    }
    let nl = c.src.contains('\n') as u64 + 2 * c.src.contains('\r') as u64 + 4 * matches!(a, Out::Ok(_)) as u64 + 8 * rel as u64;
    Ok(cls(nl as u32, c.src.len() as u64))
}
fn rel_path(f: &std::path::Path) -> std::path::PathBuf {
    let cwd = std::env::current_dir().unwrap();
    let mut p = std::path::PathBuf::new();
    for _ in cwd.components().skip(1) { p.push("..") }
    for c in f.components().skip(1) { p.push(c) }
    p
}
pub fn char_classes(ch: char) -> Result<(), String> {
    let u = ch as u32;
    let non = (0xFDD0..=0xFDEF).contains(&u) || u & 0xFFFE == 0xFFFE;
    if is_non_character(&ch) != non { fail!("is_non_character({:?}) is {}", ch, !non) }
    let key = if u < 128 { ch.is_ascii_alphanumeric() || "_-.:".contains(ch) } else { !non };
    if is_char_available_in_key(&ch) != key { fail!("is_char_available_in_key({:?}) is {}", ch, !key) }
    let val = !(ws(ch) || u == 0 || "\"'<>/=`".contains(ch));
    if is_char_available_in_value(&ch) != val { fail!("is_char_available_in_value({:?}) is {}", ch, !val) }
    Ok(())
}
fn c22(c: &Case) -> R {
    let nm = src_chars(&c.src);
    for ch in &nm { char_classes(*ch)? }
    let up = |s: &str| s.to_ascii_uppercase();
    let by = |case: u32| -> bool {
        RAW.iter().any(|r| nm.len() == r.len() && nm.iter().zip(r.chars()).all(|(a, b)| match case { 0 => *a == b, 1 => *a == b || a.to_ascii_lowercase() == b, _ => *a == b || a.to_ascii_uppercase() == b }))
    };
    let _ = up;
    for (i, cs) in [None, Some(NameCase::Lower), Some(NameCase::Upper)].iter().enumerate() {
        let g = is_content_tag(&nm, cs);
        if g != by(i as u32) { fail!("is_content_tag({:?}, case {}) is {}", c.src, i, g) }
    }
    let l = low(&nm);
    for t in [NodeType::AbstractRoot, NodeType::HTMLDOCTYPE, NodeType::Comment, NodeType::Text, NodeType::SpacesBetweenTag, NodeType::Tag, NodeType::TagEnd, NodeType::XMLCDATA] {
        let want = if VOID.contains(&l.as_str()) { false } else if l == "title" || l == "textarea" { matches!(t, NodeType::Text | NodeType::SpacesBetweenTag) } else if t == NodeType::XMLCDATA { l == "svg" || l == "math" } else { true };
        let g = allow_insert(&nm, t);
        if g != want { fail!("allow_insert({:?}, {:?}) is {}", c.src, t, g) }
    }
    Ok(1 << 60 | nm.len() as u64 | (VOID.contains(&l.as_str()) as u64) << 10 | (RAW.contains(&l.as_str()) as u64) << 11)
}
fn c23(c: &Case, po: &Po) -> R {
    let po = nofix(po);
    let src = chars(c);
    let Ok(r) = rf::parse(&src, &po) else { return Ok(0) };
    let Out::Ok(d) = real::parse(&c.src, &po) else { return Ok(0) };
    let root = d.get_root_node();
    let ps = pair(&r, &root);
    for (i, n) in ps {
        let x = &r.nodes[i];
        let n = n.borrow();
        if real::kind(&n).map(|k| if k == K::Spaces { K::Text } else { k }) != Some(if x.k == K::Spaces { K::Text } else { x.k }) { return Ok(0) }
        if n.begin_at != x.begin { fail!("{:?} node starts at {}, recorded {}", x.k, x.begin, n.begin_at) }
        if let Some(e) = x.end { if x.k != K::Cdata && n.end_at != e { fail!("{:?} node ends at {}, recorded {}", x.k, e, n.end_at) } }
    }
    Ok(if r.nodes.len() > 1 { cls(r.feat, src.len() as u64) } else { 0 })
}

fn c24(c: &Case, ro: &Ro) -> R {
    let t = src_chars(&c.src);
    let blank = t.iter().all(|x| ws(*x));
    for at in [None, Some(c.po as usize), Some(usize::MAX)] {
        let n = Node::create_text_node(t.clone(), at);
        let want = if blank { NodeType::SpacesBetweenTag } else { NodeType::Text };
        if n.node_type != want { fail!("create_text_node({:?}) is a {:?}", c.src, n.node_type) }
        if n.content.as_deref() != Some(&t[..]) { fail!("create_text_node({:?}) has the content {:?}", c.src, n.content) }
        if n.begin_at != at.unwrap_or(0) || n.end_at != n.begin_at { fail!("create_text_node at {:?} is at {}..{}", at, n.begin_at, n.end_at) }
        if n.index != 0 || n.parent.is_some() || n.root.is_some() || n.prev.is_some() || n.end_tag.is_some() || n.childs.is_some() || n.meta.is_some() { fail!("a new text node has links") }
        let out = n.build(&real::ropts(&Ro::from_bits(0), false), false);
        if out != t { fail!("a new text node with {:?} renders as {:?}", c.src, out) }
    }
    let _ = ro;
    for k in [NodeType::AbstractRoot, NodeType::HTMLDOCTYPE, NodeType::Comment, NodeType::Text, NodeType::SpacesBetweenTag, NodeType::Tag, NodeType::TagEnd, NodeType::XMLCDATA] {
        let n = Node::new(k, t.len());
        if n.node_type != k || n.begin_at != t.len() || n.end_at != t.len() || n.index != 0 || n.content.is_some() || n.parent.is_some() || n.root.is_some() || n.prev.is_some() || n.end_tag.is_some() || n.childs.is_some() || n.meta.is_some() { fail!("Node::new({:?}, {})", k, t.len()) }
    }
    for ch in &t {
        let want = ws(*ch) || "\"'<>=`".contains(*ch);
        if Attr::need_quoted_char(ch) != want { fail!("need_quoted_char({:?}) is {}", ch, !want) }
    }
    let data = |v: &[char]| AttrData { content: v.to_vec() };
    let id = low(&t) == "id";
    for (key, val) in [(Some(&t[..]), Some(&t[..])), (Some(&t[..]), None), (None, Some(&t[..])), (Some(&['I', 'd'][..]), Some(&t[..]))] {
        let a = Attr { key: key.map(data), value: val.map(data), quote: None, need_quote: false };
        let want = if key.map_or(false, |k| id && k == &t[..] || k == ['I', 'd']) { val.map(|v| v.iter().collect::<String>()) } else { None };
        if a.check_if_id() != want { fail!("check_if_id of {:?}={:?} is {:?}", key, val, a.check_if_id()) }
    }
    let mut m = TagMeta::default();
    m.name = t.clone();
    m.is_void = c.po & 1 == 1;
    let q = [None, Some('"'), Some('\'')][c.po as usize % 3];
    let mut want: Vec<(Option<Vec<char>>, Option<Vec<char>>, Option<char>)> = vec![];
    for i in 0..3usize {
        if (c.po >> i) & 1 == 0 { m.add_attr_key(); want.push((Some(vec![]), None, None)) } else { m.add_attr_value(q); want.push((None, Some(vec![]), q)) }
        if (c.po >> (i + 1)) & 1 == 0 { m.set_attr_key(t.clone()); want.last_mut().unwrap().0 = Some(t.clone()) }
        if (c.po >> (i + 2)) & 1 == 0 { m.set_attr_value(t.clone(), q); let w = want.last_mut().unwrap(); w.1 = Some(t.clone()); w.2 = q }
    }
    let got: Vec<_> = m.attrs.iter().map(|a| (a.key.as_ref().map(|d| d.content.clone()), a.value.as_ref().map(|d| d.content.clone()), a.quote)).collect();
    if got != want || m.attrs.iter().any(|a| a.need_quote) || m.name != t || m.is_void != (c.po & 1 == 1) { fail!("the attribute setters give {:?} instead of {:?}", got, want) }
    let (x, y) = (Rc::new(std::cell::RefCell::new(Node::create_text_node(t.clone(), None))), Rc::new(std::cell::RefCell::new(Node::create_text_node(t.clone(), None))));
    if !Node::is_same(&x, &x.clone()) || Node::is_same(&x, &y) { fail!("is_same") }
    Ok(cls(c.po, t.len().min(9) as u64 | (blank as u64) << 8 | (id as u64) << 9))
}
