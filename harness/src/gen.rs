//! Case generation: exhaustive token sequences, then seeded random documents with mutations.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
#[derive(Clone, Default)]
pub struct Dict { pub words: Vec<String>, pub chars: Vec<char>, pub ints: Vec<usize> }

pub const NAMES: [&str; 30] = ["a", "b", "div", "p", "i", "A", "Ab", "aB", "x-y", "h1", "pre", "PRE", "Pre", "svg", "SVG", "math", "Math", "script", "style", "title", "textarea", "Script", "TITLE", "br", "img", "BR", "html", "HTML", "prex", "svgx"];
const TEXTS: [&str; 30] = ["x", " ", "  ", "\n", " x  y ", "\t\n ", "a\r\nb", "\r", "&lt;", "&amp;  &lt;x", "&", "&;", ";", "é", "\u{a0}", "\u{b}", "\u{c}", "日本", "\u{fdd0}", "\u{0}", "-", "--", "]]", "=", "\"", "'", "/", "!", "a & b &gt; c", ">"];
const KEYS: [&str; 14] = ["id", "ID", "Id", "a", "A", "class", "data-x", "href", "a\"b", "'q", "x:y", "é", "i", "idx"];
const VALS: [&str; 20] = ["v", "", " ", "a b", "x/y", "/", "/p", "=", "a=b", "<", ">x", "\"", "'", "`", "v/", "V", "é", "&lt;", "a\tb", "id"];

pub struct Profile {
    pub tokens: Vec<&'static str>,
    pub chars: Vec<char>,
    pub po: Vec<u32>,
    pub ro_all: bool,
    pub wrap: Vec<(&'static str, &'static str)>,
    /// weights: text, void, raw, comment, doctype, special/cdata, selfclose, stray, lt, unclosed, mutate
    pub w: [usize; 11],
}
pub fn profile(prop: &str) -> Profile {
    let base = |tokens: &[&'static str], chars: &str, po: &[u32], w: [usize; 11]| Profile { tokens: tokens.to_vec(), chars: chars.chars().collect(), po: po.to_vec(), ro_all: false, wrap: vec![("", "")], w };
    let std = [30, 8, 8, 8, 3, 6, 6, 2, 2, 3, 15];
    let doc = ["<a>", "</a>", "<B>", "</b>", "x", " ", "<br>", "<!---->", "<pre>", "</pre>", "<svg>", "</svg>", "<i/>", "<![CDATA[y]]>", "<title>", "</title>"];
    let all: Vec<u32> = (0..64).collect();
    match prop {
        "C01" => { let mut p = base(&["<", "a", ">", "</", "/", "=", "\"", " ", "<!", "--", "[CDATA[", "DOCTYPE", "<svg>", "<title>", "</a>", "<br"], "<>/a =\"!-", &all, [25, 8, 8, 8, 5, 8, 8, 8, 8, 10, 60]); p.wrap = vec![("", ""), ("<svg><a>", ""), ("<a>", "")]; p }
        "C02" => { let mut p = base(&doc, "<>/a =\"!-", &[0, 8, 16, 56, 63], std); p.ro_all = true; p }
        "C03" => base(&["<a>", "</a>", "<b>", "</b>", "x", " ", "<br>", "<!--c-->", "<title>t</title>", "< ", "</z>", "<svg>", "<i/>", "<![CDATA[y]]>", "</svg>", "<!DOCTYPE h/>"], "<>/a =\"!-", &[0, 4, 8, 16, 24, 32, 40, 56, 60], [25, 8, 8, 8, 4, 6, 6, 10, 10, 10, 10]),
        "C04" | "C23" => { let mut p = base(&["<a>", "</a>", "x", " ", "<br/>", "<!--c-->", "<B a=1 >", "</b >", "<title>", "</title>", "<svg>", "</svg>", "<i/>", "<![cdata[y]]>", "<!DOCTYPE h/>"], "<>/a =\"!-", &[0, 1, 2, 4, 6], std); p.wrap = vec![("", ""), ("<a", "</a>"), ("<!--", "-->"), ("<svg><a>", "</a></svg>"), ("<title>", "</title>")]; p }
        "C05" => base(&["<a>", "</a>", "<A>", "</A>", "</a >", "<b>", "</b>", "<br>", "</br>", "<Ab>", "</aB>", "<a/>", "x", "<svg>", "</svg>", "</ a>", "<a_b>", "</a_B>", "<aé>", "</aÉ>"], "</>aA b", &[0, 1, 4, 5], [20, 8, 4, 4, 2, 6, 8, 10, 0, 10, 15]),
        "C06" => { let mut p = base(&["<a>", "</a>", "<B>", "x", " ", "<br>", "<br", "<i", " k", "=", "\"v", "<!--c-->", "<title>t</title>", "<svg>", "</svg>", "</z>"], "<>/a =\"", &[8, 9, 12, 24, 40, 10], [20, 10, 5, 5, 2, 5, 5, 3, 3, 60, 15]); p.wrap = vec![("", ""), ("<a ", ""), ("<b><a ", "")]; p }
        "C07" => base(&["<a>", "</a>", "<b>", "</b>", "</z>", "</a >", "</A>", "x", " ", "<br>", "</>", "<!--c-->", "<title>t</title>", "<svg>", "</svg>", "< "], "</>ab ", &[16, 24, 17, 25, 20, 48, 56], [30, 5, 5, 5, 2, 5, 5, 40, 0, 10, 10]),
        "C08" => base(&["<a>", "</a>", "<b>", "</b>", "<", "< ", "<1", " ", "x", "<br>", "<!--c-->", "<title>t</title>", "&", "<<", "</z>"], "<>/a 1!", &[32, 40, 33, 36, 48, 56], [30, 8, 5, 5, 2, 4, 4, 0, 50, 8, 10]),
        "C09" => { let mut p = base(&["</title>", "</title", "</titl", "</", "<", ">", " ", "x", "e>", "</TITLE>", "</titlE", "</style>", "<b>", "\n", "<!--", "/"], "</>t e", &[0, 1, 8, 9], [10, 2, 60, 2, 0, 4, 2, 0, 0, 3, 20]); p.wrap = vec![("<title>", "</title>"), ("<TitlE>", "</TitlE>"), ("<style>", "</style>"), ("<a><script >", "</script></a>"), ("<textarea>", "</textarea>"), ("<title>", "")]; p }
        "C10" => { let mut p = base(&["a", "=", " ", "\"", "'", "/", "b", "\n", "é", "<", "A"], "a= \"'/b", &[0, 2, 4, 6, 8, 14], [5, 8, 2, 0, 20, 5, 10, 0, 0, 8, 15]); p.wrap = vec![("<t ", "></t>"), ("<br ", ">"), ("<!DOCTYPE ", ">"), ("<t a", " b=c></t>"), ("<br ", "")]; p }
        "C11" => { let mut p = base(&["id", "=", " ", "\"", "a", "ID", "b", "/", "Id=a", "'", "x=\"a\""], "id=ab \"'", &[0, 2, 8], [10, 10, 2, 0, 3, 3, 5, 0, 0, 5, 5]); p.wrap = vec![("<t ", "></t>"), ("<br ", "><i id=a></i>"), ("<t><b ", "></b></t>")]; p }
        "C12" => { let mut p = base(&["\n", "\r", "\r\n", "x", "<a>", "</a>", "</b>", "<", "<!", "<!--", "<!d", "<![", "<svg>", "<i/>", "< ", "=", "<a "], "\n\r<>/a!-= ", &all, [20, 5, 10, 10, 6, 8, 8, 10, 10, 12, 60]); p.wrap = vec![("", ""), ("\r\n", ""), ("<a>\n", ""), ("<a>", "")]; p }
        "C13" => { let mut p = base(&["<a>", "</a>", "x", " ", "\n ", "<pre>", "</pre>", "<PRE/>", "<br>", "<!-- c  -->", "<title> t  </title>", "<svg>", "</svg>", "\t"], "<>/a \n", &[0, 4, 8, 12], [45, 6, 6, 6, 3, 4, 6, 0, 2, 4, 5]); p.ro_all = true; p.wrap = vec![("", ""), ("<pre>", "</pre>"), ("<a>", "</a>"), ("<svg><pre/>", "</svg>")]; p }
        "C14" => { let mut p = base(&["<A>", "</A >", "<Br>", "<BR/>", "x", " ", "<!--C-->", "<bR A=B>", "<Title>T</titlE\n>", "<Svg>", "</svG>", "<I/>", "</a\t >", "<!DOCTYPE H>"], "</>Ab r", &[0, 4, 8], [20, 12, 8, 12, 4, 6, 8, 0, 0, 6, 5]); p.ro_all = true; p }
        "C15" => { let mut p = base(&["a", "=", "\"", "'", "b", " ", "/", "<", ">", "`", "\"\"", "é", "\t"], "a=\"' /`", &[0], [5, 8, 2, 0, 12, 4, 10, 0, 0, 0, 5]); p.ro_all = true; p.wrap = vec![("<t k=\"", "\"></t>"), ("<t k='", "' ></t>"), ("<br k=\"", "\"/>"), ("<!DOCTYPE \"", "\">"), ("<t a=\"b\" ", "></t>"), ("<svg><i c='d'", "/></svg>")]; p }
        "C16" => { let mut p = base(&["&lt;", "&", ";", "  ", "x", "&amp", "<a>", "</a>", "<title>&<b</title>", "<script>&lt;</script>", "<textarea> >&gt;</textarea>", "&#60;", "&x;", "<!--&lt;-->", "<pre>", "</pre>", "<b k='&lt;'></b>", "&nbsp;"], "&;lt a", &[0, 8], [45, 4, 15, 6, 3, 4, 4, 0, 4, 3, 5]); p.ro_all = true; p.wrap = vec![("", ""), ("<title>", "</title>"), ("<TEXTAREA>", "</TEXTAREA>"), ("<style>", "</style>")]; p }
        "C17" => { let mut p = base(&["<a>", "</a>", "x", " ", "<b>", "</b>", "<br>", "<!--c-->", "<title>t</title>", "<svg>", "</svg>", "<![CDATA[y]]>", "<pre>", "</pre>", "&lt;"], "<>/ab ", &[0, 4, 8], std); p.ro_all = true; p.wrap = vec![("", ""), ("<a>", "</a>"), ("<svg><a>", "</a></svg>")]; p }
        "C18" => { let mut p = base(&["<a id=x>", "</a>", "x", " ", "<br>", "<!--c-->", "<title>t</title >", "<svg>", "</svg>", "<i/>", "<![CDATA[y]]>", "<b k='v'>", "</b>", "</z>", "< "], "<>/a =\"", &[0, 4, 8, 24, 56], std); p.ro_all = true; p.wrap = vec![("", ""), ("xyz <p>", "</p>")]; p }
        "C19" => { let mut p = base(&["<svg>", "</svg>", "<SVG>", "</math>", "<math>", "<g>", "</g>", "<i/>", "<![CDATA[y]]>", "<![CDATA[]>]]>", "<svg/>", "x", "<title/>", "<![", "<br/>", "</SVG>", "<script>s</script>"], "<>/[svg]", &[0, 1, 4, 8, 12], [8, 6, 6, 4, 2, 60, 25, 2, 0, 5, 8]); p.wrap = vec![("", ""), ("<svg>", "</svg>"), ("<svg><g>", "</g></svg>"), ("<math><g>", "</g></math><i/>"), ("<a><svg><svg>", "</svg><g><![CDATA[1]]></g></svg></a>")]; p }
        "C20" => base(&["<html></html>", "<HTML></HTML>", "<a></a>", "x", " ", "<!--c-->", "<!DOCTYPE h>", "<br>", "<html/>", "<htm></htm>", "<svg><html/></svg>"], "<html>/ ", &[0, 4, 8, 40], [25, 10, 4, 15, 15, 3, 6, 0, 2, 4, 4]),
        "C21" => base(&["<a>", "</a>", "\n", "\r", "\r\n", "x", "é", "\u{feff}", "</b>", "<!--", "-->", "<title>\r\n</title>", "<b k='\r'></b>", ""], "\r\n<>a/", &[0, 8, 63], [40, 5, 8, 8, 3, 4, 4, 5, 3, 5, 10]),
        "C22" => base(&["script", "style", "title", "textarea", "svg", "math", "br", "img", "a", "S", "T", "x", "input", "wbr"], "tilesTILEsvgbrBRcpy", &[0], std),
        "C24" => base(&["id", "ID", "x", " ", "\n", "\t", "i", "d", "D", "\"", "é", "\u{a0}", "\u{b}", "\u{c}", "=", "`"], "id ID\t\n\"'<>=x", &[0, 1, 2, 3, 5, 10, 63], std),
        _ => base(&doc, "<>/a =\"!-", &all, std),
    }
}

/// documents with one or two holes, filled with every character (one hole) and every pair of ASCII characters (two holes)
pub fn templates(prop: &str) -> Vec<&'static str> {
    let mut t: Vec<&'static str> = vec!["①②", "<a>①②</a>", "<a①②></a>", "<a ①②></a>", "<①②"];
    t.extend_from_slice(match prop {
        "C05" | "C07" => &["<a①></a②>", "<a①></a①>", "<a></a①②>", "<a></①②>", "<b①/②></b>", "x</①②>y", "<a b=①/></a②>"][..],
        "C09" => &["<title>x</titl①>②</title>", "<title>x</title①②></title>", "<titl①>x</titl②>", "<style>①②</style>", "<script>a</①②script></script>", "<textarea①②</textarea>"],
        "C10" | "C15" | "C11" => &["<t k①=②v></t>", "<t k=①②></t>", "<t k=v①②></t>", "<t k=\"①②\"></t>", "<t k='①'②></t>", "<t ①k②=1></t>", "<!DOCTYPE ①②>", "<t id=①②></t>", "<t I①=x ②d=y></t>", "<br k=①②/>"],
        "C04" | "C23" | "C14" | "C12" => &["<!①②", "<!--①②-->", "<!--a①>②-->", "</a①②>", "<a></a①②>", "<a b①②=c></a>", "<!doctype①②>", "<!DOCTYP①②", "<svg><g><![CDATA[①②]]></g></svg>", "<br①②>", "<br①/②>", "<title>①②</title>", "①②<", "a①<!--b②"],
        "C06" => &["<a①②", "<a b①②", "<a b=①②", "<a b='①②", "<a>①②", "<b><a>①②</a>"],
        "C08" => &["<①②", "x<①②y", "<a><①②</a>", "<①<②"],
        "C13" | "C16" | "C17" => &["<a>①<b></b>②</a>", "<a>①②<b></b></a>", "<pre>①②</pre>", "<a>&①②;</a>", "<title>①②</title>", "<textarea>&①;②</textarea>", "<p①>  </p②>", "<a>x①②y</a>"],
        "C19" | "C20" => &["<sv①><i/></sv②>", "<mat①><i/></mat②>", "<htm①></htm②>", "①<html></html>②", "<svg①><i/></svg②>", "<svg><i①/②></svg>"],
        "C24" => &["i①", "①d", "①②x", "  ①"],
        _ => &[],
    });
    t
}
pub fn fill(t: &str, a: char, b: char) -> String { t.chars().map(|c| if c == '①' { a } else if c == '②' { b } else { c }).collect() }
pub const ODD: [char; 14] = ['\u{85}', '\u{a0}', 'é', 'É', 'İ', 'ı', 'ſ', 'K', '\u{2028}', '\u{3000}', '\u{feff}', 'Ａ', '\u{10ffff}', '\u{1680}'];

fn spaces(r: &mut Rng) -> &'static str { *r.pick(&["", " ", "  ", "\n", "\t ", "\r\n", "\u{c}"]) }
pub fn word(r: &mut Rng, d: &Dict) -> String { if !d.words.is_empty() && r.chance(50) { r.pick(&d.words).clone() } else { r.pick(&TEXTS).to_string() } }
fn flip(r: &mut Rng, s: &str) -> String { s.chars().map(|c| if r.chance(30) { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect() }
/// a name that differs a little
fn near(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    if v.is_empty() { return s.to_string() }
    let i = if v.len() > 1 { 1 + r.below(v.len() - 1) } else { 0 };
    match r.below(7) {
        0 => { v.remove(i); }
        1 => { let c = v[i]; v.insert(i, c) }
        2 => v[i] = char::from_u32(v[i] as u32 + 1).unwrap_or('x'),
        3 => v[i] = char::from_u32(v[i] as u32 ^ 0x20).unwrap_or('x'),
        4 => v[i] = *r.pick(&['1', '2', '-', '_', 'é', 'É', ':', '.', '[', '{', '@', '`', 'ſ', 'K', 'k']),
        5 => v.push(*r.pick(&['1', 'x', '-', '_', 'é'])),
        _ => { v.truncate(i) }
    }
    let o: String = v.into_iter().filter(|c| !c.is_whitespace() && *c != '>' && *c != '/' && *c != '<').collect();
    if o.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) { o } else { s.to_string() }
}
pub fn text(r: &mut Rng, d: &Dict) -> String {
    let mut o = String::new();
    if r.chance(3) && !d.ints.is_empty() {
        let n = (*r.pick(&d.ints) + r.below(3)).saturating_sub(1).min(6000);
        let c = *r.pick(&['x', ' ', 'é', '\n']);
        for _ in 0..n { o.push(c) }
        return o;
    }
    for _ in 0..1 + r.below(3) {
        match r.below(10) {
            0 if !d.chars.is_empty() => o.push(*r.pick(&d.chars)),
            1 => o.push_str(&word(r, d)),
            2 => if let Some(c) = char::from_u32(r.below(0x250) as u32) { o.push(c) },
            _ => o.push_str(r.pick(&TEXTS)),
        }
    }
    o.replace('<', "")
}
fn name(r: &mut Rng, d: &Dict) -> String {
    let mut n = if !d.words.is_empty() && r.chance(20) { r.pick(&d.words).clone() } else { r.pick(&NAMES).to_string() };
    n.retain(|c| !c.is_ascii_whitespace() && c != '>' && c != '/' && c != '<');
    if !n.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) { n.insert(0, 'a') }
    if r.chance(6) { n.push_str(r.pick(&["é", "\"", "1", "2", "-", "_", ":", "=", "[", "{", "@"])) }
    if r.chance(4) { n = near(r, &n) }
    if r.chance(15) { n = flip(r, &n) }
    n
}
pub fn attrs(r: &mut Rng, d: &Dict, max: usize) -> String {
    let mut o = String::new();
    for _ in 0..r.below(max + 1) {
        o.push_str(if r.chance(90) { " " } else { spaces(r) });
        if r.chance(15) { o.push_str(spaces(r)) }
        if r.chance(5) { o.push('/') }
        let k = if !d.words.is_empty() && r.chance(15) { r.pick(&d.words).clone() } else if !d.chars.is_empty() && r.chance(8) { d.chars[r.below(d.chars.len())].to_string() } else { r.pick(&KEYS).to_string() };
        o.push_str(&k);
        if r.chance(70) {
            if r.chance(10) { o.push_str(spaces(r)) }
            o.push('=');
            if r.chance(10) { o.push_str(spaces(r)) }
            let v = if !d.words.is_empty() && r.chance(15) { r.pick(&d.words).clone() } else if !d.chars.is_empty() && r.chance(10) { format!("{}{}", d.chars[r.below(d.chars.len())], r.pick(&VALS)) } else { r.pick(&VALS).to_string() };
            match r.below(4) { 0 => o.push_str(&v), 1 => { o.push('\''); o.push_str(&v.replace('\'', "")); o.push('\'') } _ => { o.push('"'); o.push_str(&v.replace('"', "")); o.push('"') } }
        }
    }
    o
}
fn raw_body(r: &mut Rng, d: &Dict, n: &str) -> String {
    let mut o = String::new();
    for _ in 0..r.below(5) {
        match r.below(10) {
            0 => { o.push_str("</"); o.push_str(n); if r.chance(50) { o.push_str(&n[n.len() - 1..]) } else { o.push('x') } if r.chance(50) { o.push('>') } }
            1 => { o.push_str("</"); o.push_str(&n[..n.len() - 1]); o.push('>') }
            2 => o.push_str(r.pick(&["<b>", "</b>", "<!--", "-->", "<", ">", "</", "a>b", "< /"])),
            3 => { o.push_str("</"); o.push_str(&flip(r, n)); o.push_str(spaces(r)); if r.chance(30) { o.push('>') } }
            4 => o.push_str(spaces(r)),
            5 => { o.push_str("</"); let m = near(r, n); o.push_str(&m); o.push_str(spaces(r)); o.push('>') }
            _ => o.push_str(&text(r, d)),
        }
    }
    o
}
pub fn document(r: &mut Rng, p: &Profile, d: &Dict) -> String {
    let mut o = String::new();
    let cap = if r.chance(10) { 40 } else { 12 };
    let budget = 1 + r.below(cap);
    if r.chance(10) { o.push_str("<!DOCTYPE html>") }
    let deep = if r.chance(2) { if !d.ints.is_empty() && r.chance(60) { (*r.pick(&d.ints) + r.below(4)).min(260) } else { r.below(60) } } else { 0 };
    let mut open: Vec<String> = vec![];
    for _ in 0..deep { let n = r.pick(&["a", "b", "svg", "pre", "div"]).to_string(); o.push_str(&format!("<{}>", n)); open.push(n) }
    let tot: usize = p.w.iter().take(9).sum::<usize>() + 40;
    for _ in 0..budget {
        let mut x = r.below(tot);
        let mut k = 0;
        while k < 9 && x >= p.w[k] { x -= p.w[k]; k += 1 }
        match k {
            0 => o.push_str(&text(r, d)),
            1 => { let n = { let n = *r.pick(&crate::refm::VOID); if r.chance(20) { flip(r, n) } else { n.to_string() } }; o.push_str(&format!("<{}{}{}>", n, attrs(r, d, 3), *r.pick(&["", "", "/", " /", " "]))) }
            2 => { let n = { let n = *r.pick(&crate::refm::RAW); if r.chance(20) { flip(r, n) } else { n.to_string() } }; let at = attrs(r, d, 1); let b = raw_body(r, d, &n); let e = if r.chance(20) { flip(r, &n) } else { n.clone() }; o.push_str(&format!("<{}{}>{}</{}{}>", n, at, b, e, spaces(r))) }
            3 => { let t = if r.chance(20) { r.pick(&["", "-", ">", "->", "--", "<b>", "<!--", "- ->", "->-"]).to_string() } else { text(r, d) }; o.push_str(&format!("<!--{}-->", t)) }
            4 => o.push_str(&format!("<!{}{}{}>", flip(r, "doctype"), if r.chance(90) { " " } else { "\n" }, match r.below(4) { 0 => "html".to_string(), 1 => "html PUBLIC \"-//W3C\" 'x'".into(), 2 => attrs(r, d, 3), _ => "html /".into() })),
            5 => match r.below(5) {
                0 | 1 => { let n = { let k = *r.pick(&["svg", "svg", "math"]); flip(r, k) }; o.push_str(&format!("<{}{}>", n, attrs(r, d, 1))); open.push(n) }
                2 => { o.push_str("<g>"); open.push("g".into()) }
                _ => { let t = if r.chance(30) { r.pick(&["", "]", "]]", "]>", ">", "<b>", "]] >"]).to_string() } else { text(r, d) }; o.push_str(&format!("<![{}[{}]]>", if r.chance(90) { "CDATA".into() } else { flip(r, "CDATA") }, t)) }
            },
            6 => { let n = name(r, d); o.push_str(&format!("<{}{}{}/{}>", n, attrs(r, d, 2), *r.pick(&["", " "]), *r.pick(&["", "", " ", "/"]))) }
            7 => { let n = if r.chance(30) && !open.is_empty() { let i = r.below(open.len()); open[i].clone() } else { name(r, d) }; o.push_str(&format!("</{}{}>", if r.chance(20) { flip(r, &n) } else if r.chance(30) { near(r, &n) } else { n }, spaces(r))) }
            8 => o.push_str(&format!("<{}", *r.pick(&[" ", "<", "1", "=", "", "<<", ">", "é", "\n", "&"]))),
            _ => {
                if !open.is_empty() && r.chance(45) {
                    let n = open.pop().unwrap();
                    o.push_str(&format!("</{}{}>", if r.chance(15) { flip(r, &n) } else if r.chance(2) { near(r, &n) } else { n }, if r.chance(20) { spaces(r) } else { "" }));
                } else {
                    let n = name(r, d);
                    o.push_str(&format!("<{}{}{}>", n, attrs(r, d, 3), if r.chance(10) { spaces(r) } else { "" }));
                    let l = n.to_ascii_lowercase();
                    if crate::refm::RAW.contains(&l.as_str()) { o.push_str(&raw_body(r, d, &n)); o.push_str(&format!("</{}>", n)) } else if !crate::refm::VOID.contains(&l.as_str()) { open.push(n) }
                }
            }
        }
    }
    if !r.chance(p.w[9]) { while let Some(n) = open.pop() { o.push_str(&format!("</{}>", n)); if r.chance(20) { o.push_str(&text(r, d)) } } } else {
        let keep = r.below(open.len() + 1);
        while open.len() > keep { let n = open.pop().unwrap(); o.push_str(&format!("</{}>", n)) }
        if r.chance(40) { let n = name(r, d); o.push_str(&format!("<{}{}", n, attrs(r, d, 3))); if r.chance(30) { let mut v: Vec<char> = o.chars().collect(); for _ in 0..r.below(4) { v.pop(); } o = v.into_iter().collect() } }
    }
    if r.chance(p.w[10]) { o = mutate(r, &o, d) }
    o
}
pub fn mutate(r: &mut Rng, s: &str, d: &Dict) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let n = v.len();
        match r.below(6) {
            0 if n > 0 => { let i = r.below(n); v.remove(i); }
            1 => { let c = if !d.chars.is_empty() && r.chance(30) { *r.pick(&d.chars) } else { *r.pick(&['<', '>', '/', '!', '-', '=', '"', '\'', ' ', 'a', '\n', '\r', '[', ']', '&']) }; v.insert(r.below(n + 1), c) }
            2 if n > 0 => { let i = r.below(n); v.truncate(i) }
            3 if n > 1 => { let (i, j) = (r.below(n), r.below(n)); v.swap(i, j) }
            4 if n > 0 => { let (i, l) = (r.below(n), 1 + r.below(6)); let seg: Vec<char> = v[i..(i + l).min(n)].to_vec(); let at = r.below(n + 1); for (k, c) in seg.into_iter().enumerate() { v.insert((at + k).min(v.len()), c) } }
            _ if n > 0 => { let i = r.below(n); let l = 1 + r.below(8); v.drain(i..(i + l).min(n)); }
            _ => {}
        }
    }
    v.into_iter().collect()
}
