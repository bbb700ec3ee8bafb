P = "src/parser.rs"
BUGS = [
dict(id="c01", property="C02", needs="an element with a name of two characters inside a pre element", breaks="rendering panics with a slice out of range",
 edits=[(P, "						chars_trim_end(content),\n						&PRE_TAG_NAME,", "						chars_trim_end(&content[..content.len().clamp(content.len() / 2 * 3, PRE_TAG_NAME.len())]),\n						&PRE_TAG_NAME,")],
 demo='let x = std::panic::catch_unwind(|| r("<pre><em>x</em></pre>", po(), ro())); match x { Ok(s) if s == "<pre><em>x</em></pre>" => {}, _ => std::process::exit(1) }'),
dict(id="c02", property="C06", needs="input that ends in whitespace after a text inside an open element", breaks="the trailing whitespace of the last text is lost",
 edits=[(P, "				last_node.content = Some(self.prev_chars.clone());\n", "				last_node.content = Some(if cur_depth > 1 && !self.repeat_whitespace {\n					chars_trim_end(&self.prev_chars).to_vec()\n				} else {\n					self.prev_chars.clone()\n				});\n")],
 demo='if r("<a>x \\n", ParseOptions { auto_fix_unclosed_tag: true, ..po() }, ro()) != "<a>x \\n</a>" { std::process::exit(1) }'),
dict(id="c03", property="C11", needs="an id whose value starts or ends with whitespace", breaks="the lookup is not exact on the value",
 edits=[(P, "					return Some(chars_to_string(&value.content));\n", "					return Some(chars_to_string(&value.content).trim().to_string());\n")],
 demo='let d = Doc::parse("<a id=\\" x\\"></a>", po()).unwrap(); if d.get_element_by_id("x").is_some() || d.get_element_by_id(" x").is_none() { std::process::exit(1) }'),
dict(id="c04", property="C11", needs="an ID attribute in upper case", breaks="the element is not found",
 edits=[(P, "if is_equal_chars(&key.content, &['i', 'd'], &Some(NameCase::Lower)) {", "if is_equal_chars(&['i', 'd'], &key.content, &Some(NameCase::Lower)) {")],
 demo='let d = Doc::parse("<a Id=x></a>", po()).unwrap(); if d.get_element_by_id("x").is_none() { std::process::exit(1) }'),
dict(id="c05", property="C13", needs="a pre element in upper case", breaks="whitespace inside PRE is collapsed",
 edits=[(P, "is_in_pre || is_equal_chars(tag_name, &PRE_TAG_NAME, &Some(NameCase::Lower));", "is_in_pre || is_equal_chars(tag_name, &PRE_TAG_NAME, &None);")],
 demo='if r("<PRE>a  b</PRE>", po(), RenderOptions { minify_spaces: true, ..ro() }) != "<PRE>a  b</PRE>" { std::process::exit(1) }'),
dict(id="c06", property="C13", needs="an element whose children are a comment and whitespace", breaks="whitespace between a comment and the end tag is kept",
 edits=[(P, "					Some(childs) => childs.len() == 1 && childs[0].borrow().node_type == NodeType::Text,", "					Some(childs) => {\n						let mut rest = childs.iter().filter(|child| child.borrow().node_type != NodeType::Comment);\n						matches!((rest.next(), rest.next()), (Some(child), None) if child.borrow().node_type == NodeType::Text)\n					}")],
 demo='if r("<a><!--x--> </a>", po(), RenderOptions { minify_spaces: true, ..ro() }) != "<a><!--x--></a>" { std::process::exit(1) }'),
dict(id="c07", property="C19", needs="a math element inside an svg element, then a self closing element", breaks="the svg scope ends with the nested math element",
 edits=[(P, "			if self.in_special.is_none() {\n", "			if self.in_special.is_none() || SPECIAL_TAG_MAP.contains_key(&lc_tag_name) {\n")],
 demo='if Doc::parse("<svg><math></math><path/></svg>", po()).is_err() { std::process::exit(1) }'),
dict(id="c09", property="C21", needs="a file of more than 1 MiB", breaks="the file is cut",
 edits=[(P, "		let file = File::open(file_path)?;\n", "		let file = File::open(file_path)?.take(1 << 20);\n")],
 demo='let p = std::path::Path::new(&std::env::var("SCRATCH").unwrap()).join("f.html"); let s = "x".repeat(1100000); std::fs::write(&p, &s).unwrap(); if Doc::parse_file(&p, po()).unwrap().render(&ro()) != s { std::process::exit(1) }'),
dict(id="c10", property="C24", needs="a text made of a no-break space", breaks="it becomes a whitespace node",
 edits=[(P, "		for ch in &content {\n			if !ch.is_ascii_whitespace() {", "		for ch in &content {\n			if !ch.is_whitespace() {")],
 demo="if Node::create_text_node(vec!['\\u{a0}'], None).node_type != NodeType::Text { std::process::exit(1) }"),
dict(id="c12", property="C10", needs="a '=' directly behind a slash that follows a key", breaks="'=' behind a slash becomes the value of the key before it",
 edits=[(P, "			// set tag code in\n			doc.set_tag_code_in(TagCodeIn::Wait);\n			doc.handle = parse_tag_self_closing;", "			// set tag code in\n			doc.set_tag_code_in(TagCodeIn::KeyEnd);\n			doc.handle = parse_tag_self_closing;")],
 demo='if Doc::parse("<a b/=c></a>", po()).is_ok() { std::process::exit(1) }'),
dict(id="c13", property="C04", needs="a comment that contains '--!>'", breaks="the comment ends early and the '!' is lost",
 edits=[(P, "			if prev_char == end_symbol && chars[total - 2] == end_symbol {\n				// remove suffix <comment>'--' or <cdata>']]'\n				doc.prev_chars.truncate(total - 2);\n", "			let bang = total > 2 && prev_char == '!' && chars[total - 2] == DASH_CHAR && chars[total - 3] == DASH_CHAR;\n			if bang && end_symbol == DASH_CHAR || prev_char == end_symbol && chars[total - 2] == end_symbol {\n				// remove suffix <comment>'--' or <cdata>']]'\n				doc.prev_chars.truncate(if bang { total - 3 } else { total - 2 });\n")],
 demo='if r("<!-- a --!> b -->", po(), ro()) != "<!-- a --!> b -->" { std::process::exit(1) }'),
dict(id="c14", property="C15", needs="an attribute value with a form feed", breaks="the value is split when the rendering is parsed again",
 edits=[(P, "		ch.is_ascii_whitespace() || MUST_QUOTE_ATTR_CHARS.contains(ch)", "		matches!(ch, ' ' | '\\t' | '\\r' | '\\n') || MUST_QUOTE_ATTR_CHARS.contains(ch)")],
 demo='if r("<a b=\\"c\\x0Cd\\"></a>", po(), RenderOptions { remove_attr_quote: true, ..ro() }) != "<a b=\\"c\\x0Cd\\"></a>" { std::process::exit(1) }'),
dict(id="c15", property="C07", needs="case_sensitive_tagname together with auto_fix_unexpected_endtag", breaks="an end tag in another letter case closes the element",
 edits=[(P, "						if doc.parse_options.case_sensitive_tagname && !is_total_same {", "						if doc.parse_options.case_sensitive_tagname\n							&& !is_total_same\n							&& !doc.parse_options.auto_fix_unexpected_endtag\n						{")],
 demo='if Doc::parse("<a></A>", ParseOptions { auto_fix_unexpected_endtag: true, case_sensitive_tagname: true, ..po() }).is_ok() { std::process::exit(1) }'),
dict(id="c16", property="C08", needs="a bare '<' after a whitespace text, rendered with minify_spaces", breaks="the text with the '&lt;' counts as whitespace between tags and is dropped",
 edits=[(P, "		self.repeat_whitespace = false;\n		self.set_code_in(CodeTypeIn::TextNode);", "		self.repeat_whitespace = self.repeat_whitespace && c.is_ascii_whitespace();\n		self.set_code_in(CodeTypeIn::TextNode);")],
 demo='let o = || ParseOptions { auto_fix_unescaped_lt: true, ..po() }; let m = || RenderOptions { minify_spaces: true, ..ro() }; if r("<a> < <b></b></a>", o(), m()) != r("<a> &lt; <b></b></a>", o(), m()) { std::process::exit(1) }'),
dict(id="c18", property="C12", needs="an error behind a U+0085 character", breaks="U+0085 counts as a line break",
 edits=[("src/position.rs", "				if c == '\\r' {", "				if c == '\\r' || c == '\\u{85}' {")],
 demo='let e = Doc::parse("a\\u{85}b<?", po()).err().unwrap().to_string(); if !e.contains("line:1,col:4") { println!("{}", e); std::process::exit(1) }'),
dict(id="c19", property="C18", needs="the position of the end tag of a copied element", breaks="the end tag of the copy has position 0",
 edits=[(P, "				.map(|end_tag| end_tag.borrow().clone_node_with(reduce_code_at)),", "				.map(|end_tag| end_tag.borrow().clone_node()),")],
 demo='let d = Doc::parse("<a>x</a>", po()).unwrap(); let n = d.get_root_node().borrow().childs.as_ref().unwrap()[0].clone(); let c = n.borrow().clone_node(); let a = n.borrow().end_tag.as_ref().unwrap().borrow().begin_at; let b = c.borrow().end_tag.as_ref().unwrap().borrow().begin_at; if a != b { std::process::exit(1) }'),
dict(id="c20", property="C09", needs="a no-break space between the name and '>' in the content of a raw text element", breaks="the raw text ends early",
 edits=[(P, "			if !prev_char.is_ascii_whitespace() {\n				break;\n			} else {\n				prev_len = cur_index;", "			if !prev_char.is_whitespace() {\n				break;\n			} else {\n				prev_len = cur_index;")],
 demo='let d = Doc::parse("<script>a</script\\u{a0}>b</script>", po()); if d.is_err() { std::process::exit(1) }'),
dict(id="c22", property="C05", needs="end tag names that differ in the case of a non ASCII letter", breaks="names are compared ignoring the case of non ASCII letters",
 edits=[(P, "				// not equal\n				return (false, false);", "				// not equal\n				if cmp_ch.is_ascii() || cmp_ch.to_lowercase().ne(ch.to_lowercase()) {\n					return (false, false);\n				}")],
 demo='if Doc::parse("<a\\u{e9}></a\\u{c9}>", po()).is_ok() { std::process::exit(1) }'),
dict(id="c24", property="C16", needs="a quote in a title rendered with encode_content", breaks="quotes are encoded too",
 edits=[(P, "	let character_set = CharacterSet::Html;\n", "	let character_set = CharacterSet::SpecialChars;\n")],
 demo='if r("<title>\'</title>", po(), RenderOptions { encode_content: true, ..ro() }) != "<title>\'</title>" { std::process::exit(1) }'),
dict(id="c25", property="C20", needs="a void element before the html element", breaks="the syntax flag stays true",
 edits=[(P, "									} else {\n										syntax_ok = false;", "									} else if !meta.borrow().is_void {\n										syntax_ok = false;")],
 demo='if Doc::parse("<br><html></html>", po()).unwrap().get_root_node().borrow().is_document() != (true, false) { std::process::exit(1) }'),
dict(id="c26", property="C14", needs="remove_endtag_space inside a pre element", breaks="the space stays",
 edits=[(P, "					if options.remove_endtag_space {", "					if options.remove_endtag_space && !is_in_pre {")],
 demo='if r("<pre><b></b ></pre>", po(), RenderOptions { remove_endtag_space: true, ..ro() }) != "<pre><b></b></pre>" { std::process::exit(1) }'),
]
