P = "src/parser.rs"
BUGS = [
dict(id="b01", property="C01", needs="a raw text element whose content is mostly whitespace followed by '>'", breaks="parsing panics with an index underflow instead of returning",
 edits=[(P, "\t\t// check if need detect again\n\t\tif prev_len >= detect_len {", "\t\t// check if need detect again\n\t\tif prev_len >= 2 {")],
 demo='let x = std::panic::catch_unwind(|| { let _ = Doc::parse("<script>/script      >", po()); let _ = Doc::parse("<script>script>", po()); let _ = Doc::parse("<script>pt      ></script>", po()); }); if x.is_err() { std::process::exit(1) }'),
dict(id="b02", property="C01", needs="an end tag that consists of whitespace only, as in '</  >'", breaks="parsing panics",
 edits=[(P, """	let mut end_index: usize = target.len();
	for ch in target.iter().rev() {
		if !ch.is_ascii_whitespace() {
			break;
		}
		end_index -= 1;
	}
	&target[..end_index]""", """	let last = target.iter().rposition(|ch| !ch.is_ascii_whitespace());
	match last {
		Some(index) => &target[..=index],
		None => &target[..target.len().min(1) - 1],
	}""")],
 demo='let x = std::panic::catch_unwind(|| { let _ = Doc::parse("<a></>", po()); }); if x.is_err() { std::process::exit(1) }'),
dict(id="b03", property="C02", needs="an attribute with an empty quoted value rendered with remove_attr_quote", breaks="rendering panics",
 edits=[(P, "content.is_empty() || content.iter().any(Attr::need_quoted_char)", "Attr::need_quoted_char(&content[0]) || content[1..].iter().any(Attr::need_quoted_char)")],
 demo='let x = std::panic::catch_unwind(|| r("<a b=\\"\\"></a>", po(), RenderOptions { remove_attr_quote: true, ..ro() })); if x.is_err() { std::process::exit(1) }'),
dict(id="b04", property="C03", needs="an element closed by the auto fix at the end of the input, looked at through its end tag", breaks="the end tag of an auto-closed element has the wrong parent",
 edits=[(P, "\t\tfor tag_node in unclosed {\n", "\t\tfor (depth, tag_node) in unclosed.iter().enumerate() {\n"),
        (P, "end.parent = Some(Rc::downgrade(tag_node));", "end.parent = Some(Rc::downgrade(if depth > 0 { &unclosed[depth - 1] } else { tag_node }));")],
 demo='''let d = Doc::parse("<a><b>", ParseOptions { auto_fix_unclosed_tag: true, ..po() }).unwrap();
 let root = d.get_root_node(); let a = root.borrow().childs.as_ref().unwrap()[0].clone(); let b = a.borrow().childs.as_ref().unwrap()[0].clone();
 let e = b.borrow().end_tag.clone().unwrap(); let p = e.borrow().parent.as_ref().unwrap().upgrade().unwrap();
 if !Node::is_same(&p, &b) { std::process::exit(1) }'''),
dict(id="b05", property="C04", needs="a comment that ends in more than two dashes", breaks="the extra dashes of the comment are lost in the rendering",
 edits=[(P, "				doc.prev_chars.truncate(total - 2);\n", "				doc.prev_chars.truncate(total - 2);\n				while doc.prev_chars.len() > 1 && doc.prev_chars.ends_with(&[end_symbol, end_symbol]) {\n					doc.prev_chars.pop();\n				}\n")],
 demo='if r("<!-- a ---->", po(), ro()) != "<!-- a ---->" { std::process::exit(1) }'),
dict(id="b06", property="C05", needs="start and end tag names that differ in a digit", breaks="<h1></h2> style end tags are accepted",
 edits=[(P, "			_ => {\n				// not equal\n				return (false, false);", "			'0'..='9' => {\n				if !ch.is_ascii_digit() {\n					return (false, false);\n				}\n			}\n			_ => {\n				// not equal\n				return (false, false);")],
 demo='if Doc::parse("<h1>a</h2>", po()).is_ok() { std::process::exit(1) }'),
dict(id="b07", property="C06", needs="input ending inside an unquoted attribute value of an unclosed element", breaks="the last attribute value is lost",
 edits=[(P, "			let quote = if self.mark_char == WS_CHAR {\n				None\n			} else {\n				Some(self.mark_char)\n			};\n			self.set_tag_attr_value(quote);", "			if self.mark_char != WS_CHAR {\n				self.set_tag_attr_value(Some(self.mark_char));\n			}")],
 demo='if r("<a><b c=d", ParseOptions { auto_fix_unclosed_tag: true, ..po() }, ro()) != "<a><b c=d></b></a>" { std::process::exit(1) }'),
dict(id="b08", property="C07", needs="a stray end tag in another letter case pattern while the innermost element has another name of the same length", breaks="a stray end tag of the same length closes the element",
 edits=[(P, "			let mut is_endtag_ok = false;\n			// check if the tag matched\n			if doc.chain_nodes.len() > 1 {", "			let mut is_endtag_ok = false;\n			// check if the tag matched\n			if doc.chain_nodes.len() > 1 && (fix_end_tag_name.len() > 1 || !doc.parse_options.auto_fix_unexpected_endtag || doc.chain_nodes.len() < 4) {")],
 demo='let o = ParseOptions { auto_fix_unexpected_endtag: true, ..po() }; if r("<i><i><i>x</i></i></i>", o, ro()) != "<i><i><i>x</i></i></i>" { std::process::exit(1) }'),
dict(id="b09", property="C08", needs="a bare '<' directly followed by another '<' after a text", breaks="the second '<' is not treated as a tag opening",
 edits=[(P, "		let is_end_text = c == TAG_BEGIN_CHAR;\n", "		let is_end_text = c == TAG_BEGIN_CHAR && !matches!(node_type, NodeType::SpacesBetweenTag | NodeType::Comment);\n")],
 demo='let o = ParseOptions { auto_fix_unescaped_lt: true, ..po() }; let s = r("<!--x--><<b></b>", o, ro()); if s != "<!--x-->&lt;<b></b>" { std::process::exit(1) }'),
dict(id="b10", property="C09", needs="a raw text element with an upper case start tag and a lower case end tag", breaks="the end tag is not recognised",
 edits=[(P, "							'A'..='Z' => detect_char.to_ascii_lowercase() == prev_char,\n", "")],
 demo='if r("<STYLE>a</style>", po(), ro()) != "<STYLE>a</style>" { std::process::exit(1) }'),
dict(id="b11", property="C10", needs="a tag that repeats an attribute name in another letter case", breaks="the name map gives the last instead of the first occurrence",
 edits=[(P, "			meta.lc_name_map.entry(key_name).or_insert(index);", "			meta.lc_name_map.insert(key_name, index);")],
 demo='let d = Doc::parse("<a x=1 y X=2></a>", po()).unwrap(); let root = d.get_root_node(); let a = root.borrow().childs.as_ref().unwrap()[0].clone(); let n = a.borrow(); let m = n.meta.as_ref().unwrap().borrow(); if m.lc_name_map["x"] != 0 { std::process::exit(1) }'),
dict(id="b12", property="C11", needs="an id attribute whose value is written without quotes", breaks="the element is not found by its id",
 edits=[(P, "			doc.set_tag_attr_value(None);\n			doc.set_tag_code_in(TagCodeIn::ValueEnd);", "			let value = doc.clean_chars_to_vec();\n			if let Some(meta) = &doc.current_node.borrow().meta {\n				meta.borrow_mut().set_attr_value(value, None);\n			}\n			doc.set_tag_code_in(TagCodeIn::ValueEnd);")],
 demo='let d = Doc::parse("<a id=x></a>", po()).unwrap(); if d.get_element_by_id("x").is_none() { std::process::exit(1) }'),
dict(id="b13", property="C12", needs="an error after \\r\\n line breaks that follow each other directly", breaks="line numbers are wrong after \\r\\n\\r\\n",
 edits=[("src/position.rs", "				prev_char = c;\n", "				if prev_char != '\\n' || need_move_col {\n					prev_char = c;\n				}\n")],
 demo='let e = Doc::parse("\\r\\n\\r\\n\\r\\n<?", po()).err().unwrap().to_string(); if !e.contains("line:4,") { println!("{}", e); std::process::exit(1) }'),
dict(id="b14", property="C13", needs="a form feed or carriage return run inside a text", breaks="a run of different whitespace characters is not collapsed",
 edits=[(P, "						if c.is_ascii_whitespace() {\n							if prev_is_space {", "						if c.is_ascii_whitespace() {\n							if prev_is_space && c != '\\x0C' {")],
 demo='if r("<a>x \\x0Cy</a>", po(), RenderOptions { minify_spaces: true, ..ro() }) != "<a>x y</a>" { std::process::exit(1) }'),
dict(id="b15", property="C14", needs="a non ASCII upper case letter in a tag name", breaks="lowercase_tagname changes non ASCII letters",
 edits=[(P, "							result.push(ch.to_ascii_lowercase());\n", "							result.extend(ch.to_lowercase());\n")],
 demo='if r("<aÉ></aÉ>", po(), RenderOptions { lowercase_tagname: true, ..ro() }) != "<aÉ></aÉ>" { std::process::exit(1) }'),
dict(id="b16", property="C15", needs="a quoted attribute value that contains '>' only", breaks="the quotes are removed and the rendered tag ends early",
 edits=[(P, "		DOUBLE_QUOTE_CHAR,\n		SINGLE_QUOTE_CHAR,\n		TAG_BEGIN_CHAR,\n		TAG_END_CHAR,\n", "		DOUBLE_QUOTE_CHAR,\n		SINGLE_QUOTE_CHAR,\n		TAG_BEGIN_CHAR,\n")],
 demo='if r("<a b=\\"x>y\\"></a>", po(), RenderOptions { remove_attr_quote: true, ..ro() }) != "<a b=\\"x>y\\"></a>" { std::process::exit(1) }'),
dict(id="b17", property="C16", needs="decode_entity together with minify_spaces on a text inside pre", breaks="entities inside pre are not decoded when minify_spaces is set",
 edits=[(P, "					// decode entity\n					if options.decode_entity {", "					// decode entity\n					if options.decode_entity && (!is_in_pre || !options.minify_spaces) {")],
 demo='if r("<pre>&amp;</pre>", po(), RenderOptions { minify_spaces: true, decode_entity: true, ..ro() }) != "<pre>&</pre>" { std::process::exit(1) }'),
dict(id="b18", property="C17", needs="inner text of an element that contains a nested element with a comment", breaks="the comment shows up in the inner text",
 edits=[(P, "					if is_root || !is_inner_text {", "					if is_root || !is_inner_text || is_in_pre {")],
 demo='let d = Doc::parse("<pre>a<!--c-->b</pre>", po()).unwrap(); if d.render_text(&ro()) != "ab" { std::process::exit(1) }'),
dict(id="b19", property="C18", needs="cloning an element and then changing the end tag of the copy", breaks="the copy shares its end tag with the original",
 edits=[(P, "				.map(|end_tag| end_tag.borrow().clone_node_with(reduce_code_at)),", "				.map(|end_tag| {\n					if reduce_code_at > 0 {\n						end_tag.borrow().clone_node_with(reduce_code_at)\n					} else {\n						Rc::clone(end_tag)\n					}\n				}),")],
 demo='''let d = Doc::parse("<a></a>", po()).unwrap(); let root = d.get_root_node(); let a = root.borrow().childs.as_ref().unwrap()[0].clone();
 let c = a.borrow().clone_node(); c.borrow().end_tag.as_ref().unwrap().borrow_mut().content = Some(vec!['z']);
 if d.render(&ro()) != "<a></a>" { std::process::exit(1) }'''),
dict(id="b20", property="C19", needs="an svg element nested in another svg element", breaks="the inner svg ends the scope of the outer one",
 edits=[(P, "					if doc.chain_nodes.len() < *depth {", "					if doc.chain_nodes.len() <= *depth && (doc.chain_nodes.len() < *depth || fix_end_tag_name.len() == 3) {")],
 demo='if r("<svg><svg></svg><x/></svg>", po(), ro()).starts_with("ERR") { std::process::exit(1) }'),
dict(id="b21", property="C20", needs="a text after the html element", breaks="text behind the html element is not reported as a syntax problem",
 edits=[(P, "						_ => {\n							syntax_ok = false;\n						}\n					}\n				}\n			}\n			if !is_document {", "						_ => {\n							syntax_ok = find_html && child_node.index + 1 == childs.len();\n						}\n					}\n				}\n			}\n			if !is_document {")],
 demo='let d = Doc::parse("<html></html>x", po()).unwrap(); if d.get_root_node().borrow().is_document() != (true, false) { std::process::exit(1) }'),
dict(id="b22", property="C21", needs="a file that starts with a byte order mark", breaks="the mark is dropped, so the tree and positions differ from parse",
 edits=[(P, "		Doc::parse(&content, options)\n", "		Doc::parse(content.trim_start_matches('\\u{feff}'), options)\n")],
 demo='''let f = format!("{}/f.html", std::env::var("SCRATCH").unwrap()); std::fs::write(&f, "\\u{feff}<a></a>").unwrap();
 if Doc::parse_file(&f, po()).unwrap().render(&ro()) != "\\u{feff}<a></a>" { std::process::exit(1) }'''),
dict(id="b23", property="C22", needs="one particular code point, U+8FFFF", breaks="the non-character U+8FFFF is not recognised",
 edits=[("src/util.rs", "				| '\\u{8FFFF}'\n", "")],
 demo="if !is_non_character(&'\\u{8FFFF}') { std::process::exit(1) }"),
dict(id="b24", property="C23", needs="a comment that directly follows another comment", breaks="the second comment records the wrong start",
 edits=[(P, "					let begin_at = doc.mem_position;\n", "					let begin_at = if matches!(doc.current_node.borrow().node_type, NodeType::Comment) {\n						doc.current_node.borrow().end_at - 1\n					} else {\n						doc.mem_position\n					};\n")],
 demo='''let d = Doc::parse("<!--a--><!--b-->", po()).unwrap(); let root = d.get_root_node(); let c = root.borrow().childs.as_ref().unwrap()[1].clone(); if c.borrow().begin_at != 8 { std::process::exit(1) }'''),
]
