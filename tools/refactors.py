"""Edits that keep the behaviour; the checks have to stay quiet on them.  usage: refactors.py apply <id> | list"""
import sys
F = "/repo/src/parser.rs"
R = {}
R["r01"] = ("C05 C07 C09 C01", [('''	let mut is_total_same = true;
	for (index, ch) in target.iter().enumerate() {
		let cmp_ch = &cmp[index];
		if cmp_ch == ch {
			continue;
		}
		// test if totally same
		is_total_same = false;
		match cmp_ch {
			'a'..='z' => {
				if &cmp_ch.to_ascii_uppercase() != ch {
					return (false, false);
				}
			}
			'A'..='Z' => {
				if &cmp_ch.to_ascii_lowercase() != ch {
					return (false, false);
				}
			}
			_ => {
				// not equal
				return (false, false);
			}
		}
	}
	(true, is_total_same)
''', '''	let is_equal = target
		.iter()
		.zip(cmp.iter())
		.all(|(a, b)| a.eq_ignore_ascii_case(b));
	let is_total_same = is_equal && target == cmp;
	(is_equal, is_total_same)
''')])
R["r02"] = ("C05 C13 C14 C07", [('''	let mut end_index: usize = target.len();
	for ch in target.iter().rev() {
		if !ch.is_ascii_whitespace() {
			break;
		}
		end_index -= 1;
	}
	&target[..end_index]
''', '''	let end_index = target
		.iter()
		.rposition(|ch| !ch.is_ascii_whitespace())
		.map_or(0, |index| index + 1);
	&target[..end_index]
''')])
R["r03"] = ("C10 C01 C06", [('''				// take it as normal key
				doc.prev_chars.push(c);
				// add attr key
				doc.add_tag_attr_key();
				// parse attr key
				doc.set_tag_code_in(TagCodeIn::Key);
''', '''				// take it as normal key
				begin_attr_key(doc, c);
'''), ('''					// add attr key
					doc.add_tag_attr_key();
					// parse attr key
					doc.set_tag_code_in(TagCodeIn::Key);
				}
''', '''					doc.add_tag_attr_key();
					doc.set_tag_code_in(TagCodeIn::Key);
				}
'''), ('''					// take quote value as attribute key too
					doc.add_tag_attr_key();
					doc.prev_chars.push(c);
					doc.set_tag_code_in(TagCodeIn::Key);
					return Ok(());
''', '''					// take quote value as attribute key too
					begin_attr_key(doc, c);
					return Ok(());
'''), ('''// parse tag attribute key
fn parse''', '''// begin a new attribute with the first character of its key
fn begin_attr_key(doc: &mut Doc, first: char) {
	doc.prev_chars.push(first);
	doc.add_tag_attr_key();
	doc.set_tag_code_in(TagCodeIn::Key);
}

// parse tag attribute key
fn parse''')])
R["r04"] = ("C14 C04 C13 C02", [('''					result.push('<');
					if !options.lowercase_tagname {
						result.extend_from_slice(tag_name);
					} else {
						for ch in tag_name {
							result.push(ch.to_ascii_lowercase());
						}
					}
''', '''					result.push('<');
					write_tag_name(tag_name, options.lowercase_tagname, result);
'''), ('''					if options.lowercase_tagname {
						let content = content
							.iter()
							.map(|e| e.to_ascii_lowercase())
							.collect::<Vec<char>>();
						result.extend(content);
					} else {
						result.extend_from_slice(content);
					}
					result.push('>');
''', '''					write_tag_name(content, options.lowercase_tagname, result);
					result.push('>');
'''), ('''// trim chars end whitespaces
''', '''// write a tag name
fn write_tag_name(name: &[char], lowercase: bool, result: &mut Vec<char>) {
	if lowercase {
		result.extend(name.iter().map(|ch| ch.to_ascii_lowercase()));
	} else {
		result.extend_from_slice(name);
	}
}

// trim chars end whitespaces
''')])
R["r05"] = ("C06 C05 C12", [('''		for tag_node in unclosed {
			let mut end_tag: Option<Node> = None;
			if let Some(meta) = &tag_node.borrow_mut().meta {
				// set it's meta as auto fix
				meta.borrow_mut().auto_fix = true;
				// make end tag, void element doesn't have one
				if !meta.borrow().is_void {
					let tag_name = &meta.borrow().name;
					let mut end = Node::new(NodeType::TagEnd, self.position);
					end.content = Some(tag_name.clone());
					end.parent = Some(Rc::downgrade(tag_node));
					end_tag = Some(end);
				}
			}
			if let Some(end_tag) = end_tag {
				tag_node.borrow_mut().end_tag = Some(Rc::new(RefCell::new(end_tag)));
			}
		}
''', '''		for tag_node in unclosed.iter() {
			let name = match &tag_node.borrow().meta {
				Some(meta) => {
					let mut meta = meta.borrow_mut();
					meta.auto_fix = true;
					if meta.is_void {
						None
					} else {
						Some(meta.name.clone())
					}
				}
				None => None,
			};
			if let Some(name) = name {
				let end = Node {
					content: Some(name),
					parent: Some(Rc::downgrade(tag_node)),
					..Node::new(NodeType::TagEnd, self.position)
				};
				tag_node.borrow_mut().end_tag = Some(Rc::new(RefCell::new(end)));
			}
		}
''')])
R["r06"] = ("C18", [('''			for node in childs {
				let cur_node = node.borrow().clone_node_with(reduce_code_at);
				cur_node.borrow_mut().parent = Some(Rc::downgrade(&parent_node));
				cur_node.borrow_mut().prev = cur_childs.last().map(Rc::downgrade);
				cur_node.borrow_mut().index = node.borrow().index;
				cur_childs.push(cur_node);
			}
''', '''			for node in childs.iter() {
				let orig = node.borrow();
				let cur_node = orig.clone_node_with(reduce_code_at);
				{
					let mut cur = cur_node.borrow_mut();
					cur.index = orig.index;
					cur.prev = cur_childs.last().map(Rc::downgrade);
					cur.parent = Some(Rc::downgrade(&parent_node));
				}
				cur_childs.push(cur_node);
			}
''')])
R["r07"] = ("C20", [('''				let mut find_html = false;
				for child in childs {
					let child_node = child.borrow();
					match child_node.node_type {
						Comment | SpacesBetweenTag | HTMLDOCTYPE => {
							// the above types are allowed in document
						}
						Tag => {
							if find_html {
								syntax_ok = false;
								break;
							} else {
								// check if is html tag
								if let Some(meta) = &child_node.meta {
									if is_equal_chars(
										meta.borrow().name.as_slice(),
										&HTML_TAG_NAME,
										&Some(NameCase::Lower),
									) {
										find_html = true;
										is_document = true;
									} else {
										syntax_ok = false;
									}
								} else {
									syntax_ok = false;
								}
							}
						}
						_ => {
							syntax_ok = false;
						}
					}
				}
''', '''				for child in childs.iter() {
					let child_node = child.borrow();
					let is_html = child_node.node_type == Tag
						&& child_node.meta.as_ref().map_or(false, |meta| {
							is_equal_chars(&meta.borrow().name, &HTML_TAG_NAME, &Some(NameCase::Lower))
						});
					if is_html && !is_document {
						is_document = true;
						continue;
					}
					if !matches!(
						child_node.node_type,
						Comment | SpacesBetweenTag | HTMLDOCTYPE
					) {
						syntax_ok = false;
					}
				}
''')])
R["r08"] = ("C04 C15 C02", [('''		self
			.attrs
			.iter()
			.flat_map(|attr| {
				let mut attr_content = attr.build(remove_quote);
				attr_content.splice(0..0, vec![WS_CHAR]);
				attr_content
			})
			.collect()
''', '''		let mut content: Vec<char> = Vec::with_capacity(ALLOC_CHAR_CAPACITY);
		for attr in &self.attrs {
			content.push(WS_CHAR);
			content.extend(attr.build(remove_quote));
		}
		content
''')])
R["r09"] = ("C21", [('''		let file_path = filename.as_ref();
		let file_path = if file_path.is_absolute() {
			file_path.to_path_buf()
		} else {
			env::current_dir()?.join(filename).canonicalize()?
		};
		let file = File::open(file_path)?;
		let mut content = String::with_capacity(500);
		BufReader::new(file).read_to_string(&mut content)?;
		Doc::parse(&content, options)
''', '''		let content = read_source(filename.as_ref())?;
		Doc::parse(&content, options)
'''), ('''// get an element from string node map
''', '''// read the whole file
fn read_source(path: &Path) -> GenResult<String> {
	let mut path = path.to_path_buf();
	if !path.is_absolute() {
		path = env::current_dir()?.join(path).canonicalize()?;
	}
	let mut content = String::new();
	let mut reader = BufReader::new(File::open(&path)?);
	reader.read_to_string(&mut content)?;
	Ok(content)
}

// get an element from string node map
''')])
R["r10"] = ("C13 C16 C02", [('''					let mut prev_is_space = false;
					let mut minified: Vec<char> = Vec::with_capacity(content.len());
					for &c in content {
						if c.is_ascii_whitespace() {
							if prev_is_space {
								continue;
							}
							prev_is_space = true;
						} else {
							prev_is_space = false;
						}
						minified.push(c);
					}
''', '''					let mut minified: Vec<char> = Vec::with_capacity(content.len());
					let mut prev_is_space = false;
					for c in content.iter() {
						let is_space = c.is_ascii_whitespace();
						if !(is_space && prev_is_space) {
							minified.push(*c);
						}
						prev_is_space = is_space;
					}
''')])
R["r11"] = ("C03 C05 C01 C23", [('''		use NodeType::*;
		let node_type = node.borrow().node_type;
		if node_type != TagEnd {
			// set parent node
			let parent_node = self.chain_nodes.last().unwrap();
			node.borrow_mut().parent = Some(Rc::downgrade(parent_node));
			// add the node to parent's child list
			let mut parent_node = parent_node.borrow_mut();
			let child = Rc::clone(&node);
			// add cur node to parent's child nodes
			if let Some(childs) = &mut parent_node.childs {
				child.borrow_mut().index = childs.len();
				childs.push(child);
			} else {
				child.borrow_mut().index = 0;
				parent_node.childs = Some(vec![child]);
			}
			// set node root
			node.borrow_mut().root = Some(Rc::downgrade(&self.root));
		}
		// set current node to be new node
		self.current_node = Rc::clone(&node);
		// if is a tag node, add the tag node to chain nodes
		if node_type == Tag {
			self.chain_nodes.push(Rc::clone(&node));
		}
''', '''		let node_type = node.borrow().node_type;
		if node_type != NodeType::TagEnd {
			let parent_node = Rc::clone(self.chain_nodes.last().expect("the chain has the root"));
			self.append_child(&parent_node, &node);
		}
		if node_type == NodeType::Tag {
			self.chain_nodes.push(Rc::clone(&node));
		}
		self.current_node = node;
'''), ('''	// set tag end info
	fn set''', '''	// append a child
	fn append_child(&self, parent: &RefNode, node: &RefNode) {
		let mut parent_node = parent.borrow_mut();
		let childs = parent_node.childs.get_or_insert_with(Vec::new);
		{
			let mut cur = node.borrow_mut();
			cur.index = childs.len();
			cur.parent = Some(Rc::downgrade(parent));
			cur.root = Some(Rc::downgrade(&self.root));
		}
		childs.push(Rc::clone(node));
	}
	// set tag end info
	fn set''')])
R["r12"] = ("C09 C01 C12", [('''		while prev_len > 0 {
			let cur_index = prev_len - 1;
			let prev_char = prev_chars[cur_index];
			if !prev_char.is_ascii_whitespace() {
				break;
			} else {
				prev_len = cur_index;
			}
		}
''', '''		prev_len = chars_trim_end(prev_chars).len();
''')])
R["r13"] = ("C17 C02 C13", [('''		if let Some(childs) = &self.childs {
			if status.root {
				// change status root
				let mut sub_status = status.clone();
				sub_status.root = false;
				// get inner html
				for child in childs {
					child.borrow().build_tree(options, &mut sub_status, result);
				}
			} else {
				for child in childs {
					// keep the original inner type
					child.borrow().build_tree(options, status, result);
				}
			}
		}
''', '''		if let Some(childs) = &self.childs {
			let is_root = status.root;
			status.root = false;
			childs
				.iter()
				.for_each(|child| child.borrow().build_tree(options, status, result));
			status.root = is_root;
		}
''')])
R["r14"] = ("C05 C19 C04", [('''			// html doctype is not in the chain nodes
			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
				doc.chain_nodes.pop();
			}
			doc.set_code_in(CodeTypeIn::Unkown);
''', '''			let is_doctype = matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE);
			doc.set_code_in(CodeTypeIn::Unkown);
			if is_doctype {
				return Ok(());
			}
			doc.chain_nodes.pop();
''')])
R["r15"] = ("C10 C11 C06", [('''	fn set_tag_attr_key(&mut self) {
		let key = self.clean_chars_to_vec();
		if let Some(meta) = &self.current_node.borrow_mut().meta {
			let mut meta = meta.borrow_mut();
			let index = meta.attrs.len() - 1;
			let key_name = key
				.iter()
				.map(|ch| ch.to_ascii_lowercase())
				.collect::<String>();
			// end the attribute
			// insert lowercase attribute name to maps
			meta.lc_name_map.entry(key_name).or_insert(index);
			// set cur attr key
			meta.set_attr_key(key);
		}
''', '''	fn set_tag_attr_key(&mut self) {
		let key = std::mem::take(&mut self.prev_chars);
		let key_name: String = key.iter().map(char::to_ascii_lowercase).collect();
		if let Some(meta) = &self.current_node.borrow().meta {
			let mut meta = meta.borrow_mut();
			meta.set_attr_key(key);
			let index = meta.attrs.len() - 1;
			if !meta.lc_name_map.contains_key(&key_name) {
				meta.lc_name_map.insert(key_name, index);
			}
		}
''')])
R["r16"] = ("C23 C12 C04", [('''				// remove suffix <comment>'--' or <cdata>']]'
				doc.prev_chars.truncate(total - 2);
				// set to content
				let content = doc.clean_chars_to_vec();
				doc.current_node.borrow_mut().content = Some(content);
''', '''				// without the suffix <comment>'--' or <cdata>']]'
				let content = chars[..total - 2].to_vec();
				doc.current_node.borrow_mut().content = Some(content);
				doc.prev_chars.clear();
''')])
R["r17"] = ("C12 C01", [('''		let mut prev_char = '\\0';
		for (cur_index, c) in context.chars().enumerate() {
			if cur_index <= index {
				let mut need_move_col = true;
				// \\r newline in early macos
				if c == '\\r' {
					region.set_new_line();
					need_move_col = false;
				} else if c == '\\n' {
					// \\n in windows, combine \\r\\n as newline
					if prev_char == '\\r' {
						// do nothing, because did in \\r
					} else {
						// set to nextline
						region.set_new_line();
					}
					need_move_col = false;
				}
				// move one col for the code region
				if need_move_col {
					region.move_one();
				}
				prev_char = c;
			}
		}
		region
''', '''		let mut after_return = false;
		for (cur_index, c) in context.chars().enumerate() {
			if cur_index > index {
				break;
			}
			match c {
				'\\r' => region.set_new_line(),
				'\\n' if after_return => {}
				'\\n' => region.set_new_line(),
				_ => region.move_one(),
			}
			after_return = c == '\\r';
		}
		region
''', "/repo/src/position.rs")])
R["r18"] = ("C09 C01", [('''		// check if need detect again
		if prev_len >= detect_len {
			let case_sensitive = doc.parse_options.case_sensitive_tagname;
			while detect_len > 0 {
				let detect_index = detect_len - 1;
				let detect_char = end_tag[detect_index];
				let prev_index = prev_len - 1;
				let prev_char = prev_chars[prev_index];
				let is_matched = if detect_char == prev_char {
					true
				} else {
					// check if case sensitive
					if case_sensitive {
						false
					} else {
						match detect_char {
							'A'..='Z' => detect_char.to_ascii_lowercase() == prev_char,
							'a'..='z' => detect_char.to_ascii_uppercase() == prev_char,
							_ => false,
						}
					}
				};
				if is_matched {
					// move forward detect
					detect_len = detect_index;
					// move forward prev chars
					prev_len = prev_index;
				} else {
					break;
				}
			}
		}
		// when detect_len equal 0, means all detect characteres are matched
		if detect_len == 0 {
''', '''		let case_sensitive = doc.parse_options.case_sensitive_tagname;
		// check the characters before the whitespaces
		let is_matched = prev_len >= detect_len
			&& end_tag
				.iter()
				.zip(prev_chars[prev_len - detect_len..prev_len].iter())
				.all(|(detect_char, prev_char)| {
					if case_sensitive {
						detect_char == prev_char
					} else {
						detect_char.eq_ignore_ascii_case(prev_char)
					}
				});
		if is_matched {
			prev_len -= detect_len;
'''), ('''	let mut detect_len = end_tag.len();
''', '''	let detect_len = end_tag.len();
''')])
R["r19"] = ("C08 C07", [('''		let mut chars = vec!['&', 'l', 't', ';'];
		let node_type = self.current_node.borrow().node_type;
		let is_end_text = c == TAG_BEGIN_CHAR;
		if !is_end_text {
			chars.push(c);
		}
		match node_type {
			NodeType::Text | NodeType::SpacesBetweenTag => {
				// text node or spaces between
				if let Some(content) = &mut self.current_node.borrow_mut().content {
					let mut prev_chars: Vec<char> = Vec::with_capacity(content.len() + chars.len());
					prev_chars.append(content);
					prev_chars.append(&mut chars);
					self.prev_chars = prev_chars;
				}
				// change node type if spaces between
				if matches!(node_type, NodeType::SpacesBetweenTag) {
					self.current_node.borrow_mut().node_type = NodeType::Text;
				}
			}
			_ => {
				// new text node in the innermost unclosed node
				self.add_new_node(Rc::new(RefCell::new(Node::new(
					NodeType::Text,
					self.mem_position,
				))));
				// set prev chars
				self.prev_chars = chars;
			}
		}
''', '''		let node_type = self.current_node.borrow().node_type;
		let is_end_text = c == TAG_BEGIN_CHAR;
		if matches!(node_type, NodeType::Text | NodeType::SpacesBetweenTag) {
			let mut current_node = self.current_node.borrow_mut();
			current_node.node_type = NodeType::Text;
			if let Some(content) = &mut current_node.content {
				self.prev_chars.clear();
				self.prev_chars.append(content);
				self.prev_chars.extend_from_slice(&['&', 'l', 't', ';']);
				if !is_end_text {
					self.prev_chars.push(c);
				}
			}
		} else {
			// new text node in the innermost unclosed node
			let text_node = Node::new(NodeType::Text, self.mem_position);
			self.add_new_node(Rc::new(RefCell::new(text_node)));
			// set prev chars
			self.prev_chars = vec!['&', 'l', 't', ';'];
			if !is_end_text {
				self.prev_chars.push(c);
			}
		}
''')])
R["r20"] = ("C11 C24", [('''		if let Some(key) = &self.key {
			if is_equal_chars(&key.content, &['i', 'd'], &Some(NameCase::Lower)) {
				if let Some(value) = &self.value {
					return Some(chars_to_string(&value.content));
				}
			}
		}
		None
''', '''		let key = self.key.as_ref()?;
		if !is_equal_chars(&key.content, &['i', 'd'], &Some(NameCase::Lower)) {
			return None;
		}
		self.value.as_ref().map(|value| chars_to_string(&value.content))
''')])
R["r21"] = ("C22 C05 C13", [('''	// check characters
	let is_equal = if let Some(case) = case {
		match case {
			NameCase::Lower => |a: &char, b: &char| -> bool { a == b || &a.to_ascii_lowercase() == b },
			NameCase::Upper => |a: &char, b: &char| -> bool { a == b || &a.to_ascii_uppercase() == b },
		}
	} else {
		|a: &char, b: &char| -> bool { a == b }
	};
	for (index, ch) in target.iter().enumerate() {
		if !is_equal(ch, &cmp[index]) {
			return false;
		}
	}
	true
''', '''	target.iter().zip(cmp).all(|(a, b)| {
		a == b
			|| match case {
				Some(NameCase::Lower) => a.to_ascii_lowercase() == *b,
				Some(NameCase::Upper) => a.to_ascii_uppercase() == *b,
				None => false,
			}
	})
'''), ('''	for cur_name in VOID_ELEMENTS.iter() {
		if is_equal_chars(cur_name, name, &None) {
			return true;
		}
	}
	false
''', '''	VOID_ELEMENTS
		.iter()
		.any(|cur_name| is_equal_chars(cur_name, name, &None))
''')])
R["r22"] = ("C05 C23 C01", [('''		self.code_in = code_in;
		use CodeTypeIn::*;
		match code_in {
			Unkown => {
				self.handle = parse_wait;
			}
			Tag => {
				self.handle = parse_tag_name;
			}
			TagEnd => {
				self.handle = parse_tagend;
			}
			TextNode => {
				self.handle = parse_text;
			}
			HTMLScript | HTMLStyle | EscapeableRawText => {
				self.handle = parse_content_tag;
			}
			HTMLDOCTYPE => {
				self.handle = parse_doctype_name;
			}
			AbstractRoot => {
				self.handle = parse_wait;
			}
			Comment => {
				self.handle = parse_comment_or_cdata;
			}
			XMLCDATA => {
				self.handle = parse_comment_or_cdata;
			}
			UnkownTag => {
				self.handle = parse_unkown_tag;
			}
			ExclamationBegin => {
				self.handle = parse_exclamation_begin;
			}
		};
''', '''		use CodeTypeIn::*;
		self.handle = match code_in {
			Unkown | AbstractRoot => parse_wait,
			Tag => parse_tag_name,
			TagEnd => parse_tagend,
			TextNode => parse_text,
			HTMLScript | HTMLStyle | EscapeableRawText => parse_content_tag,
			HTMLDOCTYPE => parse_doctype_name,
			Comment | XMLCDATA => parse_comment_or_cdata,
			UnkownTag => parse_unkown_tag,
			ExclamationBegin => parse_exclamation_begin,
		};
		self.code_in = code_in;
'''), ('''		for c in content.chars() {
			doc.next(c, content)?;
		}
		doc.eof(content)?;
''', '''		let mut chars = content.chars();
		while let Some(c) = chars.next() {
			doc.next(c, content)?;
		}
		doc.eof(content)?;
''')])
R["r23"] = ("C17 C02", [('''					let mut finded = false;
					let mut child_node: Option<Rc<RefCell<Node>>> = None;
					for child in childs {
						if child.borrow().node_type == NodeType::Tag {
							if finded {
								panic!("`inner_html` can't used in abstract root node which has multiple tag node childs.");
							}
							child_node = Some(Rc::clone(child));
							finded = true;
						}
					}
					if let Some(child_node) = child_node {
''', '''					let mut child_node: Option<&RefNode> = None;
					for child in childs {
						if child.borrow().node_type != NodeType::Tag {
							continue;
						}
						if child_node.is_some() {
							panic!("`inner_html` can't used in abstract root node which has multiple tag node childs.");
						}
						child_node = Some(child);
					}
					if let Some(child_node) = child_node {
''')])
R["r24"] = ("C22", [('''	if ch.is_ascii_alphanumeric() || ['_', '-', '.', ':'].contains(ch) {
		return true;
	}
	if ch.is_ascii_whitespace()
		|| ch.is_ascii_control()
		|| is_non_character(ch)
		|| ch.is_ascii_punctuation()
		|| *ch == '\\u{0000}'
	{
		return false;
	}
	true
''', '''	match ch {
		'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | '-' | '.' | ':' => true,
		_ => !ch.is_ascii() && !is_non_character(ch),
	}
''', "/repo/src/util.rs")])
R["r25"] = ("C19 C12 C04", [('''				let special_tag_name = doc.in_special.as_ref().map(|(_, name, _)| name);
				if let Some(tag_name) = special_tag_name {
					if is_equal_chars(
						tag_name,
						&doc
							.chain_nodes
							.last()
							.unwrap()
							.borrow()
							.meta
							.as_ref()
							.expect("Chain nodes must all be tag nodes")
							.borrow()
							.name,
						&None,
					) {
						return create_parse_error(
							ErrorKind::CommonError("<![CDATA tag can in sub node".into()),
							doc.position,
							context,
						);
					} else {
						detect_type = DetectChar::XMLCDATA;
					}
				} else {
					return create_parse_error(
						ErrorKind::CommonError("wrong <![CDATA tag can only used in Svg or MathML".into()),
						doc.position,
						context,
					);
				}
''', '''				let (_, tag_name, _) = match &doc.in_special {
					Some(special) => special,
					None => {
						return doc.error(
							ErrorKind::CommonError("wrong <![CDATA tag can only used in Svg or MathML".into()),
							context,
						)
					}
				};
				let last_node = doc.chain_nodes[doc.chain_nodes.len() - 1].borrow();
				let meta = last_node
					.meta
					.as_ref()
					.expect("Chain nodes must all be tag nodes")
					.borrow();
				if &meta.name == tag_name {
					return doc.error(
						ErrorKind::CommonError("<![CDATA tag can in sub node".into()),
						context,
					);
				}
				detect_type = DetectChar::XMLCDATA;
''')])
R["r26"] = ("C10 C04 C15 C06", [('''	let quote = doc.mark_char;
	let (is_end, attr_quote) = if quote == WS_CHAR {
		if c == TAG_END_CHAR {
			// unquoted value
			// check if avaiable character in value
			// set tag value parse end
			doc.set_tag_attr_value(None);
			doc.set_tag_code_in(TagCodeIn::ValueEnd);
			// delegate to parse wait
			parse_tag_wait(doc, c, context)?;
			return Ok(());
		}
		(c.is_ascii_whitespace(), None)
	} else {
		(c == quote, Some(quote))
	};
	if is_end {
		// reset the detect char
		doc.mark_char = EOF_CHAR;
		doc.set_tag_attr_value(attr_quote);
		doc.set_tag_code_in(TagCodeIn::Wait);
	} else {
		doc.prev_chars.push(c);
	}
	Ok(())
''', '''	match (doc.mark_char, c) {
		(WS_CHAR, TAG_END_CHAR) => {
			doc.set_tag_attr_value(None);
			doc.set_tag_code_in(TagCodeIn::ValueEnd);
			return parse_tag_wait(doc, c, context);
		}
		(WS_CHAR, _) if c.is_ascii_whitespace() => doc.set_tag_attr_value(None),
		(quote, _) if quote != WS_CHAR && quote == c => doc.set_tag_attr_value(Some(quote)),
		_ => {
			doc.prev_chars.push(c);
			return Ok(());
		}
	}
	doc.mark_char = EOF_CHAR;
	doc.set_tag_code_in(TagCodeIn::Wait);
	Ok(())
''')])
R["r27"] = ("C14 C05 C16", [('''			if doc.parse_options.auto_fix_unexpected_endtag
				&& matches!(
					doc.current_node.borrow().node_type,
					NodeType::Text | NodeType::SpacesBetweenTag
				) {
				// fix the unexpected endtag
				let mut current_node = doc.current_node.borrow_mut();
				// remove content to prev chars
				if let Some(content) = &mut current_node.content {
					doc.prev_chars.append(content);
				}
				// it's still a whitespace text when all characters are whitespaces
				doc.repeat_whitespace =
					c.is_ascii_whitespace() && doc.prev_chars.iter().all(|ch| ch.is_ascii_whitespace());
			} else {
				// new text node
				doc.add_new_node(Rc::new(RefCell::new(Node::new(
					NodeType::Text,
					doc.position,
				))));
				doc.repeat_whitespace = c.is_ascii_whitespace();
			}
''', '''			let node_type = doc.current_node.borrow().node_type.clone();
			let is_text = node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
			let mut repeat_whitespace = c.is_ascii_whitespace();
			if !doc.parse_options.auto_fix_unexpected_endtag || !is_text {
				let node = Node::new(NodeType::Text, doc.position);
				doc.add_new_node(Rc::new(RefCell::new(node)));
			} else {
				let mut current_node = doc.current_node.borrow_mut();
				if let Some(content) = current_node.content.as_mut() {
					doc.prev_chars.append(content);
				}
				if doc.prev_chars.iter().any(|ch| !ch.is_ascii_whitespace()) {
					repeat_whitespace = false;
				}
			}
			doc.repeat_whitespace = repeat_whitespace;
''')])
R["r28"] = ("C14 C05 C01", [('''	match c {
		// match the tag start '<'
		TAG_BEGIN_CHAR => {
			let content = doc.clean_chars_to_vec();
			doc.current_node.borrow_mut().content = Some(content);
			doc.check_textnode = if doc.repeat_whitespace {
				Some(Rc::clone(&doc.current_node))
			} else {
				None
			};
			doc.mem_position = doc.position;
			doc.set_tag_end_info();
			doc.set_code_in(UnkownTag);
		}
		_ => {
			// check if repeat whitespace
			if doc.repeat_whitespace {
				doc.repeat_whitespace = c.is_ascii_whitespace();
			}
			doc.prev_chars.push(c);
		}
	}
	Ok(())
''', '''	if c != TAG_BEGIN_CHAR {
		doc.repeat_whitespace &= c.is_ascii_whitespace();
		doc.prev_chars.push(c);
		return Ok(());
	}
	doc.mem_position = doc.position;
	doc.check_textnode = None;
	if doc.repeat_whitespace {
		doc.check_textnode = Some(doc.current_node.clone());
	}
	let content = std::mem::take(&mut doc.prev_chars);
	doc.current_node.borrow_mut().content.replace(content);
	doc.set_tag_end_info();
	doc.set_code_in(UnkownTag);
	Ok(())
''')])
R["r29"] = ("C05 C14 C13 C06", [('''			let end_tag_name = doc.prev_chars.clone();
			let fix_end_tag_name = chars_trim_end(&end_tag_name);
			let mut is_endtag_ok = false;
			// check if the tag matched
			if doc.chain_nodes.len() > 1 {
				if let Some(tag) = doc.chain_nodes.last() {
					let tag = tag.borrow();
					let meta = tag
						.meta
						.as_ref()
						.expect("Tag node must have a meta of tag name")
						.borrow();
					let start_tag_name = &meta.name;
					let (is_equal, is_total_same) =
						is_equal_chars_ignore_case(start_tag_name, fix_end_tag_name);
					if is_equal {
						if doc.parse_options.case_sensitive_tagname && !is_total_same {
							return doc.error(
								ErrorKind::WrongCaseSensitive(doc.chars_to_string()),
								context,
							);
						}
						is_endtag_ok = true;
					}
				}
			}
''', '''			let (is_endtag_ok, is_total_same) = doc.match_end_tag();
			if is_endtag_ok && !is_total_same && doc.parse_options.case_sensitive_tagname {
				return doc.error(
					ErrorKind::WrongCaseSensitive(doc.chars_to_string()),
					context,
				);
			}
'''), ('''				let is_only_text_child = match &last_tag.borrow().childs {
					Some(childs) => childs.len() == 1 && childs[0].borrow().node_type == NodeType::Text,
					None => false,
				};
				if !is_only_text_child {
					doc.set_text_spaces_between();
				} else {
					// the only text child is not spaces between tags
					doc.check_textnode = None;
				}
''', '''				let mut is_only_text_child = false;
				if let Some(childs) = &last_tag.borrow().childs {
					if let [only] = childs.as_slice() {
						is_only_text_child = matches!(only.borrow().node_type, NodeType::Text);
					}
				}
				if is_only_text_child {
					doc.check_textnode = None;
				} else {
					doc.set_text_spaces_between();
				}
'''), ('''	fn finish_pending_tag(&mut self) {
''', '''	fn match_end_tag(&self) -> (bool, bool) {
		if self.chain_nodes.len() <= 1 {
			return (false, false);
		}
		let tag = self.chain_nodes[self.chain_nodes.len() - 1].borrow();
		let meta = tag
			.meta
			.as_ref()
			.expect("Tag node must have a meta of tag name")
			.borrow();
		is_equal_chars_ignore_case(&meta.name, chars_trim_end(&self.prev_chars))
	}
	fn finish_pending_tag(&mut self) {
''')])
R["r30"] = ("C06 C03 C01 C23", [('''			Tag => {
				if !self.parse_options.auto_fix_unclosed_tag {
					return create_parse_error(
						ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
						self.current_node.borrow().begin_at,
						context,
					);
				}
			}
			UnkownTag | ExclamationBegin => {
				// no node has been created yet, report the position of the '<'
				return create_parse_error(
					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
					self.mem_position,
					context,
				);
			}
			_ => {
				return create_parse_error(
					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
					self.current_node.borrow().begin_at,
					context,
				);
			}
		}
''', '''			Tag if self.parse_options.auto_fix_unclosed_tag => {}
			UnkownTag | ExclamationBegin => return self.unclosed(self.mem_position, context),
			_ => {
				let begin_at = self.current_node.borrow().begin_at;
				return self.unclosed(begin_at, context);
			}
		}
'''), ('''	fn finish_pending_tag(&mut self) {
		if self.code_in != CodeTypeIn::Tag {
			return;
		}
		let has_meta = self.current_node.borrow().meta.is_some();
		if !has_meta {
			self.set_tag_meta();
		} else if self.is_tag_code_in(&TagCodeIn::Key) {
			self.set_tag_attr_key();
		} else if self.is_tag_code_in(&TagCodeIn::Value) {
			let quote = if self.mark_char == WS_CHAR {
				None
			} else {
				Some(self.mark_char)
			};
			self.set_tag_attr_value(quote);
		}
	}
''', '''	fn unclosed(&self, at: usize, context: &str) -> HResult {
		let kind = ErrorKind::UnclosedTag(format!("{:?}", self.code_in));
		create_parse_error(kind, at, context)
	}
	fn finish_pending_tag(&mut self) {
		if let CodeTypeIn::Tag = self.code_in {
			if self.current_node.borrow().meta.is_none() {
				self.set_tag_meta();
				return;
			}
			if self.is_tag_code_in(&TagCodeIn::Value) {
				let quote = Some(self.mark_char).filter(|ch| *ch != WS_CHAR);
				self.set_tag_attr_value(quote);
			} else if self.is_tag_code_in(&TagCodeIn::Key) {
				self.set_tag_attr_key();
			}
		}
	}
'''), ('''		if cur_depth > 1 {
			if !self.parse_options.auto_fix_unclosed_tag {
				let last_node = self.chain_nodes[cur_depth - 1].borrow();
				let begin_at = last_node.begin_at;
				let tag_name = chars_to_string(
					&last_node
						.meta
						.as_ref()
						.expect("tag node's meta must have")
						.borrow()
						.name,
				);
				return create_parse_error(ErrorKind::UnclosedTag(tag_name), begin_at, context);
			}
			// fix unclosed tags
			let unclosed = self.chain_nodes.split_off(1);
			self.fix_unclosed_tag(&unclosed);
		}
''', '''		if cur_depth > 1 && !self.parse_options.auto_fix_unclosed_tag {
			let last_node = Rc::clone(&self.chain_nodes[cur_depth - 1]);
			let last_node = last_node.borrow();
			let meta = last_node.meta.as_ref().expect("tag node's meta must have");
			let tag_name = chars_to_string(&meta.borrow().name);
			return create_parse_error(
				ErrorKind::UnclosedTag(tag_name),
				last_node.begin_at,
				context,
			);
		} else if cur_depth > 1 {
			let unclosed = self.chain_nodes.drain(1..).collect::<Vec<_>>();
			self.fix_unclosed_tag(&unclosed);
		}
''')])
R["r31"] = ("C07 C08 C03 C01", [('''		'a'..='z' | 'A'..='Z' => {
			// new tag node
			let inner_node = Node::new(NodeType::Tag, doc.mem_position);
			let node = Rc::new(RefCell::new(inner_node));
			doc.add_new_node(node);
			doc.set_code_in(Tag);
			doc.set_text_spaces_between();
			doc.prev_chars.push(c);
		}
		END_SLASH_CHAR => {
			// if allow auto fix unexpected end tag, the current node is restored when the end tag is ignored
			if !doc.parse_options.auto_fix_unexpected_endtag {
				doc.add_new_node(Rc::new(RefCell::new(Node::new(
					NodeType::TagEnd,
					doc.mem_position,
				))));
			} else {
				let prev_node = Rc::downgrade(&doc.current_node);
				// tag end
				doc.add_new_node(Rc::new(RefCell::new(Node::new(
					NodeType::TagEnd,
					doc.mem_position,
				))));
				doc.current_node.borrow_mut().prev = Some(prev_node);
			}
			// set code in first
			doc.set_code_in(TagEnd);
		}
''', '''		_ if c.is_ascii_alphabetic() => {
			doc.set_text_spaces_between();
			doc.prev_chars.push(c);
			let node = Node::new(NodeType::Tag, doc.mem_position);
			doc.add_new_node(Rc::new(RefCell::new(node)));
			doc.set_code_in(Tag);
		}
		END_SLASH_CHAR => {
			let prev_node = if doc.parse_options.auto_fix_unexpected_endtag {
				Some(Rc::downgrade(&doc.current_node))
			} else {
				None
			};
			let end_node = Node::new(NodeType::TagEnd, doc.mem_position);
			doc.add_new_node(Rc::new(RefCell::new(end_node)));
			if prev_node.is_some() {
				doc.current_node.borrow_mut().prev = prev_node;
			}
			doc.set_code_in(TagEnd);
		}
''')])
R["r32"] = ("C16 C15 C22 C02", [('''	content.iter().for_each(|ch| {
		if character_set.contains(ch) {
			if let Some(entity) = encode_char(ch, &encode_type) {
				entity.write_chars(chars);
			} else {
				chars.push(*ch);
			}
		} else {
			chars.push(*ch);
		}
	});
''', '''	for ch in content {
		if !character_set.contains(ch) {
			chars.push(*ch);
			continue;
		}
		match encode_char(ch, &encode_type) {
			Some(entity) => entity.write_chars(chars),
			None => chars.push(*ch),
		}
	}
'''), ('''		content.is_empty() || content.iter().any(Attr::need_quoted_char)
''', '''		if content.is_empty() {
			return true;
		}
		for ch in content {
			if Attr::need_quoted_char(ch) {
				return true;
			}
		}
		false
'''), ('''	if is_void_tag(&lc_name) {
		return false;
	}
	// TITLE/TEXTAREA
	if is_plain_text_tag(&lc_name, &None) {
		return node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
	}
	// XMLCDATA
	if node_type == NodeType::XMLCDATA {
		return SPECIAL_TAG_MAP.get(&lc_name).is_some();
	}
	true
''', '''	if is_void_tag(&lc_name) {
		false
	} else if is_plain_text_tag(&lc_name, &None) {
		matches!(node_type, NodeType::Text | NodeType::SpacesBetweenTag)
	} else {
		node_type != NodeType::XMLCDATA || SPECIAL_TAG_MAP.contains_key(&lc_name)
	}
''')])
R["r33"] = ("C10 C19 C05 C01", [('''	match c {
		TAG_END_CHAR => {
			// detect if void tag
			let is_void = doc.set_tag_meta();
			if is_void {
				// tag is end
				doc.chain_nodes.pop();
				doc.set_code_in(Unkown);
			} else {
				// check the tag type
				doc.check_tag_type_do();
			}
		}
		END_SLASH_CHAR => {
			// maybe self closing tag
			// if is doctype, not a good doctype
			doc.set_tag_meta();
			doc.handle = parse_tag_self_closing;
		}
		_ => {
			if c.is_ascii_whitespace() {
				// wait for attribute or end
				doc.set_tag_meta();
				doc.set_tag_code_in(TagCodeIn::Wait);
			} else {
				doc.prev_chars.push(c);
			}
		}
	};
	Ok(())
''', '''	let is_space = c.is_ascii_whitespace();
	if !is_space && c != TAG_END_CHAR && c != END_SLASH_CHAR {
		doc.prev_chars.push(c);
		return Ok(());
	}
	let is_void = doc.set_tag_meta();
	if is_space {
		doc.set_tag_code_in(TagCodeIn::Wait);
	} else if c == END_SLASH_CHAR {
		doc.handle = parse_tag_self_closing;
	} else if is_void {
		doc.chain_nodes.pop();
		doc.set_code_in(Unkown);
	} else {
		doc.check_tag_type_do();
	}
	Ok(())
''')])
if __name__ == "__main__":
    if sys.argv[1] == "list":
        for k, (p, e) in R.items(): print(k, p)
    else:
        import os
        root = os.environ.get("VERIF_REPO", "/repo")
        for e in R[sys.argv[2]][1]:
            a, b, f = e if len(e) == 3 else e + (F,)
            f = f.replace("/repo", root, 1); s = open(f).read()
            if s.count(a) != 1: print("MISSING in", sys.argv[2], ":", a[:80]); sys.exit(1)
            open(f, "w").write(s.replace(a, b))
