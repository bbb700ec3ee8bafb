From 587503aecca8cd843e22df0841a966cd716bc7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 01/17] fix: don't panic, lose attributes or end void tags when
 the input ends inside a start tag

---
 src/parser.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 80657f3..4a63085 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1923,12 +1923,14 @@ impl Doc {
 			if let Some(meta) = &tag_node.borrow_mut().meta {
 				// set it's meta as auto fix
 				meta.borrow_mut().auto_fix = true;
-				// make end tag
-				let tag_name = &meta.borrow().name;
-				let mut end = Node::new(NodeType::TagEnd, self.position);
-				end.content = Some(tag_name.clone());
-				end.parent = Some(Rc::downgrade(tag_node));
-				end_tag = Some(end);
+				// make end tag, void element doesn't have one
+				if !meta.borrow().is_void {
+					let tag_name = &meta.borrow().name;
+					let mut end = Node::new(NodeType::TagEnd, self.position);
+					end.content = Some(tag_name.clone());
+					end.parent = Some(Rc::downgrade(tag_node));
+					end_tag = Some(end);
+				}
 			}
 			if let Some(end_tag) = end_tag {
 				tag_node.borrow_mut().end_tag = Some(Rc::new(RefCell::new(end_tag)));
@@ -2013,8 +2015,29 @@ impl Doc {
 		Ok(())
 	}
 
+	// end of the doc in a tag, save the pending characters to the tag
+	fn finish_pending_tag(&mut self) {
+		if self.code_in != CodeTypeIn::Tag {
+			return;
+		}
+		let has_meta = self.current_node.borrow().meta.is_some();
+		if !has_meta {
+			self.set_tag_meta();
+		} else if self.is_tag_code_in(&TagCodeIn::Key) {
+			self.set_tag_attr_key();
+		} else if self.is_tag_code_in(&TagCodeIn::Value) {
+			let quote = if self.mark_char == WS_CHAR {
+				None
+			} else {
+				Some(self.mark_char)
+			};
+			self.set_tag_attr_value(quote);
+		}
+	}
 	// end of the doc
 	fn eof(&mut self, context: &str) -> HResult {
+		// the input ended inside a tag, keep the pending name/attribute
+		self.finish_pending_tag();
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From ff08819a0fb938ca3c54fd5c2700dcc9d2f41c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 02/17] fix: a doctype ending with '/>' must not close the
 enclosing node

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4a63085..55efde1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1113,7 +1113,10 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
-			doc.chain_nodes.pop();
+			// html doctype is not in the chain nodes
+			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				doc.chain_nodes.pop();
+			}
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
-- 
2.43.0


From 674f4811921d1275afbc3255fb7be63a1527fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 03/17] fix: leave svg/math mode exactly when the element that
 entered it is closed

---
 src/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 55efde1..2360d0d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1364,10 +1364,11 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				// set code in
 				doc.set_code_in(Unkown);
 				// end of special tag
-				if doc.in_special.is_some()
-					&& is_equal_chars(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name, &None)
-				{
-					doc.in_special = None;
+				// compare by depth, so nested tags or tags in different case are closed correctly
+				if let Some((_, _, depth)) = &doc.in_special {
+					if doc.chain_nodes.len() < *depth {
+						doc.in_special = None;
+					}
 				}
 				// set end tag more info
 				let content = doc.clean_chars_to_vec();
@@ -1646,7 +1647,7 @@ fn parse_exclamation_begin(doc: &mut Doc, c: char, context: &str) -> HResult {
 			}
 			LEFT_BRACKET_CHAR => {
 				// CDATA
-				let special_tag_name = doc.in_special.as_ref().map(|(_, name)| name);
+				let special_tag_name = doc.in_special.as_ref().map(|(_, name, _)| name);
 				if let Some(tag_name) = special_tag_name {
 					if is_equal_chars(
 						tag_name,
@@ -1708,7 +1709,7 @@ pub struct Doc {
 	mark_char: char,
 	chain_nodes: Vec<RefNode>,
 	current_node: RefNode,
-	in_special: Option<(SpecialTag, Vec<char>)>,
+	in_special: Option<(SpecialTag, Vec<char>, usize)>,
 	repeat_whitespace: bool,
 	check_textnode: Option<RefNode>,
 	handle: NextHandle,
@@ -2248,6 +2249,7 @@ impl Doc {
 							.borrow()
 							.name
 							.clone(),
+						self.chain_nodes.len(),
 					))
 				} else {
 					None
-- 
2.43.0


From 6fcc9c3378d29de737ccf5dafae3dc98c32aba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 04/17] fix: put the text of an unescaped '<' into the
 innermost unclosed node, with its links

---
 src/parser.rs | 47 +++++++----------------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2360d0d..4dae8f0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1944,8 +1944,6 @@ impl Doc {
 	// fix unescaped left angle bracket
 	fn fix_unescaped_lt(&mut self, c: char, context: &str) -> HResult {
 		let mut chars = vec!['&', 'l', 't', ';'];
-		let mut parent: Option<RefNode> = None;
-		let mut need_parent = false;
 		let node_type = self.current_node.borrow().node_type;
 		let is_end_text = c == TAG_BEGIN_CHAR;
 		if !is_end_text {
@@ -1965,47 +1963,16 @@ impl Doc {
 					self.current_node.borrow_mut().node_type = NodeType::Text;
 				}
 			}
-			NodeType::Tag => {
-				// tag, check if auto fix or self closing
-				let is_closed = self
-					.current_node
-					.borrow()
-					.meta
-					.as_ref()
-					.map_or(false, |meta| {
-						let meta = &meta.borrow();
-						meta.self_closed || meta.auto_fix
-					});
-				if !is_closed {
-					parent = Some(Rc::clone(&self.current_node));
-				} else {
-					need_parent = true;
-				}
-			}
 			_ => {
-				need_parent = true;
+				// new text node in the innermost unclosed node
+				self.add_new_node(Rc::new(RefCell::new(Node::new(
+					NodeType::Text,
+					self.mem_position,
+				))));
+				// set prev chars
+				self.prev_chars = chars;
 			}
 		}
-		if need_parent {
-			if !self.chain_nodes.is_empty() {
-				let index = self.chain_nodes.len() - 1;
-				parent = Some(Rc::clone(&self.chain_nodes[index]));
-			} else {
-				parent = Some(Rc::clone(&self.root));
-			}
-		}
-		if let Some(parent) = &parent {
-			let text_node = Node::new(NodeType::Text, self.mem_position);
-			let current_node = Rc::new(RefCell::new(text_node));
-			let mut parent = parent.borrow_mut();
-			let childs = parent.childs.get_or_insert(Vec::new());
-			current_node.borrow_mut().index = childs.len();
-			childs.push(Rc::clone(&current_node));
-			// set current node as text node
-			self.current_node = current_node;
-			// set prev chars
-			self.prev_chars = chars;
-		}
 		self.repeat_whitespace = false;
 		self.set_code_in(CodeTypeIn::TextNode);
 		// if is end of text<the tag left character>
-- 
2.43.0


From decb3bdf2df895058d428e9af1349db195d6b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 05/17] fix: accept empty comment and cdata

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4dae8f0..0479b1e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1502,7 +1502,7 @@ fn parse_comment_or_cdata(doc: &mut Doc, c: char, _: &str) -> HResult {
 	if c == TAG_END_CHAR {
 		let chars = &doc.prev_chars;
 		let total = chars.len();
-		if total > 2 {
+		if total > 1 {
 			let end_symbol = doc.mark_char;
 			let prev_char = chars[total - 1];
 			if prev_char == end_symbol && chars[total - 2] == end_symbol {
-- 
2.43.0


From a18b367c2afbefad54fc1d3bcb367011cefe993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 06/17] fix: minify_spaces with decode_entity dropped spaces
 after an entity and ignored entities after '&'

---
 src/parser.rs | 64 ++++++++++++---------------------------------------
 1 file changed, 15 insertions(+), 49 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0479b1e..1438b18 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use crate::config::{ParseOptions, RenderOptions};
 use crate::error::{ErrorKind, ParseError};
 use crate::position::CodeRegion;
 use crate::types::{BoxDynError, GenResult, HResult};
-use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType, Entity};
+use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType};
 use lazy_static::lazy_static;
 use std::collections::HashMap;
 use std::fmt;
@@ -596,58 +596,24 @@ impl Node {
 					.expect("Text node's content must not empty");
 				// check if need decode
 				if !is_in_pre && options.minify_spaces {
-					// just keep one space
+					// just keep one space when meet repeated whitespaces
 					let mut prev_is_space = false;
-					if options.decode_entity {
-						let mut start_index: usize = 0;
-						let mut is_in_entity = false;
-						for (index, ch) in content.iter().enumerate() {
-							if !is_in_entity {
-								if ch == &'&' {
-									is_in_entity = true;
-									start_index = index;
-								} else {
-									// judge if whitespace
-									if ch.is_ascii_whitespace() {
-										if prev_is_space {
-											continue;
-										}
-										prev_is_space = true;
-									} else {
-										prev_is_space = false;
-									}
-									result.push(*ch);
-								}
-							} else if ch == &';' {
-								// entity end
-								let entity = &content[start_index + 1..index];
-								if let Ok(decoded) = Entity::decode_chars(entity) {
-									result.push(decoded);
-								} else {
-									result.push('&');
-									result.extend_from_slice(entity);
-									result.push(';');
-								}
-								is_in_entity = false;
+					let mut minified: Vec<char> = Vec::with_capacity(content.len());
+					for &c in content {
+						if c.is_ascii_whitespace() {
+							if prev_is_space {
+								continue;
 							}
+							prev_is_space = true;
+						} else {
+							prev_is_space = false;
 						}
-						// has suffix wrong entity
-						if is_in_entity {
-							result.extend(&content[start_index..]);
-						}
+						minified.push(c);
+					}
+					if options.decode_entity {
+						decode_chars_to(&minified, result);
 					} else {
-						// just add one space when meet repeated whitespaces
-						for &c in content {
-							if c.is_ascii_whitespace() {
-								if prev_is_space {
-									continue;
-								}
-								prev_is_space = true;
-							} else {
-								prev_is_space = false;
-							}
-							result.push(c);
-						}
+						result.append(&mut minified);
 					}
 				} else {
 					// decode entity
-- 
2.43.0


From ae42e77832087da18c40e87c6a2f977333f79bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 07/17] fix: remove_attr_quote must keep the quotes that the
 value needs

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1438b18..b856379 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -298,7 +298,7 @@ impl Attr {
 				ret.push(EQUAL_CHAR);
 			}
 			if let Some(quote) = self.quote {
-				if self.need_quote || !remove_quote {
+				if self.need_quote || !remove_quote || !has_key || Attr::need_quoted_value(content) {
 					ret.push(quote);
 					ret.extend_from_slice(content);
 					ret.push(quote);
@@ -309,6 +309,10 @@ impl Attr {
 		}
 		ret
 	}
+	// check if the value need quote
+	fn need_quoted_value(content: &[char]) -> bool {
+		content.is_empty() || content.iter().any(Attr::need_quoted_char)
+	}
 	// check if the char need quote
 	pub fn need_quoted_char(ch: &char) -> bool {
 		ch.is_ascii_whitespace() || MUST_QUOTE_ATTR_CHARS.contains(ch)
-- 
2.43.0


From 8a50bad096c8f7526d09413653c2d3c1f86110f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 08/17] fix: keep the leading slash of an unquoted attribute
 value

---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b856379..0516d02 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1152,8 +1152,15 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 			}
 		}
 		END_SLASH_CHAR => {
-			// parse self closing
-			doc.handle = parse_tag_self_closing;
+			if doc.is_tag_code_in(&TagCodeIn::WaitValue) {
+				// unquoted value starts with slash, e.g. href=/path
+				doc.prev_chars.push(c);
+				doc.mark_char = WS_CHAR;
+				doc.set_tag_code_in(TagCodeIn::Value);
+			} else {
+				// parse self closing
+				doc.handle = parse_tag_self_closing;
+			}
 		}
 		EQUAL_CHAR => {
 			// value
-- 
2.43.0


From 067fc0de82dc0f0d7ec8f59d0b1dc854dbb1296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 09/17] fix: a nested or self closing pre tag changed how the
 spaces after it are minified

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0516d02..6e0b94b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -762,6 +762,7 @@ impl Node {
 	}
 	// build node tree
 	fn build_tree(&self, options: &RenderOptions, status: &mut RenderStatus, result: &mut Vec<char>) {
+		let is_in_pre = status.is_in_pre;
 		self.build_node(options, status, result);
 		if let Some(childs) = &self.childs {
 			if status.root {
@@ -782,6 +783,8 @@ impl Node {
 		if let Some(end_tag) = &self.end_tag {
 			end_tag.borrow().build_node(options, status, result);
 		}
+		// restore the status, a nested or self closing pre tag should not affect the outside
+		status.is_in_pre = is_in_pre;
 	}
 	// build
 	pub fn build(&self, options: &RenderOptions, inner_text: bool) -> Vec<char> {
-- 
2.43.0


From 121a179afc63d74884ad3c776da3ef46a8eca711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 10/17] fix: always_close_void should apply to void elements,
 not to auto fixed tags

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6e0b94b..9125857 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -655,7 +655,7 @@ impl Node {
 						result.extend_from_slice(&attrs);
 					}
 					// add self closing
-					if meta.self_closed || (meta.auto_fix && options.always_close_void) {
+					if meta.self_closed || (meta.is_void && options.always_close_void) {
 						result.push(WS_CHAR);
 						result.push('/');
 					}
-- 
2.43.0


From 4a0149d2b84b25d2026f8b7b025c1a5831cd79d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 11/17] fix: an only child whitespace text was removed or kept
 depending on what follows its parent

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 9125857..46a5388 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1338,6 +1338,9 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				};
 				if !is_only_text_child {
 					doc.set_text_spaces_between();
+				} else {
+					// the only text child is not spaces between tags
+					doc.check_textnode = None;
 				}
 				// set node end
 				doc.set_tag_end_info();
-- 
2.43.0


From efbba8c9ac4ff1eac87e92dd31cae99ed9109232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 12/17] fix: allow_insert ignored the title/textarea rule for
 uppercase tag names

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 46a5388..1049147 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -136,7 +136,7 @@ pub fn allow_insert(name: &[char], node_type: NodeType) -> bool {
 		return false;
 	}
 	// TITLE/TEXTAREA
-	if is_plain_text_tag(name, &None) {
+	if is_plain_text_tag(&lc_name, &None) {
 		return node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
 	}
 	// XMLCDATA
-- 
2.43.0


From 926d8a66e16ee32994be680b7799000e9348846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:16 +0000
Subject: [PATCH 13/17] fix: parse_file changed line endings, reported wrong
 positions and panicked on io errors

---
 src/parser.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1049147..be46741 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1774,23 +1774,12 @@ impl Doc {
 		let file_path = if file_path.is_absolute() {
 			file_path.to_path_buf()
 		} else {
-			env::current_dir()?.join(filename).canonicalize().unwrap()
+			env::current_dir()?.join(filename).canonicalize()?
 		};
 		let file = File::open(file_path)?;
-		let file = BufReader::new(file);
-		let mut doc = Doc::new();
 		let mut content = String::with_capacity(500);
-		doc.parse_options = options;
-		for line in file.lines() {
-			let line_content = line.unwrap();
-			content.push_str(&line_content);
-			for c in line_content.chars() {
-				doc.next(c, &content)?;
-			}
-			doc.next('\n', &content)?;
-		}
-		doc.eof(&content)?;
-		Ok(doc.into_root())
+		BufReader::new(file).read_to_string(&mut content)?;
+		Doc::parse(&content, options)
 	}
 
 	// chars to string
-- 
2.43.0


From 4140ff3a4476194c4dc3642c93c4daf54a207da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:39 +0000
Subject: [PATCH 14/17] fix: report an unfinished '<' or '<!' at its own
 position instead of the previous node's

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index be46741..582ee4b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2024,6 +2024,14 @@ impl Doc {
 					);
 				}
 			}
+			UnkownTag | ExclamationBegin => {
+				// no node has been created yet, report the position of the '<'
+				return create_parse_error(
+					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
+					self.mem_position,
+					context,
+				);
+			}
 			_ => {
 				return create_parse_error(
 					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
-- 
2.43.0


From a1ede666f6b735cf26dedbe185996848c6a3a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:02 +0000
Subject: [PATCH 15/17] fix: render a doctype without attributes so that it can
 be parsed again

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 582ee4b..230b27a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -726,6 +726,9 @@ impl Node {
 				result.extend_from_slice(&meta.name);
 				if !meta.attrs.is_empty() {
 					result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+				} else {
+					// the doctype keyword must be followed by a whitespace
+					result.push(WS_CHAR);
 				}
 				result.push('>');
 			}
-- 
2.43.0


From abdb23f7f56725743db4e072c62034d1f337b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:54 +0000
Subject: [PATCH 16/17] fix: an end tag ignored by auto_fix_unexpected_endtag
 no longer splits or reclassifies the text around it

---
 src/parser.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 230b27a..d616401 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -958,11 +958,9 @@ fn parse_wait(doc: &mut Doc, c: char, _: &str) -> HResult {
 				if let Some(content) = &mut current_node.content {
 					doc.prev_chars.append(content);
 				}
-				if matches!(current_node.node_type, NodeType::Text) {
-					doc.repeat_whitespace = false;
-				} else {
-					doc.repeat_whitespace = c.is_ascii_whitespace();
-				}
+				// it's still a whitespace text when all characters are whitespaces
+				doc.repeat_whitespace =
+					c.is_ascii_whitespace() && doc.prev_chars.iter().all(|ch| ch.is_ascii_whitespace());
 			} else {
 				// new text node
 				doc.add_new_node(Rc::new(RefCell::new(Node::new(
@@ -1526,8 +1524,8 @@ fn parse_unkown_tag(doc: &mut Doc, c: char, context: &str) -> HResult {
 			doc.prev_chars.push(c);
 		}
 		END_SLASH_CHAR => {
-			// if allow auto fix unclosed tag
-			if !doc.parse_options.auto_fix_unclosed_tag {
+			// if allow auto fix unexpected end tag, the current node is restored when the end tag is ignored
+			if !doc.parse_options.auto_fix_unexpected_endtag {
 				doc.add_new_node(Rc::new(RefCell::new(Node::new(
 					NodeType::TagEnd,
 					doc.mem_position,
@@ -2016,7 +2014,8 @@ impl Doc {
 				last_node.end_at = self.position;
 			}
 			Unkown | AbstractRoot => {
-				// end ok
+				// end ok, the last text may be followed by an ignored end tag
+				self.set_text_spaces_between();
 			}
 			Tag => {
 				if !self.parse_options.auto_fix_unclosed_tag {
-- 
2.43.0


From 7bb64cdc271d8032bdc787a85606492e83bd5d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:55 +0000
Subject: [PATCH 17/17] fix: whitespace that is the only child of an auto
 closed tag stays a text as with an explicit end tag

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d616401..18735d2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1983,6 +1983,8 @@ impl Doc {
 		// the input ended inside a tag, keep the pending name/attribute
 		self.finish_pending_tag();
 		let cur_depth = self.chain_nodes.len();
+		// whitespaces in an auto closed tag are kept as a text too when they are the only child
+		let is_only_text_child = cur_depth > 1 && self.current_node.borrow().index == 0;
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
 			if !self.parse_options.auto_fix_unclosed_tag {
@@ -2008,14 +2010,16 @@ impl Doc {
 			TextNode => {
 				let mut last_node = self.current_node.borrow_mut();
 				last_node.content = Some(self.prev_chars.clone());
-				if self.repeat_whitespace {
+				if self.repeat_whitespace && !is_only_text_child {
 					last_node.node_type = NodeType::SpacesBetweenTag;
 				}
 				last_node.end_at = self.position;
 			}
 			Unkown | AbstractRoot => {
 				// end ok, the last text may be followed by an ignored end tag
-				self.set_text_spaces_between();
+				if !is_only_text_child {
+					self.set_text_spaces_between();
+				}
 			}
 			Tag => {
 				if !self.parse_options.auto_fix_unclosed_tag {
-- 
2.43.0

