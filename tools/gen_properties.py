#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = "src/parser.rs"
def prop(id, title, statement, over, qtext, why, mech, files=None, state=None, observe=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {"files": files or [P], "state": state or [],
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe or [], "hook_needed": None}}
L = []
L.append(prop("C01", "Parsing never panics",
 "Parsing any string with any combination of parse options returns either a document or an error value. It never panics, never overflows an integer, never hits a RefCell borrow conflict and never indexes out of bounds (exhausting memory or the call stack on extreme nesting is outside the claim).",
 ["inputs", "configurations"], "all strings and all 2^6 parse option sets, at every character of the input and at its end",
 "the tests parse a few dozen hand-written snippets, mostly well formed and with one option at a time; truncated input inside each construct and option combinations are not sampled",
 [("Doc::parse / Doc::next / Doc::eof", P), ("the per-state handlers parse_*", P)],
 state=[{"name": "Doc.handle/code_in", "meaning": "lexer state", "where": P}, {"name": "Doc.chain_nodes", "meaning": "open elements, root first", "where": P}],
 observe=["Doc::parse"]))
L.append(prop("C02", "Rendering a parsed document never panics",
 "Rendering the document of any successful parse, or any single node of it, as outer HTML succeeds without panicking under every combination of render options. Asking for inner html or inner text panics only in the documented cases: both requested together, a node kind that has no inner content, or a root that does not contain exactly one element (an empty root yields the empty string).",
 ["inputs", "configurations"], "all parsed documents, all nodes of them, all render option sets",
 "tests render a handful of documents with one or two options set",
 [("Node::build, Node::build_tree, Node::build_node", P), ("Attr::build, TagMeta::attrs_to_string", P)],
 observe=["DocHolder::render", "DocHolder::render_text", "Node::build"]))
L.append(prop("C03", "Tree links are consistent",
 "In the document of every successful parse each child of a node names that node as its parent, carries its own position in the child list as its index and names the document root as its root; an end tag names its element as its parent and the root of the document knows the document. No node occurs twice in the tree, and text, comments, doctypes and end tags have no children.",
 ["inputs", "configurations"], "all strings accepted under any parse options",
 "no test inspects parent, index or root links at all",
 [("Doc::add_new_node", P), ("end tag linking in parse_tagend/parse_content_tag/fix_unclosed_tag", P), ("Doc::into_root", P)],
 state=[{"name": "Node.parent/index/root/end_tag/childs", "meaning": "tree links", "where": P}],
 observe=["DocHolder::get_root_node", "Node fields"]))
L.append(prop("C04", "Default rendering reproduces the source",
 "Rendering an accepted document with default options (no auto-fix used) gives back the source: text, comments, end tags, doctype keyword and raw-text content come out verbatim and in order. Inside start tags and doctypes only the separators are normalised (one space before each attribute, none around '=', ' /' before '>' when self-closing, one space in an otherwise empty doctype, a '=' without value dropped), and the CDATA keyword is written in upper case. With default parse options, parsing the rendered text again succeeds and renders to the same text.",
 ["inputs"], "all strings accepted with the auto-fix options off, default render options",
 "round trips are asserted for a few dozen literals; loss or reordering that needs a particular sequence of constructs is not sampled",
 [("text accumulation in parse_text/parse_wait/clean_chars_to_vec", P), ("Node::build_node, Node::build_tree, Attr::build", P)],
 observe=["Doc::parse", "DocHolder::render"]))
L.append(prop("C05", "Elements nest strictly and end tags must match",
 "With the auto-fix options off a document is rejected for its nesting exactly unless every start tag that is neither void nor self-closed is closed by an end tag of the same name (compared ignoring ASCII case, or exactly when case_sensitive_tagname is set; spaces after the name in the end tag are ignored), last opened first closed. Void elements never get children or an end tag, and a self-closing '/>' on any other element is rejected outside svg/math unless allow_self_closing is set. The resulting tree mirrors this nesting: each node is a child of exactly the innermost element open at its place in the source.",
 ["inputs", "configurations"], "all strings, case_sensitive_tagname and allow_self_closing in all combinations",
 "a few mismatches at depth one or two are tested; deep, interleaved or mixed-case nesting is not",
 [("parse_tagend", P), ("parse_tag_self_closing", P), ("Doc::set_tag_meta / is_void_tag", P), ("is_equal_chars_ignore_case", P), ("Doc::eof", P)],
 state=[{"name": "Doc.chain_nodes", "meaning": "stack of open elements", "where": P}], observe=["Doc::parse", "tree"]))
L.append(prop("C06", "auto_fix_unclosed_tag appends the missing end tags",
 "With auto_fix_unclosed_tag, input that ends with elements still open (outside any comment, CDATA, doctype, end tag, '<' or raw text) is accepted and renders exactly like the same input followed by the missing end tags, innermost first, each with the name as written in its start tag. Input ending inside a start tag keeps the name and attributes read so far; a void element gets no end tag; documents with nothing missing are not changed by the option.",
 ["inputs", "configurations"], "all strings, together with any setting of the other parse options",
 "two literals are tested",
 [("Doc::eof", P), ("Doc::fix_unclosed_tag", P), ("Doc::finish_pending_tag", P)], observe=["Doc::parse", "DocHolder::render"]))
L.append(prop("C07", "auto_fix_unexpected_endtag drops stray end tags only",
 "With auto_fix_unexpected_endtag an end tag that does not match the innermost open element (or appears when none is open) is ignored: the document renders as if that end tag were not in the source, and everything else is parsed as usual (a bare '<' kept as text just before the stray end tag stays text). An end tag that matches except for letter case is still an error under case_sensitive_tagname, and documents without stray end tags are not changed by the option.",
 ["inputs", "configurations"], "all strings, with auto_fix_unclosed_tag on or off (auto_fix_unescaped_lt off)",
 "two literals are tested; text on both sides of the stray tag, repeated strays and strays inside nested elements are not",
 [("parse_tagend", P), ("parse_wait (text continuation)", P), ("parse_unkown_tag (saved previous node)", P)], observe=["Doc::parse", "DocHolder::render"]))
L.append(prop("C08", "auto_fix_unescaped_lt keeps a bare '<' as text",
 "With auto_fix_unescaped_lt a '<' that is followed by a character other than an ASCII letter, '/' or '!' is kept as text and rendered as '&lt;' in the innermost open element: the document renders as if the source had '&lt;' there. Without the option such input is rejected, and input without a bare '<' is not changed by the option; a '<' that ends the input is an error either way.",
 ["inputs", "configurations"], "all strings, with any setting of auto_fix_unclosed_tag (auto_fix_unexpected_endtag off)",
 "a few literals; repeated '<<', '<' right after a tag, in nested elements or after whitespace are not covered",
 [("Doc::fix_unescaped_lt", P), ("parse_unkown_tag", P)], observe=["Doc::parse", "DocHolder::render"]))
L.append(prop("C09", "Raw text elements keep their content verbatim",
 "The content of script, style, title and textarea elements (any letter case) is not parsed as markup: the element has no children and its content is exactly the source up to its end tag. The end tag is the first '</name' that is followed by only ASCII whitespace and '>', where name is compared with the start tag's name ignoring ASCII case, or exactly under case_sensitive_tagname.",
 ["inputs", "configurations"], "all strings containing raw text elements",
 "three or four literals; near-miss end tags, whitespace and case variants are not covered",
 [("parse_content_tag", P), ("Doc::check_tag_type_do", P), ("is_content_tag", P)], observe=["Node.content", "Node.end_tag"]))
L.append(prop("C10", "Attributes are tokenised exactly",
 "The attributes of a start tag are exactly those written in the source, in order: keys as written, values without their quotes, quote character recorded, no value when none is given. A quoted value runs to the next same quote, an unquoted one to whitespace or '>', a key to whitespace, '=', '/' or '>'; a '=' where a key should start is rejected unless allow_attr_key_starts_with_equal_sign is set. The lowercase name map gives for every key the index of its first occurrence and contains nothing else.",
 ["inputs", "configurations"], "all start tags and doctypes in all strings",
 "about ten attribute spellings are tested",
 [("parse_tag_wait, parse_tag_attr_key, parse_tag_attr_value, parse_tag_self_closing", P), ("Doc::set_tag_attr_key, Doc::set_tag_attr_value, Doc::add_tag_attr_key", P)],
 state=[{"name": "TagMeta.attrs/lc_name_map/code_in", "meaning": "attributes of the tag being read", "where": P}], observe=["TagMeta.attrs", "TagMeta.lc_name_map"]))
L.append(prop("C11", "get_element_by_id finds the element with that id",
 "For a parsed document get_element_by_id(v) returns a node exactly when some tag (or doctype) in the source has an attribute named id (any letter case) whose value is v, and the node returned is one that has this attribute value. The lookup is exact on the value, and when the id is used once the returned node is that very node of the tree.",
 ["inputs"], "all accepted strings, all query strings",
 "one document with two ids is tested",
 [("Doc::set_tag_attr_value", P), ("Attr::check_if_id", P), ("get_element", P)], observe=["DocHolder::get_element_by_id"]))
L.append(prop("C12", "Errors point at the right place in the source",
 "A parse error reports the character index, line and column of its cause: an unclosed element or an unfinished '<', comment, CDATA, doctype or end tag, and a malformed tag opening, are reported at their '<'; every other error at the character being read when it is detected. Lines are separated by \\n, \\r or \\r\\n; the line is one plus the number of line breaks up to and including that character, and the column is the number of characters after the last of those line breaks, that character included.",
 ["inputs", "configurations"], "all rejected strings",
 "no test looks at an error position",
 [("CodeRegion::from_context_index", "src/position.rs"), ("create_parse_error, Doc::error, Doc::eof", P)],
 files=[P, "src/position.rs", "src/error.rs"], state=[{"name": "Doc.position/mem_position", "meaning": "index of the current character / of the last '<'", "where": P}],
 observe=["Display of the error"]))
L.append(prop("C13", "minify_spaces collapses only insignificant whitespace",
 "With minify_spaces, outside pre elements each run of ASCII whitespace inside a text that has other characters is rendered as its first character, and whitespace-only text between tags is dropped (whitespace that is the only child of a closed element counts as text). Inside pre elements, at any depth, and in tags, comments, CDATA and raw text nothing changes; what follows a pre element is minified as before it.",
 ["inputs"], "all parsed documents",
 "two or three literals; nested, self-closed or upper-case pre are not covered",
 [("Node::build_node (Text, SpacesBetweenTag)", P), ("RenderStatus.is_in_pre in build_tree", P), ("Doc::set_text_spaces_between", P)], observe=["DocHolder::render"]))
L.append(prop("C14", "Tag options change only what they name",
 "lowercase_tagname only lowercases (ASCII) the names in start and end tags, remove_endtag_space only removes whitespace between the name and '>' in end tags, always_close_void only writes ' /' before the '>' of void elements, and remove_comment only leaves out comments. Each holds for every document and independently of the other options.",
 ["inputs", "configurations"], "all parsed documents, all combinations of these options",
 "each option is tested on one or two literals",
 [("Node::build_node", P)], observe=["DocHolder::render"]))
L.append(prop("C15", "remove_attr_quote never changes the attributes",
 "A document rendered with remove_attr_quote parses again to the same elements with the same attribute keys and values. Quotes are dropped only from attributes with a key and a value that is not empty and has no whitespace, quotes, '<', '>', '=' or backtick, and from those they are always dropped.",
 ["inputs"], "all documents accepted with default parse options",
 "one literal is tested",
 [("Attr::build, Attr::need_quoted_value, Attr::need_quoted_char", P), ("TagMeta::attrs_to_string", P)], observe=["DocHolder::render", "Attr::build"]))
L.append(prop("C16", "Entity options transform exactly the right content",
 "decode_entity renders each text node as the entity-decoded form of what would be rendered without it and touches nothing else. encode_content renders the content of title and textarea with '&', '<' and '>' replaced by '&amp;', '&lt;' and '&gt;' and touches nothing else, not script or style.",
 ["inputs", "configurations"], "all parsed documents, with and without minify_spaces",
 "two or three literals are tested",
 [("Node::build_node", P), ("write_content_encode", P)], observe=["DocHolder::render"]))
L.append(prop("C17", "inner_html and inner text select the right content",
 "For an element, inner html is its outer html without its own start and end tag, and inner text is the concatenation of the text inside it in document order, with raw text content and without any tags or comments (CDATA sections and doctypes are kept as written). On the root both apply to its only element; the inner text of a comment is its content.",
 ["inputs", "configurations"], "all elements of all parsed documents, all render options",
 "a few literals are tested",
 [("Node::build", P), ("Node::build_node need_tag logic", P)], observe=["Node::build", "DocHolder::render", "DocHolder::render_text"]))
L.append(prop("C18", "A cloned node is an equal, independent copy",
 "Cloning any node of a parsed document gives a detached node that renders exactly like the original under all options, with the same attributes, child order, indexes and child-to-parent links inside the copy, positions counted from the start of the cloned node, and no parent. The copy shares no node with the original, so changing one never changes the other.",
 ["inputs"], "all nodes of all parsed documents",
 "one document is cloned in the tests",
 [("Node::clone_node, Node::clone_node_with, Node::clone_node_without_childs", P)], observe=["Node::clone_node", "Clone for Node"]))
L.append(prop("C19", "svg and math scope is exactly the element",
 "Self-closing of arbitrary elements is accepted inside an svg or math element (any letter case), from the end of its start tag to its own end tag and not outside; nested svg/math elements and elements of any depth inside do not end the scope. CDATA sections are accepted exactly inside that scope when the innermost open element is not named like the element that opened it; elsewhere '<![' is rejected.",
 ["inputs", "configurations"], "all strings with svg/math elements in any nesting",
 "one svg and one mathml literal are tested",
 [("Doc::check_tag_type_do, parse_tagend (in_special)", P), ("parse_exclamation_begin", P), ("parse_tag_self_closing", P)],
 state=[{"name": "Doc.in_special", "meaning": "open svg/math element and its depth", "where": P}], observe=["Doc::parse"]))
L.append(prop("C20", "is_document recognises whole documents",
 "is_document on the root reports a document exactly when an html element (any letter case) is among its children; the second flag is false exactly when it is a document and the root also has other elements, text or anything besides comments, doctypes and whitespace. Any other node reports (false, true).",
 ["inputs"], "all child lists of parsed roots",
 "four literals are tested",
 [("Node::is_document", P)], observe=["Node::is_document"]))
L.append(prop("C21", "parse_file is parse of the file's content",
 "For every readable UTF-8 file, parse_file gives the same result as parsing the file's content as a string with the same options: same tree, same rendering, same error text and position, for every line ending. A missing, unreadable or non-UTF-8 file gives an error, never a panic.",
 ["inputs", "configurations"], "all file contents, absolute and relative paths",
 "one small file is tested",
 [("Doc::parse_file", P)], observe=["Doc::parse_file"]))
L.append(prop("C22", "Character and tag classifiers are exact",
 "The public classifiers agree with their definitions on every argument: the Unicode non-character set; attribute key characters (ASCII letters, digits, '_', '-', '.', ':' and non-ASCII characters other than non-characters); unquoted value characters (no ASCII whitespace, NUL, quotes, '<', '>', '/', '=' or backtick). is_content_tag is true exactly for script, style, title and textarea under the given case rule, and allow_insert forbids children of void elements, non-text in title/textarea and CDATA outside svg/math, in any letter case.",
 ["inputs"], "every char; every name",
 "there are no tests of these functions",
 [("is_non_character, is_char_available_in_key, is_char_available_in_value", "src/util.rs"), ("is_content_tag, allow_insert", P)],
 files=["src/util.rs", P], observe=["rphtml::util", "rphtml::parser::is_content_tag", "rphtml::parser::allow_insert"]))
L.append(prop("C23", "Nodes record where they start in the source",
 "In a document parsed with the auto-fix options off, every element, comment, doctype and CDATA node records the character index of its '<' as its start and every text node the index of its first character. Text nodes and comments record the index just after their last character as their end, and the root ends at the length of the input.",
 ["inputs"], "all nodes of all accepted strings",
 "no test looks at node positions",
 [("Node::new call sites", P), ("Doc::set_tag_end_info", P), ("Doc::eof", P)],
 state=[{"name": "Doc.position/mem_position", "meaning": "index of the current character / of the last '<'", "where": P}], observe=["Node.begin_at", "Node.end_at"]))
L.append(prop("C24", "Public building blocks make what they are asked for",
 "Node::create_text_node gives, for every content and position, a node without any links that holds exactly this content at this position (0 if none is given) and renders as it by default: of type SpacesBetweenTag if every character is ASCII whitespace (or there is none), of type Text otherwise. Node::new gives an empty node of the kind and at the position asked for. TagMeta's add_attr_key, add_attr_value, set_attr_key and set_attr_value append an empty key or quoted value, or replace the key or the value and quote of the last attribute, and touch nothing else. Attr::check_if_id gives the value exactly for a key 'id' (any letter case) with a value, Attr::need_quoted_char is true exactly for ASCII whitespace, quotes, '<', '>', '=' and backtick, and Node::is_same is true exactly for one and the same node.",
 ["inputs"], "every content, position, character, attribute and pair of nodes",
 "no test calls these functions directly",
 [("Node::create_text_node, Node::new, Node::is_same", P), ("TagMeta::add_attr_key, add_attr_value, set_attr_key, set_attr_value", P), ("Attr::check_if_id, Attr::need_quoted_char", P)], observe=["rphtml::parser::Node", "rphtml::parser::TagMeta", "rphtml::parser::Attr"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        f.write(json.dumps(p) + "\n")
print(len(L))
