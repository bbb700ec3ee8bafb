"""What each check proves and what stays bounded (used by check.py, tools/gen_manifest.py and quoted in DESIGN.md)."""
# property -> (what the discharged obligations establish, what is left to a paper argument or to the bounded search)
TEXT = {
"C01": ("no panic, overflow, RefCell conflict or bad index on any path of Doc::new, Doc::next (from every reachable parser state, any character), Doc::eof and Doc::parse, nor in the position computation of errors", "memory and call stack exhaustion are outside the claim; positions and node counts are assumed below isize::MAX; dropping the tree is not modelled"),
"C02": ("every finished document satisfies what rendering needs (texts and end tags have content, tags and doctypes data, child lists are not empty), and Node::build_node, build_tree, build, Attr::build, attrs_to_string and DocHolder::render* do not panic on any node of such a document except in the documented inner_html/inner_text cases", "call stack exhaustion on extreme nesting is outside the claim"),
"C03": ("parent, index, root and end tag links as an invariant of every parser step and of the end of the input; Doc::into_root links the root to the document", "that no node occurs twice follows from index and parent being functions of the node (each child names one parent and one index)"),
"C04": ("the rendering of what has been read is an invariant of the parser's specification machine: every step appends exactly what the property says is kept of its character, at the end it is what build_tree writes for the document (no auto-fix used, default options); reading that rendering again, with default options, runs through related states and ends in a document with the same data, which renders alike. Doc::new, Doc::next and Doc::eof take the steps of that machine (product), build_node and build_tree write what their contracts say", ""),
"C05": ("which element each end tag closes, when it is rejected, void and self-closing rules, the open-element stack as an invariant and the place of every new node, for every step and the end of the input", ""),
"C06": ("at the end of the input: which ends are accepted, that exactly the open elements that are not void get an end tag with their name, that nothing else changes, that a pending name, attribute or value is kept, and what happens to pending text; lemmas: the end tag of the innermost open element written out leads to the same document (step of the induction over the number of open elements), and where nothing is unclosed the option changes nothing", ""),
"C07": ("a stray end tag step restores the state before it (current node, remembered text, tree unchanged); a matching one closes the element; letter case rule; lemmas: the states before a stray end tag and after it are related, related states take the same steps, stay related and end in documents with the same data, and without stray end tags the option changes nothing", ""),
"C08": ("the step after a bare '<' appends '&lt;' and the character to the text (or a new text) of the innermost open element, or rejects without the option; lemmas: the states after '<c' and after '&lt;c' are related, related states take the same steps, stay related and end in documents with the same data, and without a bare '<' the option changes nothing", ""),
"C09": ("entering, staying in and leaving raw text for each of the four elements, the content stored, the end tag recognised, both case rules", ""),
"C10": ("attribute tokenisation step by step (keys, values, quotes, missing values, '=' rule), the name map as an invariant over all tags", ""),
"C11": ("the id map as an invariant (every id is in it, what is in it has that id) over every step, and the exact lookup", ""),
"C12": ("the index of every error of every step and of the end of the input; line and column by the loop of CodeRegion::from_context_index for every text and index; errors are returned by Doc::parse unchanged", "the text format of the error (Display) is only searched"),
"C13": ("which texts are classified as blank between tags, for every step; what build_node writes for each kind with minify_spaces inside and outside pre; build_tree restores the pre flag", ""),
"C14": ("the exact output of build_node for every node kind as a function of all options", ""),
"C15": ("Attr::build and attrs_to_string: exactly which attributes lose their quotes and the exact characters written; lemmas: the rendering with remove_attr_quote of what has been read is an invariant of the specification machine, and reading it again runs through states with the same elements, keys and values and ends in such a document", ""),
"C16": ("which content is passed to the entity decoder or encoded, and that nothing else depends on these options", "the entity decoder is a dependency (htmlentity): an uninterpreted function here; the three encodings are its assumed contract, confirmed for every character by an exhaustive run"),
"C17": ("what build, build_tree and build_node select for inner html, inner text and outer html at the root of the rendering and below it, and the lemmas that compose them: outer html is the start tag, the inner html and the end tag, and what each node kind adds to an inner text (base and step cases of the induction over the tree)", ""),
"C18": ("clone_node_with's contract over the whole subtree (data, positions, order, indexes, parent links, fresh nodes only, nothing old changed) with its recursion and loop; clone_node and Clone for Node on top; positions never underflow because the parser keeps children and end tags after their element; and the lemmas that a tree with the same data renders alike in every mode and under all options", ""),
"C19": ("the svg/math scope as an invariant (it belongs to the outermost open svg or math element), self-closing and CDATA acceptance in every step", ""),
"C20": ("both flags of is_document for every child list", ""),
"C21": ("parse_file (instance for &str paths) hands exactly the content of the named file and the given options to Doc::parse once and returns its result as it is; every failing file system call ends in an error value, no path panics, and an error arises only if a call failed; Doc::parse reads exactly the characters of that string in order", ""),
"C22": ("the classifiers, is_content_tag and allow_insert against their definitions for every argument", ""),
"C23": ("begin and end positions of every node kind for every step and the end of the input; Doc::parse keeps position equal to the number of characters read", ""),
"C24": ("create_text_node, Node::new, the four attribute setters, check_if_id, need_quoted_char and is_same against their definitions for every argument; the rendering of a text is in the contract of build_node", "setting a key or value when there is no attribute is a documented panic and outside the claim"),
}
PARTIAL = set()     # properties for which a paper argument or a bounded search is part of the decision
COMPOSED = {"C04", "C06", "C07", "C08", "C15"}     # proved by lemmas over the specification machine: every obligation of the product is part of the argument
def level(p): return "other" if p in PARTIAL else "proof"
TRUSTED = ["the VC generator /verif/mirv (symbolic execution of MIR with contracts and loop invariants) and its memory model",
    "rustc's MIR (mir-opt-level 0, overflow checks on) and the dumper /verif/mirdump", "z3"]
def trusted(pr):
    t = list(TRUSTED)
    if pr.get("modeled"): t.append("models of std and dependency functions (%d): %s" % (len(pr["modeled"]), ", ".join(pr["modeled"])))
    return t
def assumptions(p):
    a = ["input length, node count and nesting depth are below isize::MAX (2^63-1) and memory and stack suffice",
        "std containers, Rc/RefCell, iterators and char methods behave as their models say (listed in trusted_base)",
        "the specification in mirv/pstep.py, spec.py, render_units.py and the other *_units.py says what the property says"]
    if p in ("C16",): a.append("htmlentity::decode_chars_to is a function of its input and encoding maps '&', '<', '>' as stated")
    if p == "C21": a.append("the file system: a file's content is the same through a relative, joined or canonical path, read_to_string gives the whole content or an error and rejects what is not UTF-8; other path types than &str behave like it")
    if TEXT[p][1]: a.append("not proved: " + TEXT[p][1])
    return a
def explain(p, pr, se):
    return "Obligations generated from the MIR of the current tree and discharged by z3: %s.%s A seeded search of the real crate (bounded_search) runs as well; it supplies failing inputs and stands in, as a bounded check, for any obligation listed under not_discharged." % (TEXT[p][0], (" Not proved: %s." % TEXT[p][1]) if TEXT[p][1] else "")
def note(p):
    return ("Machine-checked for all inputs: %s. " % TEXT[p][0]) + ("Left over: %s. " % TEXT[p][1] if TEXT[p][1] else "") + "Trusted: the VC generator in mirv/, rustc's MIR, models of std functions, z3 (see DESIGN.md)."
def technique(p):
    return "contracts and invariants over the compiled MIR, discharged by z3"
def known(p):
    """unfixed findings of this property (none so far); the fixed ones are in known_findings.txt"""
    import os
    out = []
    try:
        for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.txt")):
            if l.startswith("finding: property=%s " % p): out.append(l.split(" ", 2)[2].strip())
    except OSError: pass
    return out
