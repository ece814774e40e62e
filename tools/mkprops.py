#!/usr/bin/env python3
"""Writes properties.jsonl; the text of the properties lives here."""
import json
LP="src/hml_reader/lexer_parsers.rs"; PA="src/hml_reader/parser.rs"; BU="src/hml_reader/builder.rs"
TK="src/hml_reader/token.rs"; UT="src/hml_reader/utils.rs"; ER="src/error.rs"; EV="src/markup/event.rs"
NS="src/names/namespace.rs"; ST="src/names/namespace_stack.rs"; NM="src/names/name.rs"; AT="src/names/attribute.rs"
ID="src/names/ids.rs"; TG="src/names/tag.rs"; ES="src/escape.rs"; HE="src/hml/escape.rs"; CV="src/bin/hmlconvert.rs"; DOC="src/lib.rs"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
RD="Parser::next_event fed by Lexer::iter(&parse_fns()), through the public API"

prop("C01","Reading any text is total and memory safe",
 "Reading any Unicode text as HML ends after a number of steps bounded by the length of the text, and every step returns an event or an error: nothing panics, aborts, hangs, reads outside the text or splits a character. This also holds when the caller keeps asking after an error or after the end of the document.",
 ["inputs","histories"],"every Unicode text (control characters, multi-byte characters, truncated constructs, any depth or size), and every number of further requests after the first error or after the end",
 "The tests read a few dozen well-formed ASCII texts; the lexer underneath slices the text unchecked, so a single position that is wrong for some truncated or multi-byte text is undefined behaviour that no test reaches.",
 [LP,PA,BU,TK],[("character-wise position stepping",LP+" parse_comment_line, parse_whitespace, parse_quoted_string"),("event loop and its pending slots",PA+" next_event"),("no assertion reachable from input",PA+" pop_tag_stack")],
 [("token_pos","end of the last token","src/hml_reader/parser.rs"),("tag_stack","open elements",PA)],[RD])
prop("C02","The event stream is always well formed",
 "For every text the events start with exactly one start of document carrying the requested version, which is 100 if none is requested; every end of element names the innermost open element and has the same name as its start; content and elements lie inside the element that is open; and if no error occurs the stream ends with exactly one end of document after all elements are closed. After the end every further request reports that there is nothing more, and an event's type and accessors agree with what it carries.",
 ["inputs","histories","configurations"],"every text, every requested version, every number of requests beyond the end",
 "A test compares one event list; the invariant has to hold for every text, also those that fail half way and those that close many elements at once or at the end of the text.",
 [PA,BU,EV],[("pending open/close/eof handling",PA+" handle_open_tag, handle_close_tag, handle_pending_eof"),("element stack",BU+" StackElement"),("accessors",EV)],
 [("start_emitted, end_emitted, finished","phase of the stream",PA)],[RD,"Event::get_type, as_*, is_*, borrow_span"])
prop("C03","Events describe the element tree; boxing and layout are only notation",
 "For every tree of elements with attributes, text and comments, each way of writing it - any choice of which elements are boxed, any separating whitespace and line breaks, any quoting style - is read as the same events apart from positions, and these are exactly the tree in document order. In particular the number of hashes alone decides whether a tag is a child, a sibling or belongs to an ancestor.",
 ["inputs","programs"],"all trees (any shape, depth and mix of content), times all ways to box and lay them out",
 "The tests have about 20 fixed documents, one layout each; the claim relates all layouts of all trees.",
 [PA,BU,LP],[("depth tracking relative to the innermost box",PA+" handle_open_tag, pop_tag_stack"),("parent depth restored on close",BU+" as_end_element")],
 [("tag_depth","depth below the innermost box",PA)],[RD])
prop("C04","Structural mistakes are rejected, at the offending construct",
 "A text is rejected exactly at the first tag that is more than one level deeper than its surroundings, close tag that does not match the innermost open box in name and depth, attribute that does not directly follow its tag and its other attributes, text outside any element, or end of text inside a box. The error names the fault and the construct (with the depth that would have been allowed, or the attribute's name), the events of everything completed before it have been delivered, and a text with no such mistake is not rejected for its structure.",
 ["inputs"],"all sequences of tags of any depth, boxed or not, close tags, attributes, strings and comments",
 "The tests contain a handful of rejected documents; acceptance has to be decided for every sequence of constructs and every depth.",
 [PA,BU,ER,DOC],[("depth comparison",PA+" handle_open_tag"),("close tag match",PA+" handle_close_tag"),("attribute only while the start element is built",PA+" handle_token"),("unclosed box at the end",PA+" handle_pending_eof")],
 [("start_element_building","attributes are allowed",PA),("tag_depth","depth below the innermost box",PA)],[RD,"HmlError variant, span and fields"])
prop("C05","Text and attribute values are delivered verbatim",
 "A string opened with n hashes and a quote delivers exactly the characters up to the first same quote that is followed by n hashes: any characters with n of at least one, any but a line break with none; a leading r marks it raw and otherwise it is to be interpreted, and nothing is dropped, merged or altered. An attribute delivers exactly the characters between its quotes, or up to the next whitespace if not quoted, and attributes keep their order. A string that is not terminated is never delivered.",
 ["inputs"],"all string contents and delimiters: every character, every number of hashes, both quotes, quotes and hashes inside the string, strings cut off by the end of the text",
 "The tests have a few strings with at most four hashes; termination has to be right for every interleaving of quotes and hashes, every count and every character.",
 [LP,PA,TK],[("quoted string scan",LP+" parse_quoted_string"),("string prefix",LP+" parse_character_string"),("attribute value",LP+" parse_string, parse_attribute")],
 [],[RD])
prop("C06","Comments are delivered verbatim and never change anything else",
 "A comment runs from a semicolon to the end of its line; adjacent comment lines (separated only by blanks) are delivered as one comment with the exact text of each line, a line break between lines, and the length of each line, and an empty line is kept. Comments after content or between elements change no other event, and nothing that follows the end of the line is swallowed.",
 ["inputs"],"all comment texts and groupings (empty lines, multi-byte characters, end of text, indentation), inserted at every place between constructs of every document",
 "The tests have comments that start with a blank and end with a line break; the boundary cases (empty, at the end of the text, multi-byte, grouped) are not reached.",
 [LP,PA,EV],[("comment line scan and grouping",LP+" parse_comment_line, parse_comment"),("joining of lines",PA+" handle_token")],
 [],[RD])
prop("C07","Names follow the XML name rules for every character",
 "A tag, attribute or prefix name starts with a character that XML permits at the start of a name without a colon and continues with exactly the characters that XML permits in one; a name may have one prefix separated by a single colon. Every other character ends the name and, where it is not permitted, is rejected; names are delivered character for character.",
 ["inputs"],"all 1,112,064 Unicode characters at the first and later positions of tag, attribute and prefix names, and all combinations of name, colon and delimiter",
 "The tests use ASCII letters only; the classes are hand-written ranges, and a wrong bound affects a few characters out of a million.",
 [UT,LP],[("character classes",UT+" is_name_start, is_name"),("name and prefix scan",LP+" parse_name, parse_namespace_name")],
 [],[RD])
prop("C08","Reported source positions are exact",
 "The byte offset, line and column at the start and end of every event and error are those of the construct it stands for: a tag, string or comment spans exactly its text, an element closed implicitly ends at the start of the tag that closed it or at the end of the last construct of the document, and an error covers the construct that is at fault. Lines and columns count line breaks and characters (not bytes) from one, and positions never go backwards.",
 ["inputs"],"every text with any mix of line breaks, other whitespace and multi-byte characters, every event and every error",
 "The tests hardly look at positions; they are computed in several places, by bytes and by characters, and must be right for every mix of line breaks and multi-byte characters.",
 [LP,PA,BU,ER],[("position stepping",LP),("spans of events",PA+" and "+BU),("span of an error",ER+" span")],
 [("token_pos","end of the last token",PA)],["Event::borrow_span","HmlError::span"])
prop("C09","Namespace declarations scope over exactly their element",
 "In a namespace-aware reading every tag and attribute name gets the URI that the innermost enclosing declaration of its prefix gives it: a declaration covers the element it is on, all attributes of that element whatever their order, and its descendants, and nothing else; inner declarations shadow outer ones until their element ends. A prefix with no declaration in scope is rejected at that name, the predeclared prefixes are available from the start, and a reading that is not namespace-aware treats such attributes as ordinary.",
 ["inputs","configurations"],"all documents with declarations, shadowing and uses at all places (also in boxes and close tags), in namespace-aware and plain reading",
 "The tests have three documents with one declaration each; scoping is a relation between all places of declaration and use.",
 [BU,AT,NM,ST,PA],[("one frame per element",BU+" StackElement::new, as_end_element"),("declaration before resolution",BU+" as_start_element"),("lookup through the frames",ST+" find_mapping")],
 [("frames","mappings in force",ST)],[RD+" with Namespace::new(true) and Namespace::new(false)"])
prop("C10","The namespace stack resolves prefixes to the innermost mapping",
 "After any sequence of pushing and popping frames and adding mappings (by name or by identifier, unconditionally or only if unset in the top frame), looking up a prefix gives the mapping most recently added to the topmost frame that has one, or nothing; iterating yields each mapping in force exactly once; and the mappings of the top frame are exactly those added to it. Popping restores exactly what was in force before the push, and adding a mapping if unset reports whether it was added.",
 ["histories","configurations"],"all sequences of operations over all prefixes and URIs including the empty ones, with and without the XML defaults",
 "The test runs one sequence; shadowing, overriding and restoring depend on the order of operations.",
 [ST,NS],[("frames",ST+" NamespaceStackFrame"),("lookup",ST+" find_mapping"),("iteration",ST+" NamespaceStackIterator, iter_top_mappings")],
 [("frames","stack of prefix to URI maps",ST)],["NamespaceStack public methods and IntoIterator"])
prop("C11","Interned identifiers are in bijection with strings and never change",
 "Within a namespace the same string always has the same identifier, different strings have different identifiers, and an identifier resolves to its string for as long as the namespace lives, whatever is added later; the empty string and only that is the none identifier. Names, prefixes and URIs are independent of each other, and looking something up adds nothing.",
 ["histories","inputs"],"all sequences of additions and lookups of names, prefixes and URIs, over any strings and any number of them",
 "The test adds two strings; stability and injectivity concern every history and every pair of strings.",
 [NS,ID,ST],[("search before insertion",NS+" find_or_add_name, find_or_add_prefix, find_or_add_uri"),("identifier encoding",ID)],
 [("names, prefixes, uris","interning tables",NS)],["Namespace and NamespaceStack lookups, NSNameId, NSPrefixId, NSUriId, NSMap"])
prop("C12","XML events carry the same document",
 "Each markup event converts to the XML writer event and XML reader event of the same kind with the same names, prefixes, attributes in order, text, comment text, processing instruction and version (1.0 for 100, else 1.1), only the end of document having no writer event. For a document with one root element and text that XML can represent, the XML written from its events is well formed and an XML reader gets the same tree, namespaces, text and comments from it.",
 ["inputs","configurations"],"all documents up to a size, with and without namespaces, all kinds of events, both XML versions",
 "No test converts an event to XML at all.",
 [EV,NM,AT],[("writer conversion",EV+" as_xml_writer"),("reader conversion",EV+" as_xml_reader"),("name conversion",NM+" as_xml_name")],
 [],["Event::as_xml_writer, as_xml_reader; xml-rs EventWriter and EventReader"])
prop("C13","hmlconvert converts whole documents and reports every failure",
 "For every HML document hmlconvert writes the XML of all of its events, the same whether it is read from a file or from standard input and whether the result goes to standard output or to the file given by --output, with the version given by --xml_version, and exits with status zero. For every text that is not HML it exits with a non-zero status and reports the error with its source line on standard error, and it never panics on the content of the text. Input that cannot be read or is not UTF-8, and output that cannot be written, give a non-zero status as well.",
 ["inputs","configurations"],"all texts up to a size, times input from file or stdin, output to stdout or file, and version options",
 "No test runs the program.",
 [CV,EV],[("conversion loop",CV+" main")],
 [],["process: stdin, stdout, stderr, files and exit status"])
prop("C14","XML escaping is reversible and minimal",
 "Escaping replaces exactly the ampersands, less-than signs and those optional characters that the mask selects by their references and leaves everything else as it is, so that the result has no raw character that had to be escaped; it reports that nothing is needed exactly when there is nothing to replace. Replacing the standard references in the result gives back the original text, for every text and every mask.",
 ["inputs","configurations"],"all texts, all 32 masks (and masks with unrelated bits), also from a given start and up to a given end",
 "The tests escape seven texts with one mask.",
 [ES],[("two passes that must agree on what needs escaping",ES+" escape, escape_required")],
 [],["escape::escape, escape::escape_required, Entities::replace_entities"])
prop("C15","Exactly the well-formed references are replaced",
 "Replacing entities replaces each decimal or hexadecimal character reference to a Unicode character by that character and, if named entities are enabled, each name of the set by its value, exactly once and without looking at the result again; every other character of the text, including malformed, out-of-range or unknown references, is kept. It reports that nothing was replaced exactly when the text has no replaceable reference.",
 ["inputs","configurations"],"all texts, all numbers in references (all of Unicode, surrogates, out of range, overflowing, leading zeros), named entities on and off",
 "The tests replace ten texts; the reference scanner is a hand-written state machine with overflow and malformed cases.",
 [ES],[("reference scanner",ES+" find_span"),("assembly of the result",ES+" replace_entities, replace_entities_required")],
 [],["Entities::replace_entities"])
prop("C16","HML escapes are expanded as documented, and nothing else",
 "Every legal escape of the documentation (\\0 \\t \\n \\r \\\" \\' \\\\, \\xXX up to 7f, \\u{...} with one to six hexadecimal digits for a Unicode character) expands to its character and all other text is unchanged. A text with any other backslash sequence, a truncated one or one that denotes no Unicode character is rejected, without a panic.",
 ["inputs"],"all texts, all hexadecimal digits and values, truncation at every place",
 "The tests cover 18 texts of one escape each; the states of the decoder interact with what follows and with the end of the text.",
 [HE,DOC],[("decoder",HE+" unescape, opt_unescape, hex_of_byte")],
 [],["Escapable::new and as_ref, made public by the hml_verif cfg"],"the module is private: cfg hml_verif makes it public")
prop("C17","Results do not depend on the position type or the text source",
 "Reading a text gives the same events and errors, with the same byte offsets, whether positions are plain offsets or also track line and column, and whether the text comes from the library's own string lexer or from another implementation of the documented character stream interface, including one with only the required methods. No request outside the text or inside a character is ever made to such a source.",
 ["inputs","configurations"],"all texts, times position types, times stream implementations",
 "The tests use one position type and one lexer.",
 [LP,PA,"src/hml_reader.rs"],[("generic token functions",LP+" parse_fns"),("generic parser",PA)],
 [],["parse_fns with LexerOfStr and with the harness's checking streams"])
prop("C18","Readers are silent and do not influence each other",
 "Reading writes nothing to standard output or standard error, and the events of a text depend only on the text and the options: they are the same whatever was read before with the same namespace - completely, partly or with an error - and whatever other readers are in progress, in any interleaving. A completely read document leaves the prefix mappings as they were before it.",
 ["histories","schedules"],"all sequences of documents read with one namespace, all interleavings of the steps of two readers",
 "Each test reads one document with a fresh namespace and does not look at its own output.",
 [PA,BU,ST,NS,AT],[("frames popped with their element",BU+" as_end_element"),("no global state",PA),("append-only interning",NS)],
 [("frames","mappings in force",ST),("names, prefixes, uris","interning tables",NS)],[RD,"process stdout and stderr","NamespaceStack lookups after reading"])
prop("C19","Names, attributes and tags resolve through the namespace or fail cleanly",
 "Making a name from a prefix and a local name, or from a string with at most one colon, yields a name that resolves to exactly those strings and to the URI its prefix has at that moment and prints back as it was written, a string without a colon being in no namespace; an empty local name, a prefix that is not mapped or a second colon gives the error that says so. Two names are equal exactly if prefix, name and URI are, two attributes if also their values are. Attribute lists keep all attributes in order when added to, moved from one list to another and taken, and a failed operation changes no mapping.",
 ["histories","inputs"],"all sequences of operations on names and attribute lists over all small strings, in all namespace states",
 "No test uses these operations directly.",
 [NM,AT,TG,ST,ER],[("construction",NM+" new, new_local, from_str"),("printing",NM+" to_string"),("lists",AT+" Attributes")],
 [],["Name, Attribute, Attributes and Tag public methods, MarkupError"])
prop("C20","Malformed tokens are rejected by the fault they have",
 "A text is rejected exactly at the first place where no construct of the grammar can start or continue: hashes with no name, a tag not followed by whitespace, an attribute with no equals sign or no value, a string that is not closed, the end of the text inside an attribute, or a character that starts nothing. The error names that fault, covers that place and carries the offending character, the events of everything completed before it have been delivered, and a text without such a place is not rejected for its tokens.",
 ["inputs"],"all texts up to a length over the characters that matter to the grammar, and all Unicode characters at each kind of place",
 "The tests check for one or two of these that there is some error.",
 [LP,ER],[("token functions in order",LP+" parse_fns"),("errors of the tokens",LP+" parse_tag, parse_attribute"),("fallback error",ER+" failed_to_parse")],
 [],[RD,"HmlError variant, span and fields"])
prop("C21","Errors carry and print exactly what they were made for",
 "Every error, whether made by one of the constructors, from a markup or I/O failure, by the lexer for a character at which nothing can start, or reported by a reading, has exactly the span it was made for (only the request for more after the end has none) and carries unchanged the character, depth, attribute name or underlying failure that it is about. Its message includes these, its source is the underlying failure if there is one and nothing otherwise, and faults of different kinds have different messages. Mapping a result that is not an error leaves it as it is.",
 ["inputs","configurations"],"all kinds of errors, all pairs of positions of a text and types of positions, all Unicode characters, depths and name lengths around all powers of two, all errors of readings of all texts up to a length",
 "The tests look at no message and at no span of an error.",
 [ER],[("constructors",ER+" HmlError, MarkupError"),("places",ER+" span"),("messages",ER+" error attributes"),("mapping",ER+" map_markup_error, of_io_result")],
 [],["HmlError and MarkupError: public constructors, span, Display, source and fields",RD])
prop("C22","Reading asks for the characters of a text a bounded number of times",
 "The number of requests for characters that reading makes of the text source, up to the end of the document or the first error, is at most in proportion to the length of the text: no more than 16 for each character and 64 besides, whatever the text is. So no construct, whether long, nested, repeated or left open, is read again and again.",
 ["inputs"],"all texts up to a length over the characters and constructs of the grammar, and families of texts that grow in each of the ways the grammar allows, complete and cut off at every place",
 "The tests read short texts and do not look at the work that is done.",
 [LP,PA],[("token functions",LP+" parse_fns"),("strings and hashes",LP+" parse_quoted_string"),("comments of several lines",LP+" parse_comment")],
 [],[RD,"the number of calls of CharStream methods on the harness's checking stream"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
import re
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    print(p["id"],len(p["title"]),len(re.findall(r"[.](?: |$)",p["statement"])))
